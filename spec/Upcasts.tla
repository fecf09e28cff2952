------------------------------- MODULE Upcasts -------------------------------
(* Conversions to base classes (property P20).  A graph is a sequence of        *)
(* classes, each deriving from earlier ones.  A reference denotes a subobject   *)
(* of a complete object: the path of classes from the object's class down to    *)
(* it, cut at the last virtual base (of which an object has one only).          *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS MaxClasses, MaxBases, Accs, Virts, Aliases, KindsOf, Schemes, Pures, Bounds

VARIABLES classes, scheme, ref
vars == <<classes, scheme, ref>>

(* ---- C++ ---- *)
Direct(cs, d) == DOMAIN cs[d].bases
BaseAt(cs, d, k) == cs[d].bases[k].c
Public(cs, d, k) == LET b == cs[d].bases[k] IN b.acc = "public" \/ (b.acc = "default" /\ cs[d].kind = "struct")
\* A path is [at: the class reached, id: the subobject, pub: whether every step is public]
RECURSIVE PathsFrom(_, _)
PathsFrom(cs, p) == {p} \cup UNION {PathsFrom(cs, [at |-> BaseAt(cs, p.at, k), pub |-> p.pub /\ Public(cs, p.at, k),
        id |-> IF cs[p.at].bases[k].virt THEN <<0, BaseAt(cs, p.at, k)>> ELSE Append(p.id, BaseAt(cs, p.at, k))]) : k \in Direct(cs, p.at)}
Paths(cs, d) == PathsFrom(cs, [at |-> d, id |-> <<d>>, pub |-> TRUE])
Ambiguous(cs, d, b) == Cardinality({p.id : p \in {p \in Paths(cs, d) : p.at = b}}) > 1
Convertible(cs, d, b) == d # b /\ ~Ambiguous(cs, d, b) /\ \E p \in Paths(cs, d) : p.at = b /\ p.pub
\* The subobject of class b within the one at path id of class d
Sub(cs, d, b) == (CHOOSE p \in Paths(cs, d) : p.at = b /\ p.pub).id
Concrete(cs, d) == ~cs[d].pure   \* (a class which is not pure implements everything it inherits)

(* ---- the bindings ---- *)
\* Permitted: direct bases which C++ converts to.  Offered, which the bindings must have: those which are not virtual.
Permitted(cs, d) == {b \in {BaseAt(cs, d, k) : k \in {k \in Direct(cs, d) : Public(cs, d, k)}} : cs[d].bound /\ cs[b].bound /\ Convertible(cs, d, b)}
Offered(cs, d) == {b \in Permitted(cs, d) : \E k \in Direct(cs, d) : BaseAt(cs, d, k) = b /\ ~cs[d].bases[k].virt}
RECURSIVE Chains(_, _)
\* all ways of converting step by step, starting with the sequence s
Chains(cs, s) == {s} \cup UNION {Chains(cs, Append(s, b)) : b \in Offered(cs, s[Len(s)])}
Reach(cs, d) == {s[Len(s)] : s \in Chains(cs, <<d>>)} \ {d}

(* ---- building graphs, then an object and a reference to it ---- *)
BaseLists(n) ==
    LET one == [c : 1 .. n, acc : Accs, virt : Virts, alias : Aliases]
        RECURSIVE Lists(_)
        Lists(m) == IF m = 0 THEN {<<>>} ELSE {Append(l, b) : l \in Lists(m - 1), b \in one}
        all == UNION {Lists(m) : m \in 0 .. (IF n < MaxBases THEN n ELSE MaxBases)}
    IN {l \in all : \A i, j \in DOMAIN l : i < j => l[i].c # l[j].c}
\* (nested abstract classes are not bound)
ClassSet(n) == [bases : BaseLists(n), kind : KindsOf, bound : Bounds, pure : IF scheme = "nested" THEN {FALSE} ELSE Pures]
Init == classes = <<>> /\ scheme \in Schemes /\ ref = <<>>
AddClass(c) == classes' = Append(classes, c) /\ UNCHANGED <<scheme, ref>>
Next == \/ ref = <<>> /\ Len(classes) < MaxClasses /\ \E c \in ClassSet(Len(classes)) : AddClass(c)
        \/ ref = <<>> /\ \E d \in DOMAIN classes : Concrete(classes, d) /\ classes[d].bound
              /\ ref' = [obj |-> d, steps |-> <<d>>, at |-> d, id |-> <<d>>] /\ UNCHANGED <<classes, scheme>>
        \/ ref # <<>> /\ \E b \in Offered(classes, ref.at) :
              /\ ref' = [ref EXCEPT !.steps = Append(@, b), !.at = b,
                        !.id = LET s == Sub(classes, ref.at, b) IN IF s[1] = 0 THEN s ELSE @ \o Tail(s)]
              /\ UNCHANGED <<classes, scheme>>
Spec == Init /\ [][Next]_vars

B(p) == RandomElement(1 .. 100) <= p
RandomBases(n) == TLCEval(
    LET m == RandomElement(0 .. (IF n < MaxBases THEN n ELSE MaxBases))
        cs == RandomElement({s \in [1 .. m -> 1 .. n] : \A i, j \in 1 .. m : i # j => s[i] # s[j]})
    IN [i \in 1 .. m |-> [c |-> cs[i], acc |-> IF B(55) THEN "public" ELSE RandomElement(Accs),
                          virt |-> IF B(75) THEN FALSE ELSE RandomElement(Virts), alias |-> IF B(80) THEN FALSE ELSE RandomElement(Aliases)]])
SimNext == ref = <<>> /\ Len(classes) < MaxClasses
           /\ AddClass(TLCEval([bases |-> RandomBases(Len(classes)), kind |-> RandomElement(KindsOf), bound |-> IF B(70) THEN TRUE ELSE RandomElement(Bounds), pure |-> IF B(70) \/ scheme = "nested" THEN FALSE ELSE RandomElement(Pures)]))
SimSpec == Init /\ [][SimNext]_vars

\* Each conversion is one which C++ has, and the reference is to a subobject of the same object.
Denotes == ref # <<>> => \E p \in Paths(classes, ref.obj) : p.at = ref.at /\ p.id = ref.id /\ p.pub
\* Converting in one step or in several gives the same subobject, where C++ has the direct conversion.
OneWay == ref # <<>> /\ ref.obj # ref.at /\ Convertible(classes, ref.obj, ref.at) => ref.id = Sub(classes, ref.obj, ref.at)
\* Step by step, all bases are reached which C++ converts to, as long as all classes are bound and no step is ambiguous.
Complete == (\A c \in DOMAIN classes : classes[c].bound /\ \A k \in Direct(classes, c) : ~classes[c].bases[k].virt) => \A d \in DOMAIN classes : \A b \in DOMAIN classes :
    Convertible(classes, d, b) /\ (\A x, y \in DOMAIN classes : ~Ambiguous(classes, x, y)) => b \in Reach(classes, d)
Emit == ref = <<>> /\ Len(classes) = MaxClasses => PrintT("CASE:" \o ToJson([classes |-> classes, scheme |-> scheme,
            chains |-> UNION {IF Concrete(classes, d) /\ classes[d].bound THEN Chains(classes, <<d>>) \ {<<d>>} ELSE {} : d \in DOMAIN classes}]))
=============================================================================
