------------------------------ MODULE Abstract ------------------------------
(* Which C++ classes are abstract.  A header grows class by class; a class     *)
(* declares virtual functions (pure or not, or plain functions which override  *)
(* implicitly) and inherits from earlier classes.  Property P03: bindings      *)
(* offer no construction of an abstract class, and keep offering it for a      *)
(* class which overrides everything.                                           *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS MaxClasses, MaxFuns, MaxBases, Sigs, Kinds

\* A signature is a string naming function, parameters and constness, e.g. "f(int)c".
\* "~" is the destructor.

VARIABLE classes
vars == <<classes>>

Decls == [sig : Sigs, kind : Kinds]
OneSigEach(S) == \A a, b \in S : a.sig = b.sig => a = b

RECURSIVE Ancestors(_, _)
Ancestors(cs, c) == {c} \cup UNION {Ancestors(cs, cs[c].bases[k]) : k \in DOMAIN cs[c].bases}

RECURSIVE FunSets(_)
FunSets(n) == IF n = 0 THEN {{}}
              ELSE LET p == FunSets(n - 1)
                   IN  p \cup {s \cup {d} : s \in {x \in p : Cardinality(x) = n - 1}, d \in Decls}
Funs == {s \in FunSets(MaxFuns) : OneSigEach(s)}

BaseLists(n) == {<<>>} \cup UNION {[1..k -> 1..n] : k \in 1..MaxBases}
Fresh(bl) == \A i, j \in DOMAIN bl : i # j => Ancestors(classes, bl[i]) \cap Ancestors(classes, bl[j]) = {}

Init == classes = <<>>
Declare ==
    /\ Len(classes) < MaxClasses
    /\ \E fs \in Funs, bl \in BaseLists(Len(classes)) :
         /\ classes # <<>> => bl # <<>>
         /\ (Len(classes) = MaxClasses - 1 /\ classes # <<>>) => \E k \in DOMAIN bl : bl[k] = Len(classes)
         /\ Fresh(bl)
         /\ classes' = Append(classes, [funs |-> fs, bases |-> bl])
Next == Declare
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
OwnOf(cs, i, ks) == {d.sig : d \in {e \in cs[i].funs : e.kind \in ks}}

\* The pure virtual functions for which class i has no other final overrider.
RECURSIVE Pure(_, _)
Pure(cs, i) ==
    LET inherited == UNION {Pure(cs, cs[i].bases[k]) : k \in DOMAIN cs[i].bases}
        own       == OwnOf(cs, i, {"pure"})
        \* a destructor is always overridden by the class's own, declared or implicit
        others    == OwnOf(cs, i, {"virtual", "plain"}) \cup {"~"}
    IN  (inherited \ others) \cup own

IsAbstract(cs, i) == Pure(cs, i) # {}

\* Every class in this model has public, implicit default and copy constructors, and a move
\* constructor unless it or an ancestor declares a destructor.
HasMove(cs, i) == \A a \in Ancestors(cs, i) : "~" \notin {d.sig : d \in cs[a].funs}

\* made: the ways of constructing an instance of class i which the bindings offer.
Reasons(cs, i, made) ==
    IF IsAbstract(cs, i)
    THEN {<<"abstract-but-constructible", m>> : m \in made}
    ELSE {<<"concrete-but-not-constructible", m>> : 
            m \in ({"default", "copy"} \cup (IF HasMove(cs, i) THEN {"move"} ELSE {})) \ made}

-----------------------------------------------------------------------------
\* A class without pure functions of its own which inherits nothing abstract is concrete.
ConcreteFromConcrete == \A i \in DOMAIN classes :
    (OwnOf(classes, i, {"pure"}) = {} /\ \A k \in DOMAIN classes[i].bases : ~IsAbstract(classes, classes[i].bases[k]))
        => ~IsAbstract(classes, i)
\* Overriding everything always makes a class concrete.
OverrideAll == \A i \in DOMAIN classes :
    (/\ OwnOf(classes, i, {"pure"}) = {}
     /\ \A k \in DOMAIN classes[i].bases : Pure(classes, classes[i].bases[k]) \subseteq OwnOf(classes, i, {"virtual", "plain"}) \cup {"~"})
        => ~IsAbstract(classes, i)
Emit == classes = <<>> \/ PrintT("CASE:" \o ToJson(classes))
=============================================================================
