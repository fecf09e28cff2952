--------------------------- MODULE SpecialMembers ---------------------------
(* The C++ special member functions of a class (default constructor, copy      *)
(* constructor, move constructor, destructor): when a class has one which code *)
(* outside the class may use.  A header is modelled as a growing sequence of   *)
(* classes; each step declares one more class, whose base classes and members  *)
(* are earlier classes.  This is what decides property P01: `Truth` is what    *)
(* C++ provides, and the bindings may offer an operation only if `Sound`, and  *)
(* must offer it if `Complete`.                                                *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS
    MaxOwn,        \* how many special members the first class declares
    MaxOwn2,       \* how many each later class declares
    MaxClasses,    \* how many classes
    MaxLeaves,     \* how many of them have no bases or members of class type
    MaxSubs,       \* how many subobjects of class type in one class
    OtherKinds,    \* which other constructors a class may declare
    Extras,        \* which members that are not of the header's class types a class may have
    DeclKinds      \* which ways of declaring are explored

Members  == {"dtor", "dctor", "cctor", "mctor", "cassign", "massign"}
AllKinds == {"none", "public", "protected", "private", "deleted", "defaulted"}

NoOwn == [m \in Members |-> "none"]
Declared(own) == {m \in Members : own[m] # "none"}

\* The functions declaring at most n members.
RECURSIVE OwnsUpTo(_)
OwnsUpTo(n) ==
    IF n = 0 THEN {NoOwn}
    ELSE LET prev == OwnsUpTo(n - 1)
         IN  prev \cup {[o EXCEPT ![m] = k] : o \in prev, m \in Members, k \in DeclKinds}

VARIABLE classes
vars == <<classes>>

\* own: how each special member is declared; other: how another constructor is declared
\* ("none", an access, "deleted", "template", "variadic"); extra: one more member: "none",
\* "ref" (a reference), "cref", "rref", "constint", "uptr", "string", "ptr", "enum", "static",
\* "init" (a scalar with initialiser), "constinit", smart pointers, containers, arrays and other
\* plain members (named in checks/p01.py); subs: the subobjects of class type, each
\* [cls |-> index, as |-> "base"/"member"/"array" (an array member)].
Class(own, other, subs, extra) == [own |-> own, other |-> other, subs |-> subs, extra |-> extra]
\* What a member of the given kind allows its class to have implicitly.
ExtraDefault(e) == e \notin {"ref", "cref", "rref", "constint", "constptr"}
ExtraCopy(e) == e \notin {"uptr", "uptrc", "rref"}

SubsOver(n) ==
    UNION {[1..k -> [cls : 1..n, as : {"base", "member", "array"}]] : k \in 1..MaxSubs}
\* No class is inherited twice (C++ then has ambiguous bases, which is another subject).
RECURSIVE Ancestors(_)
Ancestors(c) ==
    {c} \cup UNION {Ancestors(classes[c].subs[k].cls) :
                     k \in {x \in DOMAIN classes[c].subs : classes[c].subs[x].as = "base"}}
DistinctBases(s) ==
    \A i, j \in DOMAIN s : (i # j /\ s[i].as = "base" /\ s[j].as = "base") =>
        Ancestors(s[i].cls) \cap Ancestors(s[j].cls) = {}

Init == classes = <<>>

DeclareLeaf ==
    /\ Len(classes) < MaxLeaves
    /\ \A i \in DOMAIN classes : classes[i].subs = <<>>
    /\ \E own \in OwnsUpTo(MaxOwn), other \in OtherKinds, e \in Extras :
         classes' = Append(classes, Class(own, other, <<>>, e))

DeclareComposite ==
    /\ classes # <<>>
    /\ Len(classes) < MaxClasses
    /\ \E own \in OwnsUpTo(MaxOwn2), subs \in SubsOver(Len(classes)) :
         /\ DistinctBases(subs)
         \* every class without subobjects of its own is used, and so is the latest class
         /\ \E i \in DOMAIN subs : subs[i].cls = Len(classes)
         /\ \A j \in DOMAIN classes : (\A k \in DOMAIN classes : \A x \in DOMAIN classes[k].subs : classes[k].subs[x].cls # j)
                                       => \E i \in DOMAIN subs : subs[i].cls = j
         /\ classes' = Append(classes, Class(own, "none", subs, "none"))

Next == DeclareLeaf \/ DeclareComposite
Spec == Init /\ [][Next]_vars

\* For simulation: each step declares one arbitrary class.
SimLeaf == /\ Len(classes) < MaxLeaves
           /\ \E own \in {RandomElement(OwnsUpTo(MaxOwn))}, other \in {RandomElement(OtherKinds)}, e \in {RandomElement(Extras)} :
                classes' = Append(classes, Class(own, other, <<>>, e))
SimComposite ==
    /\ Len(classes) >= MaxLeaves /\ Len(classes) < MaxClasses
    /\ LET ok == {s \in SubsOver(Len(classes)) : DistinctBases(s)}
       IN  \E own \in {RandomElement(OwnsUpTo(MaxOwn2))}, subs \in {RandomElement(ok)}, e \in {RandomElement(Extras)} :
             classes' = Append(classes, Class(own, "none", subs, e))
SimSpec == Init /\ [][SimLeaf \/ SimComposite]_vars

-----------------------------------------------------------------------------
(* The rules of C++14 ([class.ctor], [class.copy], [class.dtor]).              *)

Usable(st, as) == st = "public" \/ (as = "base" /\ st = "protected")

RECURSIVE Status(_, _, _)

\* Overload resolution for construction from an rvalue.
MoveResolve(cs, i) ==
    LET m == Status(cs, i, "mctor") IN IF m = "absent" THEN Status(cs, i, "cctor") ELSE m

SubsUsable(cs, i, op) ==
    /\ op = "dctor" => ExtraDefault(cs[i].extra)
    /\ op = "cctor" => ExtraCopy(cs[i].extra)
    /\ \A k \in DOMAIN cs[i].subs :
        LET s  == cs[i].subs[k]
            st == IF op = "mctor" THEN MoveResolve(cs, s.cls) ELSE Status(cs, s.cls, op)
        IN  /\ Usable(st, s.as)
            /\ Usable(Status(cs, s.cls, "dtor"), s.as)

\* "public" / "protected" / "private" / "deleted" / "absent"
Status(cs, i, op) ==
    LET own == cs[i].own
        d   == own[op]
        computed == IF SubsUsable(cs, i, op) THEN "public" ELSE "deleted"
        Has(ms) == \E m \in ms : own[m] # "none"
    IN  CASE d \in {"public", "protected", "private", "deleted"} -> d
          [] op = "dtor"  -> computed
          [] op = "dctor" ->
               IF d = "none" /\ (cs[i].other # "none" \/ Has({"cctor", "mctor"})) THEN "absent" ELSE computed
          [] op = "cctor" ->
               IF d = "none" /\ Has({"mctor", "massign"}) THEN "deleted" ELSE computed
          [] op = "mctor" ->
               IF d = "none" /\ Has({"cctor", "cassign", "massign", "dtor"}) THEN "absent"
               ELSE IF computed = "deleted" THEN "absent" ELSE computed
          [] OTHER -> d

\* What code outside the class can do with class i.
Truth(cs, i) ==
    [default |-> Status(cs, i, "dctor") = "public",
     copy    |-> Status(cs, i, "cctor") = "public",
     move    |-> MoveResolve(cs, i) = "public",
     ownmove |-> Status(cs, i, "mctor") = "public",
     destroy |-> Status(cs, i, "dtor") = "public"]

-----------------------------------------------------------------------------
(* The obligation on the bindings.                                             *)
Ops == {"default", "copy", "move", "destroy"}

\* An offer is sound if C++ has the operation.
Sound(cs, i, op) == Truth(cs, i)[op]

\* Kinds of members whose own special members the tool is not promised to know.
Foreign == {"rref"}
\* Members such as pointers and enumerations, of which the tool does not know
\* whether they need an initialiser: default construction is then not promised.
NoDefaultPromise == {"ptr", "selfptr", "enum", "ref", "cref", "toconst", "funptr", "eclass"}
RECURSIVE DefaultPromised(_, _)
DefaultPromised(cs, i) == cs[i].extra \notin NoDefaultPromise /\ \A k \in DOMAIN cs[i].subs :
    cs[cs[i].subs[k].cls].own["dctor"] # "none" \/ DefaultPromised(cs, cs[i].subs[k].cls)
\* Whether a standard container can be copied depends on its elements: not promised.
NoCopyPromise == {"vec", "vecs"}
RECURSIVE CopyPromised(_, _)
CopyPromised(cs, i) == cs[i].extra \notin NoCopyPromise /\ \A k \in DOMAIN cs[i].subs :
    cs[cs[i].subs[k].cls].own["cctor"] # "none" \/ CopyPromised(cs, cs[i].subs[k].cls)
RECURSIVE Understood(_, _)
Understood(cs, i) == cs[i].extra \notin Foreign /\ \A k \in DOMAIN cs[i].subs : Understood(cs, cs[i].subs[k].cls)

\* A move constructor which is declared, or implicit with every base and member moved by a
\* move constructor in turn.  (C++ also falls back to copying a part; Rust is not promised a
\* move in that case.)
RECURSIVE MovesThroughout(_, _)
MovesThroughout(cs, i) ==
    /\ cs[i].extra \notin Foreign
    /\ Status(cs, i, "mctor") \in {"public", "protected"}
    /\ \/ cs[i].own["mctor"] # "none"
       \/ \A k \in DOMAIN cs[i].subs : MovesThroughout(cs, cs[i].subs[k].cls)

\* An operation must be offered when C++ has one of exactly that kind. Construction is only
\* demanded for classes which can also be destroyed: an object which cannot be destroyed is
\* not useful to hold, and Rust is not offered one.
Complete(cs, i, op) ==
    Understood(cs, i) /\
    LET t == Truth(cs, i)
    IN  CASE op = "destroy" -> t.destroy
          [] op = "default" -> t.default /\ t.destroy /\ (cs[i].own["dctor"] # "none" \/ DefaultPromised(cs, i))
          [] op = "copy"    -> t.copy /\ t.destroy /\ (cs[i].own["cctor"] # "none" \/ CopyPromised(cs, i))
          [] op = "move"    -> t.ownmove /\ t.destroy /\ MovesThroughout(cs, i)

\* offered: [Ops -> BOOLEAN], what the bindings provide for class i.
Reasons(cs, i, offered) ==
    {<<"unsound", op>>  : op \in {o \in Ops : offered[o] /\ ~Sound(cs, i, o)}} \cup
    {<<"missing", op>> : op \in {o \in Ops : ~offered[o] /\ Complete(cs, i, o)}}

-----------------------------------------------------------------------------
(* Known deviations of the implementation (known-findings.txt), named so that *)
(* exactly these and nothing else are told apart from other violations:        *)
(* "assign": assignment operators are not seen at all;  "defaulted": a member  *)
(* declared "= default" is taken to exist even where C++ defines it as deleted; *)
(* "template": constructor templates are not seen; "const": const members are  *)
(* not told from others; "unknown": members of types which cannot be expressed *)
(* are left out of consideration.                                              *)
Deviations == {"assign", "defaulted", "template", "const", "unknown"}
Deviate(cs, devs) ==
    [i \in DOMAIN cs |->
        [cs[i] EXCEPT !.own =
            [m \in Members |->
                IF "assign" \in devs /\ m \in {"cassign", "massign"} THEN "none"
                ELSE IF "defaulted" \in devs /\ @[m] = "defaulted" THEN "public"
                ELSE @[m]],
                !.extra = IF ("const" \in devs /\ @ = "constint") \/ ("unknown" \in devs /\ @ = "uptr") THEN "none" ELSE @,
                !.other = IF "template" \in devs /\ @ = "template" THEN "none" ELSE @]]

\* The smallest set of deviations which explains the offer, if any.
Explains(cs, i, offered) ==
    {d \in (SUBSET Deviations) \ {{}} :
        Reasons(Deviate(cs, d), i, offered) = {}}

-----------------------------------------------------------------------------
(* Sanity of the rules themselves, checked by TLC in every state.              *)
TypeOK == \A i \in DOMAIN classes :
    /\ classes[i].own \in [Members -> AllKinds]
    /\ \A k \in DOMAIN classes[i].subs : classes[i].subs[k].cls < i

\* What a class provides can only come from what its parts provide, unless it is user-written.
Inherits == \A i \in DOMAIN classes : \A op \in {"dctor", "cctor", "dtor"} :
    (classes[i].own[op] \in {"none", "defaulted"} /\ Status(classes, i, op) = "public") =>
        \A k \in DOMAIN classes[i].subs :
            Usable(Status(classes, classes[i].subs[k].cls, op), classes[i].subs[k].as)

\* A class with a usable move constructor of its own or a usable copy constructor is movable,
\* unless the move constructor that would be chosen is unusable.
MoveCoherent == \A i \in DOMAIN classes :
    LET t == Truth(classes, i) IN
    /\ t.ownmove => t.move
    /\ (t.copy /\ ~t.move) => Status(classes, i, "mctor") \in {"protected", "private", "deleted"}

\* Soundness and completeness can always be met together: offering exactly what C++ has
\* violates nothing.
Satisfiable == \A i \in DOMAIN classes :
    LET t == Truth(classes, i)
        offer == [o \in Ops |-> IF o = "move" THEN t.ownmove ELSE t[o]]
    IN  Reasons(classes, i, offer) = {}

Emit == classes = <<>> \/ PrintT("CASE:" \o ToJson(classes))
=============================================================================
