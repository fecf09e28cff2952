------------------------------- MODULE FunSig -------------------------------
(* How one C++ function is presented to Rust: whether it may be called at all, *)
(* whether calling it requires `unsafe`, how its receiver, parameters and      *)
(* result appear, and which input the lifetime of a returned reference is tied *)
(* to (properties P07, P08, P09, and the by-value part of P19).  A behaviour   *)
(* writes one function declaration: first its kind, then its parameters one by *)
(* one, then its result.                                                       *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Kinds,      \* "free" "nsfree" "static" "const" "mut" "ctor" and virtual/pure methods
          Fates,      \* "ok", or why C++ code outside may not call it
          ParamAtoms, \* what a parameter may be: <<type, mode>>
          RetAtoms,   \* what the result may be
          Policies,   \* "unsafe" (the default) or "ffi" (the C++ is declared safe)
          MaxParams

Methods  == {"const", "mut", "vconst", "vmut", "pconst", "pmut"}
ConstRec == {"const", "vconst", "pconst"}
\* a type which is only declared, and a smart pointer to one
Incomplete == {"I"}
OnIncomplete == {"UI", "VI"}

VARIABLES f, phase
vars == <<f, phase>>

Init == /\ phase = "start"
        /\ \E k \in Kinds, t \in Fates, p \in Policies :
             /\ (t \in {"private", "protected"} \cup {"deleted"}) => k \notin {"free", "nsfree"} \/ t = "deleted"
             /\ (k \in {"pconst", "pmut"}) => t \in {"ok", "private", "protected"}
             /\ (k \in {"vconst", "vmut"}) => t # "template"
             /\ (t = "template") => k \notin {"pconst", "pmut", "vconst", "vmut"}
             /\ f = [kind |-> k, fate |-> t, policy |-> p, params |-> <<>>, ret |-> <<"none", "void">>]

AddParam == /\ phase = "start" /\ Len(f.params) < MaxParams
            /\ \E a \in ParamAtoms : f' = [f EXCEPT !.params = Append(@, a)]
            /\ UNCHANGED phase
Return == /\ phase = "start"
          /\ \E a \in RetAtoms : /\ (f.kind = "ctor") => a = <<"none", "void">>
                                 /\ f' = [f EXCEPT !.ret = a]
          /\ phase' = "done"
Next == AddParam \/ Return
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* The reference inputs: 0 is the object the function is called on.            *)
HasRecv(g) == g.kind \in Methods
RefInputs(g) == {i \in DOMAIN g.params : g.params[i][2] \in {"cref", "mref"}} \cup (IF HasRecv(g) THEN {0} ELSE {})
MutInputs(g) == {i \in DOMAIN g.params : g.params[i][2] = "mref"} \cup (IF HasRecv(g) /\ g.kind \notin ConstRec THEN {0} ELSE {})
ReturnsRef(g) == g.ret[2] \in {"cref", "mref"}

\* There is exactly one input from which the result can borrow, and it lends at least as much.
Borrowable(g) == /\ Cardinality(RefInputs(g)) = 1
                 /\ (g.ret[2] = "mref") => MutInputs(g) = RefInputs(g)
LifetimeOk(g) == g.ret[2] # "rref" /\ (ReturnsRef(g) => Borrowable(g))

\* Rust can express the types: incomplete types only behind references and pointers.
TypesOk(g) == \A a \in {g.params[i] : i \in DOMAIN g.params} \cup {g.ret} :
    /\ (a[1] \in Incomplete) => a[2] # "val"
    /\ a[1] \notin OnIncomplete
CallableInCpp(g) == g.fate = "ok"

Bound(g) == CallableInCpp(g) /\ TypesOk(g) /\ LifetimeOk(g)

\* Whether calling requires `unsafe`.
Unsafe(g) == g.policy = "unsafe" \/ \E i \in DOMAIN g.params : g.params[i][2] \in {"cptr", "mptr"}

\* How an input or result appears.
Shape(m) == CASE m = "cref" -> "shared" [] m = "mref" -> "exclusive" [] OTHER -> m
Receiver(g) == IF ~HasRecv(g) THEN "none" ELSE IF g.kind \in ConstRec THEN "const" ELSE "mut"
\* Besides the one reference input, the lifetime may bound inputs which are not references (a
\* value which itself borrows nothing satisfies any bound).
TiesOk(g, ties) == /\ RefInputs(g) \subseteq ties
                   /\ \A t \in ties \ RefInputs(g) : t \in DOMAIN g.params /\ g.params[t][2] \in {"val", "rref"}
Tie(g) == IF ReturnsRef(g) THEN RefInputs(g) ELSE {}

-----------------------------------------------------------------------------
(* Judging an observation o of how the bindings present g: a set of complaints *)
(* <<property, what>>.                                                         *)
Complaints(g, o) ==
    IF o.bound /\ ~Bound(g)
    THEN (IF ~CallableInCpp(g) THEN {<<"P09", "callable: " \o g.fate>>} ELSE {}) \cup
         (IF ~TypesOk(g) THEN {<<"P19", "needs a complete type">>} ELSE {}) \cup
         (IF ~LifetimeOk(g) THEN {<<"P08", "no lifetime for the result">>} ELSE {})
    ELSE IF ~o.bound /\ Bound(g)
    THEN {<<(IF ReturnsRef(g) THEN "P08" ELSE "P09"), "not exposed">>,
          <<"P19", "not exposed">>}
    ELSE IF ~o.bound THEN {}
    ELSE (IF o.unsafe # Unsafe(g) THEN {<<"P07", IF o.unsafe THEN "needlessly unsafe" ELSE "not marked unsafe">>} ELSE {}) \cup
         (IF o.recv # Receiver(g) THEN {<<"P08", "receiver is " \o o.recv>>} ELSE {}) \cup
         (IF o.params # [i \in DOMAIN g.params |-> Shape(g.params[i][2])] THEN {<<"P08", "parameters differ">>} ELSE {}) \cup
         (IF g.kind # "ctor" /\ o.ret # Shape(g.ret[2]) THEN {<<"P08", "result is " \o o.ret>>} ELSE {}) \cup
         (IF ReturnsRef(g) /\ ~TiesOk(g, {o.ties[i] : i \in DOMAIN o.ties}) THEN {<<"P08", "result borrows from the wrong input">>} ELSE {})

-----------------------------------------------------------------------------
(* Consistency of the specification.                                           *)
\* What a bound function returns by reference is tied to exactly one input.
Tied == (phase = "done" /\ Bound(f) /\ ReturnsRef(f)) => Cardinality(Tie(f)) = 1
\* No exclusive reference is made from a shared one.
NoUpgrade == (phase = "done" /\ Bound(f) /\ f.ret[2] = "mref") => Tie(f) \subseteq MutInputs(f)
\* Declaring the C++ safe never makes more functions unsafe, and never changes what is bound.
PolicyMonotone == LET g == [f EXCEPT !.policy = "ffi"]
                      h == [f EXCEPT !.policy = "unsafe"]
                  IN  /\ Unsafe(g) => Unsafe(h)
                      /\ Bound(g) = Bound(h)
Emit == phase # "done" \/ PrintT("CASE:" \o ToJson(f))
=============================================================================
