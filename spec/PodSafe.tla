------------------------------- MODULE PodSafe -------------------------------
(* Which C++ types may be held by value in Rust.  A header grows type by type; *)
(* the configuration asks for some of them as plain data.  Property P02.       *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS MaxTypes,   \* length of the header
          MaxFields,  \* fields per type
          Leaves,     \* kinds of field which do not mention another type of the header
          Links,      \* ways of mentioning an earlier type: subset of {"cls","arr","ptr","tdef"}
          Specials    \* subset of {"none","virt","dtor","copy","move","vdtor"}

VARIABLES types, asked
vars == <<types, asked>>

\* A field is [k |-> leaf or link, t |-> index of the type linked to (0 for a leaf)].
FieldsAt(n) == {[k |-> l, t |-> 0] : l \in Leaves} \cup {[k |-> l, t |-> j] : l \in Links, j \in 1..n}
FieldSeqs(n) == UNION {[1..m -> FieldsAt(n)] : m \in 1..MaxFields}

-----------------------------------------------------------------------------
(* The meaning of the leaves.                                                 *)
\* C++ gives these a trivial move and a trivial destructor.
TrivialLeaf == {"int", "float", "enum", "ptrstr", "arrint", "arrptr", "ref", "bits", "union", "fptr", "blk", "tdefint", "anon", "tmplint", "static"}
\* ... and the tool promises to accept these.
PlainLeaf == {"int", "float", "enum", "ptrstr", "arrint", "arrptr", "tdefint", "static"}
\* C++ does not.
NonTrivialLeaf == {"str", "strarr", "uptr", "uptrint", "sptr", "vec", "tdefstr", "tmplstr"}
\* fields of types the user has forbidden
Forbidden == {"blk"}

RECURSIVE Trivial(_, _)
Trivial(ts, i) ==
    /\ ts[i].sp = "none"
    /\ ts[i].base # 0 => Trivial(ts, ts[i].base)
    /\ \A f \in DOMAIN ts[i].fields :
         LET x == ts[i].fields[f]
         IN  IF x.t = 0 THEN x.k \in TrivialLeaf ELSE x.k = "ptr" \/ Trivial(ts, x.t)

\* The types whose contents are part of the contents of i (including i).
RECURSIVE Contents(_, _)
Contents(ts, i) ==
    {i} \cup (IF ts[i].base # 0 THEN Contents(ts, ts[i].base) ELSE {})
        \cup UNION {Contents(ts, ts[i].fields[f].t) : f \in {g \in DOMAIN ts[i].fields : ts[i].fields[g].t # 0 /\ ts[i].fields[g].k # "ptr"}}

\* Safe to move bytewise and permitted: a request may be granted.
May(ts, i) == /\ Trivial(ts, i)
              /\ \A j \in Contents(ts, i) : \A f \in DOMAIN ts[j].fields : ts[j].fields[f].k \notin Forbidden

\* Made only of things the tool promises to accept: a request must be granted.
Must(ts, i) == /\ Trivial(ts, i)
               /\ \A j \in Contents(ts, i) : \A f \in DOMAIN ts[j].fields :
                    LET x == ts[j].fields[f] IN x.k \in PlainLeaf \/ (x.t # 0 /\ x.k \in {"cls", "ptr", "arr"})

Needed(ts, as) == UNION {Contents(ts, i) : i \in as}

-----------------------------------------------------------------------------
(* What the real tool did.  built: whether generation succeeded and the C++    *)
(* compiler accepted the result; kinds[i]: "pod", "opaque", "absent";          *)
(* exposed[i]: whether fields of type i are accessible.                        *)
Reasons(ts, as, built, kinds, exposed) ==
    (IF built THEN {<<"unsafe-granted", i>> : i \in {j \in DOMAIN ts : kinds[j] = "pod" /\ ~May(ts, j)}} ELSE {})
    \cup {<<"not-requested", i>> : i \in {j \in DOMAIN ts : kinds[j] = "pod" /\ j \notin Needed(ts, as)}}
    \cup {<<"opaque-exposes-fields", i>> : i \in {j \in DOMAIN ts : kinds[j] # "pod" /\ exposed[j]}}
    \cup (IF \A i \in as : Must(ts, i)
          THEN (IF built THEN {} ELSE {<<"plain-request-refused", 0>>})
               \cup {<<"plain-request-not-granted", i>> : i \in {j \in as : built /\ kinds[j] # "pod"}}
          ELSE {})

-----------------------------------------------------------------------------
\* A hand-written constructor cannot leave a reference member uninitialised.
WellFormed(ts) == \A i \in DOMAIN ts : ts[i].sp \in {"copy", "move"} =>
    \A j \in Contents(ts, i) : \A f \in DOMAIN ts[j].fields : ts[j].fields[f].k # "ref"
Init == types = <<>> /\ asked = {}
TypesAt(n) == [fields : FieldSeqs(n), base : 0..n, sp : Specials]
Declare == /\ Len(types) < MaxTypes /\ asked = {}
           /\ \E t \in TypesAt(Len(types)) :
                \* keep the header connected: a later type uses the one before it
                /\ types = <<>> \/ t.base = Len(types) \/ \E f \in DOMAIN t.fields : t.fields[f].t = Len(types)
                \* and is otherwise ordinary, so that what it inherits decides
                /\ types = <<>> \/ MaxTypes = 1 \/ t.sp = "none"
                /\ types' = Append(types, t)
                /\ WellFormed(types')
           /\ UNCHANGED asked
Ask == /\ types # <<>> /\ asked = {}
       /\ asked' \in (SUBSET DOMAIN types \ {{}})
       /\ UNCHANGED types
Next == Declare \/ Ask
Spec == Init /\ [][Next]_vars

\* Random larger headers.
RandomField(n) == IF n > 0 /\ RandomElement(1..3) = 1
                  THEN [k |-> RandomElement(Links), t |-> RandomElement(1..n)]
                  ELSE IF RandomElement(1..6) = 1 THEN [k |-> RandomElement(Leaves), t |-> 0]
                  ELSE [k |-> RandomElement(Leaves \cap PlainLeaf), t |-> 0]
SimDeclare == /\ Len(types) < MaxTypes /\ asked = {}
              /\ \E m \in {RandomElement(1..MaxFields)},
                    fs \in {TLCEval([x \in 1..MaxFields |-> RandomField(Len(types))])},
                    b \in {IF RandomElement(1..4) = 1 THEN RandomElement(0..Len(types)) ELSE 0},
                    s \in {IF RandomElement(1..10) = 1 THEN RandomElement(Specials) ELSE "none"} :
                   types' = Append(types, [fields |-> SubSeq(fs, 1, m), base |-> b, sp |-> s])
                   /\ WellFormed(types')
              /\ UNCHANGED asked
SimAsk == /\ Len(types) = MaxTypes /\ asked = {}
          /\ \E a \in {RandomElement(SUBSET DOMAIN types \ {{}})}, coin \in {RandomElement(1..2)} :
               asked' = IF coin = 1 THEN {i \in a : May(types, i)} ELSE a
          /\ UNCHANGED types
SimSpec == Init /\ [][SimDeclare \/ SimAsk]_vars

-----------------------------------------------------------------------------
(* Properties of the model.                                                   *)
Classified == Leaves \subseteq TrivialLeaf \cup NonTrivialLeaf
\* Safety is downward closed: whatever is inside a safe type is safe.
ContentsSafe == \A i \in DOMAIN types : May(types, i) => \A j \in Contents(types, i) : May(types, j)
MustIsMay == \A i \in DOMAIN types : Must(types, i) => May(types, i)
\* A pointer to anything does not matter.
PtrHarmless == \A i \in DOMAIN types :
    (types[i].sp = "none" /\ types[i].base = 0 /\ \A f \in DOMAIN types[i].fields : types[i].fields[f].k = "ptr") => Must(types, i)
Emit == asked = {} \/ PrintT("CASE:" \o ToJson([types |-> types, asked |-> asked]))
=============================================================================
