------------------------------- MODULE Archive -------------------------------
(* An archive of bindings (property P15): bindings are stored for an invocation *)
(* of the macro, the archive is written to a file and read back, and bindings   *)
(* are looked up by invocation, whatever its formatting (style).                *)
EXTENDS Config
CONSTANTS Keys, Styles, MaxOps
VARIABLES arch, ops
avars == <<hist, cfg, arch, ops>>

\* arch: the invocations stored and the code of each; a later insertion replaces.
Stored(a, k) == \E e \in a : e.key = k
CodeOf(a, k) == (CHOOSE e \in a : e.key = k).code
Put(a, k, c) == {e \in a : e.key # k} \cup {[key |-> k, code |-> c]}
\* What a lookup may give: the code stored for it, or for other directives which mean the same
\* (whether those count as the same invocation is left open), and nothing only if it was not stored.
Same(a, k) == {e \in a : Meaning(e.key) = Meaning(k)}
May(a, k) == {e.code : e \in Same(a, k)} \cup (IF Stored(a, k) THEN {} ELSE {0})
Nothing == 999999
Blank == 777777   \* the macro expands to nothing with parse_only
Step(a, o) == IF o.op = "insert" THEN Put(a, o.key, o.code) ELSE a
Results(a, o) == IF o.op \in {"insert", "reload"} THEN {Nothing}
    ELSE IF o.op = "macro" /\ Meaning(o.key).parse_only THEN {Blank} ELSE May(a, o.key)

AInit == hist = <<>> /\ cfg = Empty /\ arch = {} /\ ops = <<>>
Do(o) == ops' = Append(ops, o) /\ arch' = Step(arch, o) /\ UNCHANGED <<hist, cfg>>
AllOps == [op : {"insert"}, key : Keys, style : Styles, code : 1 .. 3] \cup [op : {"get", "macro"}, key : Keys, style : Styles, code : {0}]
          \cup {[op |-> "reload", key |-> <<>>, style |-> 0, code |-> 0]}
ANext == Len(ops) < MaxOps /\ \E o \in AllOps : Do(o)
ASpec == AInit /\ [][ANext]_avars
\* Codes of long histories are all different, so that a mix-up shows.
RandomOp == LET k == RandomElement(Keys) st == RandomElement(Styles) w == RandomElement(1 .. 10) IN
    CASE w < 5 -> [op |-> "insert", key |-> k, style |-> st, code |-> Len(ops) + 1]
      [] w = 5 -> [op |-> "reload", key |-> <<>>, style |-> 0, code |-> 0]
      [] OTHER -> [op |-> IF w < 10 THEN "get" ELSE "macro", key |-> k, style |-> st, code |-> 0]
SimANext == Len(ops) < MaxOps /\ Do(RandomOp)
SimASpec == AInit /\ [][SimANext]_avars

\* Every invocation stored is found with the code stored last for it, and no other directives' code.
Own == \A i \in DOMAIN ops : (ops[i].op = "insert" /\ \A j \in i + 1 .. Len(ops) : ops[j].key # ops[i].key \/ ops[j].op # "insert")
            => /\ ops[i].code \in May(arch, ops[i].key)
               /\ Same(arch, ops[i].key) = {[key |-> ops[i].key, code |-> ops[i].code]} => May(arch, ops[i].key) = {ops[i].code}
\* An invocation of another meaning than all those stored is missing.
Absent == \A k \in Keys : (\A e \in arch : Meaning(e.key) # Meaning(k)) => May(arch, k) = {0}
EmitOps == Len(ops) = MaxOps => PrintT("CASE:" \o ToJson(ops))
=============================================================================
