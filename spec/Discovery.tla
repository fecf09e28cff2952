------------------------------ MODULE Discovery ------------------------------
(* What autocxx finds by itself in a Rust file (property P21).                   *)
(*                                                                               *)
(* First part: one mention of the bindings, written somewhere in the file's      *)
(* syntax; a chain of productions from an item of the file down to a leaf.       *)
EXTENDS Positions, Naturals, Sequences, FiniteSets, Json

CONSTANTS MaxDepth, MaxItems

VARIABLES chain, hole, leaf, file
vars == <<chain, hole, leaf, file>>
None == [n |-> "", says |-> ""]

Init == chain = <<>> /\ hole = "item" /\ leaf = None /\ file = <<>>
Descend(p) == leaf = None /\ Len(chain) < MaxDepth /\ p.makes = hole /\ chain' = Append(chain, p.n) /\ hole' = p.hole /\ UNCHANGED <<leaf, file>>
Finish(f) == leaf = None /\ f.makes = hole /\ leaf' = f /\ UNCHANGED <<chain, hole, file>>
Next == (\E p \in Prods : Descend(p)) \/ (\E f \in Leaves : Finish(f))
Spec == Init /\ [][Next]_vars
\* every kind of hole can be filled, however deep
Fillable == \A p \in Prods : \E c \in {<<p.hole>>} \cup {<<p.hole, q.hole>> : q \in {q \in Prods : q.makes = p.hole}} : \E f \in Leaves : f.makes = c[Len(c)]
EmitSpot == leaf # None => PrintT("CASE:" \o ToJson([chain |-> chain, leaf |-> leaf.n]))

\* What has to be requested of C++, and what must not be
Required(s) == \E f \in Leaves : f.n = s.leaf /\ f.says = "yes"
Forbidden(s) == \E f \in Leaves : f.n = s.leaf /\ f.says = "no"

(* Second part: a whole file, of include_cpp! invocations, mentions, and things  *)
(* marked for export to C++, each at some depth of modules; with or without the  *)
(* automatic allowlist.                                                          *)
Incs == [t : {"include"}, depth : 0 .. 1, name : {"ffi", "other"}, all : BOOLEAN]
Exports == [t : {"type", "enum", "fn", "subclass", "attribute", "mention"}, depth : 0 .. 2]
Methods == [t : {"method", "method by value", "method on path", "method without self", "method in trait impl"}, depth : 0 .. 1]
Things == Incs \cup Exports \cup Methods
FInit == chain = <<>> /\ hole \in {"auto", "plain"} /\ leaf = None /\ file = <<>>
Add(x) == Len(file) < MaxItems /\ file' = Append(file, x) /\ UNCHANGED <<chain, hole, leaf>>
FNext == \E x \in Things : Add(x)
FSpec == FInit /\ [][FNext]_vars
SimF(n) == TLCEval(LET k == RandomElement(1 .. 10) IN
    IF n = 0 /\ k < 9 THEN [t |-> "include", depth |-> 0, name |-> "ffi", all |-> FALSE]
    ELSE IF k = 1 THEN RandomElement(Incs) ELSE IF k = 2 THEN RandomElement(Methods) ELSE IF k = 3 THEN [t |-> "method", depth |-> 0] ELSE RandomElement(Exports))
FSim == FInit /\ [][Len(file) < MaxItems /\ Add(SimF(Len(file)))]_vars

Is(f, t) == {i \in DOMAIN f : f[i].t = t}
Top(f) == {i \in Is(f, "include") : f[i].depth = 0}
\* the methods which can be exported
Good(f) == {i \in Is(f, "method") : f[i].depth = 0}
Bad(f) == {i \in Is(f, "method") : f[i].depth > 0} \cup Is(f, "method on path") \cup Is(f, "method by value") \cup Is(f, "method without self") \cup Is(f, "method in trait impl")
Exported(f) == Is(f, "type") \cup Is(f, "enum") \cup Is(f, "fn") \cup Good(f)
Found(f, auto) == Exported(f) # {} \/ Is(f, "subclass") # {} \/ (auto /\ Is(f, "mention") # {})
Same(f) == \E i, j \in Is(f, "include") : i # j /\ f[i].name = f[j].name
\* "error": has to be reported as an error.  "open": what autocxx makes of it is not settled here.
Outcome(f, auto) ==
    IF \/ Bad(f) # {}                                     \* an export which cannot be
       \/ Is(f, "subclass") # {} /\ ~auto                 \* a superclass named outside include_cpp!
       \/ Same(f)                                         \* two sets of bindings of one name
       \/ Found(f, auto) /\ Cardinality(Top(f)) > 1       \* which bindings is it for?
       \/ auto /\ Is(f, "mention") # {} /\ \E i \in Top(f) : f[i].all   \* everything and something
    THEN "error"
    ELSE IF \/ Found(f, auto) /\ \E i \in Is(f, "include") : f[i].depth > 0
            \/ Found(f, auto) /\ Top(f) = {} /\ (Is(f, "mention") # {} \/ Is(f, "subclass") # {})  \* no header to find it in
    THEN "open"
    ELSE "ok"
\* Which mentions and exports get bound when all goes well; everything is found which is marked, at any depth.
Bound(f, auto) == IF Outcome(f, auto) # "ok" THEN {}
    ELSE Exported(f) \cup Is(f, "subclass") \cup
         (IF auto \/ \E i \in Is(f, "include") : f[i].all THEN Is(f, "mention") ELSE {})
TypeOK == Bound(file, hole = "auto") \subseteq DOMAIN file
\* Adding things marked for export never loses those found before, unless there is an error.
Monotone == \A i \in DOMAIN file : LET f == SubSeq(file, 1, i - 1) a == hole = "auto" IN
    Outcome(file, a) = "ok" /\ Outcome(f, a) = "ok" => Bound(f, a) \subseteq Bound(file, a)
EmitFile == Len(file) > 0 => PrintT("CASE:" \o ToJson([file |-> file, auto |-> hole = "auto"]))
=============================================================================
