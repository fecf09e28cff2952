---------------------------- MODULE ConfigTrace ----------------------------
(* Each record: a list of directives, whether the real parser took it, what    *)
(* the configuration says, and the same of the configuration printed and read  *)
(* back.  "junk" records are lists which no directive explains; "pair" records  *)
(* are two lists and whether the whole engine made the same bindings of them.  *)
EXTENDS Config, IOUtils, SequencesExt
Trace == TLCEval(ndJsonDeserialize(IOEnv.TRACE))
VARIABLE l
Sets == {"bindgen", "must", "pods", "allowed", "blocked", "blocklist", "ctorblocked", "opaque", "inst", "rust_types",
         "subclasses", "superclasses", "funs", "concretes", "externs"}
Seen(s) == [k \in DOMAIN s |-> IF k \in Sets THEN ToSet(s[k]) ELSE s[k]]
Differ(c, s) == LET m == Summary(c) IN {k \in DOMAIN m : m[k] # Seen(s)[k]}
Reject(r, why) == PrintT("REJECT:" \o ToJson([id |-> r.id, why |-> why]))
Judge(r, c) ==
    IF r.kind = "pair" THEN \* two lists, and whether the engine made the same bindings from both
        IF Meaning(r.hist) = Meaning(r.other) /\ ~r.same THEN Reject(r, "different bindings") ELSE TRUE
    ELSE IF r.ok # c.ok THEN Reject(r, IF c.ok THEN "refused" ELSE "accepted")
    ELSE IF ~r.ok THEN TRUE
    ELSE IF Differ(c, r.cfg) # {} THEN Reject(r, "means " \o ToString(Differ(c, r.cfg)))
    ELSE IF ~r.back.ok THEN Reject(r, "printed form refused")
    ELSE IF Differ(c, r.back.cfg) # {} THEN Reject(r, "printed form means " \o ToString(Differ(c, r.back.cfg)))
    ELSE TRUE
TraceInit == l = 1 /\ hist = <<>> /\ cfg = Empty
TraceNext == /\ l <= Len(Trace)
             /\ LET r == Trace[l] IN
                /\ hist' = r.hist
                /\ cfg' = IF r.junk THEN Error ELSE Meaning(r.hist)
                /\ Judge(r, cfg')
             /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_<<l, hist, cfg>>
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
