---------------------------- MODULE UpcastsTrace ----------------------------
(* Records of real graphs of classes: conv, the pairs C++ converts; offered, the *)
(* pairs the bindings convert; steps, chains of conversions of real objects with *)
(* whether the reference obtained was to the expected subobject.                 *)
EXTENDS Upcasts, IOUtils, SequencesExt
Trace == TLCEval(ndJsonDeserialize(IOEnv.TRACE))
VARIABLE l
Reject(r, why) == PrintT("REJECT:" \o ToJson([id |-> r.id, why |-> why]))
Pair(d, b) == ToString(d) \o " to " \o ToString(b)
Judge(r) ==
    LET cs == r.classes D == DOMAIN cs
        off(d, b) == <<d, b>> \in ToSet(r.offered)
        model == {<<"MODEL", Pair(p[1], p[2])>> : p \in {p \in D \X D : p[1] # p[2] /\ (p \in ToSet(r.conv)) # Convertible(cs, p[1], p[2])}}
        missing == {<<"missing", Pair(p[1], p[2])>> : p \in {p \in D \X D : cs[p[1]].bound /\ p[2] \in Offered(cs, p[1]) /\ ~off(p[1], p[2])}}
        wrong == {<<"wrong", Pair(p[1], p[2])>> : p \in {p \in D \X D : off(p[1], p[2]) /\ p[2] \notin Permitted(cs, p[1])}}
        other == {<<"another object", ToString(r.steps[i].chain)>> : i \in {i \in DOMAIN r.steps : ~r.steps[i].same}}
        all == model \cup missing \cup wrong \cup other
    IN IF all = {} THEN TRUE ELSE \A x \in all : Reject(r, x[1] \o " " \o x[2])
TraceInit == l = 1 /\ Init
TraceNext == l <= Len(Trace) /\ Judge(Trace[l]) /\ l' = l + 1 /\ UNCHANGED vars
TraceSpec == TraceInit /\ [][TraceNext]_<<l, vars>>
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
