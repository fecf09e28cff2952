--------------------------- MODULE DiscoveryTrace ---------------------------
(* Records: of spots, whether the item named there was bound; of files, whether  *)
(* there was an error, and which of the things in the file were bound.           *)
EXTENDS Discovery, IOUtils, SequencesExt
Trace == TLCEval(ndJsonDeserialize(IOEnv.TRACE))
VARIABLE l
Reject(r, why) == PrintT("REJECT:" \o ToJson([id |-> r.id, why |-> why]))
Spot(r) == IF Required(r) /\ ~r.found THEN Reject(r, "not found")
           ELSE IF Forbidden(r) /\ r.found THEN Reject(r, "requested although not mentioned") ELSE TRUE
File(r) ==
    LET o == Outcome(r.file, r.auto) IN
    IF o = "open" THEN TRUE
    ELSE IF o = "error" THEN (IF r.status = "error" THEN TRUE ELSE Reject(r, "no error: " \o r.status))
    ELSE IF r.status # "ok" THEN Reject(r, "rejected: " \o r.error)
    ELSE LET want == Bound(r.file, r.auto) got == ToSet(r.bound)
             things == {i \in DOMAIN r.file : r.file[i].t # "include"}
         IN \A i \in things : IF i \in want /\ i \notin got THEN Reject(r, "not found: " \o r.file[i].t)
                              ELSE IF i \notin want /\ i \in got THEN Reject(r, "requested although not mentioned: " \o r.file[i].t) ELSE TRUE
TraceInit == l = 1 /\ Init
TraceNext == l <= Len(Trace) /\ (IF Trace[l].k = "spot" THEN Spot(Trace[l]) ELSE File(Trace[l])) /\ l' = l + 1 /\ UNCHANGED vars
TraceSpec == TraceInit /\ [][TraceNext]_<<l, vars>>
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
