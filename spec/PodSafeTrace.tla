---------------------------- MODULE PodSafeTrace ----------------------------
EXTENDS PodSafe, IOUtils, SequencesExt
Trace == TLCEval(ndJsonDeserialize(IOEnv.TRACE))
VARIABLE l
TraceInit == l = 1 /\ types = <<>> /\ asked = {}
Observe ==
    /\ l <= Len(Trace)
    /\ l' = l + 1
    /\ types' = Trace[l].types
    /\ asked' = ToSet(Trace[l].asked)
    /\ LET r  == Trace[l]
           rs == Reasons(r.types, ToSet(r.asked), r.built, r.kinds, r.exposed)
                 \cup {<<"compiler-disagrees", i>> : i \in {j \in DOMAIN r.types : r.compiler[j] # Trivial(r.types, j)}}
       IN  IF rs = {} THEN TRUE ELSE PrintT("REJECT:" \o ToJson([id |-> r.id, reasons |-> SetToSeq(rs)]))
TraceNext == Observe
TraceSpec == TraceInit /\ [][TraceNext]_<<types, asked, l>>
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
