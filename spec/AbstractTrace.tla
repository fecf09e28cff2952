--------------------------- MODULE AbstractTrace ---------------------------
EXTENDS Abstract, IOUtils, SequencesExt
Trace == TLCEval(ndJsonDeserialize(IOEnv.TRACE))
VARIABLE l
\* JSON has no sets: a recorded class lists its functions.
Cls(r) == [i \in DOMAIN r.classes |-> [funs |-> ToSet(r.classes[i].funs), bases |-> r.classes[i].bases]]
TraceInit == l = 1 /\ classes = <<>>
Observe ==
    /\ l <= Len(Trace)
    /\ l' = l + 1
    /\ classes' = Cls(Trace[l])
    /\ LET r  == Trace[l]
           cs == Cls(r)
           n  == Len(cs)
           rs == Reasons(cs, n, ToSet(r.made))
                 \cup (IF r.compiler # IsAbstract(cs, n) THEN {<<"compiler-disagrees", "is_abstract">>} ELSE {})
       IN  IF rs = {} THEN TRUE ELSE PrintT("REJECT:" \o ToJson([id |-> r.id, reasons |-> SetToSeq(rs)]))
TraceNext == Observe
TraceSpec == TraceInit /\ [][TraceNext]_<<classes, l>>
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
