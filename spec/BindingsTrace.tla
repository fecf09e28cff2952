---------------------------- MODULE BindingsTrace ----------------------------
EXTENDS Bindings, IOUtils, SequencesExt
Trace == TLCEval(ndJsonDeserialize(IOEnv.TRACE))
VARIABLE l
Rq(r) == [all |-> r.all, types |-> ToSet(r.types), funs |-> ToSet(r.funs), spaces |-> ToSet(r.spaces), missing |-> r.missing]
TraceInit == l = 1 /\ Init
Observe ==
    /\ l <= Len(Trace)
    /\ l' = l + 1
    /\ types' = Trace[l].types /\ funs' = Trace[l].funs /\ req' = Rq(Trace[l].req) /\ block' = ToSet(Trace[l].block) /\ phase' = "done"
    /\ LET r  == Trace[l]
           rs == Reasons(r.types, ToSet(r.block), r.funs, Rq(r.req),
                         [ok |-> r.ok, named |-> r.named, compiles |-> r.compiles, boundT |-> ToSet(r.boundT), boundF |-> ToSet(r.boundF), made |-> ToSet(r.made)])
       IN  IF rs = {} THEN TRUE ELSE PrintT("REJECT:" \o ToJson([id |-> r.id, reasons |-> SetToSeq(rs)]))
TraceNext == Observe
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, l>>
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
