---------------------------- MODULE FunSigTrace ----------------------------
(* Each record is one C++ function declaration and how the real engine         *)
(* presented it.  The behaviour of the specification writing that declaration  *)
(* is replayed, and the presentation is judged at its end.                     *)
EXTENDS FunSig, IOUtils, SequencesExt
Trace == TLCEval(ndJsonDeserialize(IOEnv.TRACE))
VARIABLE l
Decl(r) == [kind |-> r.kind, fate |-> r.fate, policy |-> r.policy, params |-> r.params, ret |-> r.ret]
TraceInit == l = 1 /\ phase = "start" /\ f = [kind |-> "none", fate |-> "ok", policy |-> "ffi", params |-> <<>>, ret |-> <<"none", "void">>]
Step == /\ l <= Len(Trace)
        /\ LET r == Trace[l]
               g == Decl(r)
               c == Complaints(g, r.obs) \cup (IF r.siblings THEN {} ELSE {<<"P09", "siblings affected">>})
           IN /\ f' = g
              /\ IF c = {} THEN TRUE
                 ELSE PrintT("REJECT:" \o ToJson([id |-> r.id, complaints |-> SetToSeq(c)]))
        /\ phase' = "done" /\ l' = l + 1
TraceSpec == TraceInit /\ [][Step]_<<f, phase, l>>
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
