---------------------------- MODULE ArchiveTrace ----------------------------
(* Each record is a history of operations on a real archive with what each gave *)
(* (code, 0 if missing, Nothing for operations which give nothing), or the result of *)
(* generating code for whole Rust files ("codegen"): for each invocation of the *)
(* macro in them, whether the archive gave it the code generated for it.        *)
EXTENDS Archive, IOUtils, SequencesExt
Trace == TLCEval(ndJsonDeserialize(IOEnv.TRACE))
VARIABLES l, k
Reject(r, i, why) == PrintT("REJECT:" \o ToJson([id |-> r.id, at |-> i, why |-> why]))
(* Two invocations with the same directives cannot be told apart by the macro: the generator *)
(* must refuse them if what it discovered elsewhere makes their bindings different.          *)
Ambiguous(r) == \E i, j \in DOMAIN r.invs : r.invs[i].key = r.invs[j].key /\ r.invs[i].found # r.invs[j].found
JudgeCodegen(r) ==
    IF Ambiguous(r) THEN IF r.status = "ok" THEN Reject(r, 0, "two different bindings stored for the same directives") ELSE TRUE
    ELSE IF r.status # "ok" THEN Reject(r, 0, "no bindings generated")
    ELSE \A i \in DOMAIN r.got : IF r.got[i] THEN TRUE ELSE Reject(r, i, "not the code generated for this invocation")
TraceInit == l = 1 /\ k = 0 /\ AInit
NextRecord == /\ l <= Len(Trace) /\ (IF Trace[l].kind = "codegen" THEN TRUE ELSE k = Len(Trace[l].ops))
              /\ (IF Trace[l].kind = "codegen" THEN JudgeCodegen(Trace[l]) ELSE TRUE)
              /\ l' = l + 1 /\ k' = 0 /\ arch' = {} /\ UNCHANGED <<hist, cfg, ops>>
OpEvent == /\ l <= Len(Trace) /\ Trace[l].kind = "history" /\ k < Len(Trace[l].ops)
           /\ LET o == Trace[l].ops[k + 1] IN
                /\ IF o.got \in Results(arch, o) THEN TRUE ELSE Reject(Trace[l], k + 1, "wrong bindings")
                /\ arch' = Step(arch, o)
           /\ k' = k + 1 /\ UNCHANGED <<l, hist, cfg, ops>>
TraceNext == NextRecord \/ OpEvent
TraceSpec == TraceInit /\ [][TraceNext]_<<l, k, arch>>
RECURSIVE Sum(_)
Sum(i) == IF i = 0 THEN 0 ELSE Sum(i - 1) + 1 + (IF Trace[i].kind = "history" THEN Len(Trace[i].ops) ELSE 0)
TraceAccepted == TLCGet("stats").diameter - 1 = Sum(Len(Trace))
=============================================================================
