------------------------------ MODULE GenTrace ------------------------------
(* Records of histories of the real generator: r.runs[i] has the input and what *)
(* the run did: ok, files (name, marks, incs, blank, empty, rewritten, fresh),  *)
(* outputs and deps of the dependency file.                                     *)
EXTENDS Gen, IOUtils
Trace == TLCEval(ndJsonDeserialize(IOEnv.TRACE))
VARIABLE l
Reject(id, i, why) == PrintT("REJECT:" \o ToJson([id |-> id, why |-> "run " \o ToString(i) \o ": " \o why]))
Mark(s) == s.kind \o ToString(s.hdr)
Needed(c) == c.role \in {"cc", "rs", "autoh", "autocc", "json"} \/ (c.role = "h" /\ c.secs[1].kind = "sub")
Marks(c) == {Mark(c.secs[k]) : k \in DOMAIN c.secs}
JudgeFile(id, i, n, c, x, same) ==
    IF c.role = "blank" /\ ~x.blank THEN Reject(id, i, n \o " should be blank")
    ELSE IF c.role # "blank" /\ x.blank THEN Reject(id, i, n \o " is blank")
    ELSE IF c.role = "empty" /\ ~x.empty THEN Reject(id, i, n \o " should be empty")
    ELSE IF ~ToSet(x.marks) \subseteq Marks(c) \/ (Needed(c) /\ ToSet(x.marks) # Marks(c)) THEN Reject(id, i, n \o " is for other sections")
    ELSE IF c.role # "cxx.h" /\ c.role # "h" /\ ToSet(x.incs) # c.incs THEN Reject(id, i, n \o " includes other headers")
    ELSE IF c.role = "h" /\ ~ToSet(x.incs) \subseteq c.incs THEN Reject(id, i, n \o " includes other headers")
    ELSE IF ~x.fresh THEN Reject(id, i, n \o " is not what a run in an empty directory gives")
    ELSE IF same /\ x.rewritten THEN Reject(id, i, n \o " was rewritten although unchanged")
    ELSE TRUE
\* f: what is known of the directory before run i
JudgeRun(id, i, r, f) ==
    LET e == Outcome(r.files, r.opts, r.vers, f)
        names == {r.out[k].name : k \in DOMAIN r.out}
    IN IF r.ok # e.ok THEN Reject(id, i, IF e.ok THEN "failed: " \o r.said ELSE "succeeded although it cannot keep its promises")
       ELSE IF ~e.ok THEN TRUE
       ELSE IF ~DOMAIN e.files \subseteq names THEN Reject(id, i, "missing files")
       ELSE IF \E k \in DOMAIN r.out : r.out[k].rewritten /\ r.out[k].name \notin DOMAIN e.files THEN Reject(id, i, "wrote other files than promised")
       ELSE IF ToSet(r.outputs) # DOMAIN e.files THEN Reject(id, i, "the dependency file lists other outputs")
       ELSE IF \E k \in DOMAIN r.deps : ToSet(r.deps[k]) # e.deps THEN Reject(id, i, "the dependency file lists other headers")
       ELSE \A k \in DOMAIN r.out : IF r.out[k].name \notin DOMAIN e.files THEN TRUE
                ELSE JudgeFile(id, i, r.out[k].name, e.files[r.out[k].name], r.out[k], r.out[k].name \in e.same)
RECURSIVE JudgeFrom(_, _, _, _)
JudgeFrom(id, rs, i, f) ==
    IF i > Len(rs) THEN TRUE
    ELSE /\ JudgeRun(id, i, rs[i], f)
         /\ JudgeFrom(id, rs, i + 1, After(f, Outcome(rs[i].files, rs[i].opts, rs[i].vers, f)))
TraceInit == l = 1 /\ Init
TraceNext == l <= Len(Trace) /\ JudgeFrom(Trace[l].id, Trace[l].runs, 1, <<>>) /\ l' = l + 1 /\ UNCHANGED vars
TraceSpec == TraceInit /\ [][TraceNext]_<<l, vars>>
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
