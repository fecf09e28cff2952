----------------------------- MODULE CallsTrace -----------------------------
(* Recorded programs (one a line: declarations, the Rust names used, calls and *)
(* what was recorded of each) validated against Calls.                         *)
EXTENDS Calls, IOUtils
Trace == TLCEval(ndJsonDeserialize(IOEnv.TRACE))
VARIABLE l
Walk(p) ==
    FoldLeft(LAMBDA w, i :
        IF w.bad # {} THEN w
        ELSE IF Len(p.steps) < i THEN [w EXCEPT !.bad = {"stopped"}, !.at = i]
        ELSE LET c == p.calls[i]
                 d == p.decls[c.f]
             IN  [ob |-> AfterCall(w.ob, d, c), at |-> i,
                  bad |-> (IF CallOk(p.decls, c) /\ p.names[c.f] = RustName(p.decls, c.f) THEN {} ELSE {"not-a-call"}) \cup Wrong(w.ob, d, c, p.steps[i])],
        [ob |-> Fresh, at |-> 0, bad |-> {}],
        [i \in 1..Len(p.calls) |-> i])
TraceInit == l = 1 /\ decls = <<>> /\ objs = Fresh /\ calls = <<>> /\ phase = "declare"
Observe == /\ l <= Len(Trace) /\ l' = l + 1 /\ UNCHANGED vars
           /\ LET w == Walk(Trace[l]) IN IF w.bad = {} THEN TRUE ELSE PrintT("REJECT:" \o ToJson([id |-> Trace[l].id, at |-> w.at, why |-> SetToSeq(w.bad)]))
TraceSpec == TraceInit /\ [][Observe]_<<vars, l>>
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
