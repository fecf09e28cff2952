---------------------------- MODULE SubclassTrace ----------------------------
(* Recorded histories (one a line) validated against Subclass.                 *)
EXTENDS Subclass, IOUtils
Trace == TLCEval(ndJsonDeserialize(IOEnv.TRACE))
VARIABLE l
Walk(r) ==
    FoldLeft(LAMBDA w, i :
        IF w.bad # {} \/ w.st.dead # "" THEN w
        ELSE LET o == r.ops[i]
                 n == After(w.st, o)
             IN  IF n.dead # "" THEN [w EXCEPT !.st = n, !.bad = IF Len(r.steps) >= i THEN {"went-on"} ELSE {}, !.at = i]
                 ELSE IF Len(r.steps) < i THEN [w EXCEPT !.bad = {"stopped"}, !.at = i]
                 ELSE [w EXCEPT !.st = n, !.bad = Wrong(w.st, o, r.steps[i]), !.at = i],
        [st |-> Blank, bad |-> {}, at |-> 0],
        [i \in 1..Len(r.ops) |-> i])
Verdict(r) ==
    LET w == Walk(r)
        n == Len(r.ops)
    IN  IF w.bad # {} THEN [at |-> w.at, why |-> w.bad]
        ELSE IF w.st.dead # "" THEN [at |-> w.at, why |-> IF ~r.crash THEN {"went-on"} ELSE IF r.reason # w.st.dead THEN {"stopped-otherwise"} ELSE {}]
        ELSE IF Len(r.steps) # n + 1 THEN [at |-> n + 1, why |-> {"stopped"}]
        ELSE [at |-> n + 1, why |-> WrongEnd(w.st, r.steps[n + 1])]
TraceInit == l = 1 /\ Is(Blank) /\ hist = <<>>
Observe == /\ l <= Len(Trace) /\ l' = l + 1 /\ UNCHANGED vars
           /\ LET v == Verdict(Trace[l]) IN IF v.why = {} THEN TRUE ELSE PrintT("REJECT:" \o ToJson([id |-> Trace[l].id, at |-> v.at, why |-> SetToSeq(v.why)]))
TraceSpec == TraceInit /\ [][Observe]_<<vars, l>>
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
