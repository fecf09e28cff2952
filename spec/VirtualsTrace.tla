--------------------------- MODULE VirtualsTrace ---------------------------
(* Recorded superclass programs (one a line: declarations, names, overrides,   *)
(* constructor arguments, calls and what was recorded of each) validated       *)
(* against Virtuals.                                                           *)
EXTENDS Virtuals, IOUtils
Trace == TLCEval(ndJsonDeserialize(IOEnv.TRACE))
VARIABLE l
Over(p) == [o \in 1..2 |-> {p.over[o][i] : i \in DOMAIN p.over[o]}]
Walk(p) ==
    LET over == Over(p) IN
    FoldLeft(LAMBDA w, i :
        IF w.bad # {} THEN w
        ELSE IF Len(p.steps) < i THEN [w EXCEPT !.bad = {"stopped"}, !.at = i]
        ELSE LET c == p.calls[i]
             IN  [ob |-> AfterVCall(w.ob, p.decls, over, c), at |-> i,
                  bad |-> (IF VCallOk(p.decls, c) /\ p.names[c.f] = RustName(p.decls, c.f) THEN {} ELSE {"not-a-call"}) \cup VWrong(w.ob, p.decls, over, c, p.steps[i])],
        [ob |-> VFresh, at |-> 0, bad |-> {}],
        [i \in 1..Len(p.calls) |-> i])
\* The superclass's constructor ran once for each object, with its arguments, and the superclass is gone at the end.
Ends(p) == (IF p.made = p.cargs THEN {} ELSE {"wrong-construction"}) \cup (IF p.left = 0 THEN {} ELSE {"not-freed"})
TraceInit == l = 1 /\ decls = <<>> /\ objs = VFresh /\ calls = <<>> /\ phase = "declare" /\ setup = PlainSetup("root")
Observe == /\ l <= Len(Trace) /\ l' = l + 1 /\ UNCHANGED vvars
           /\ LET w == Walk(Trace[l])
                  bad == IF w.bad # {} THEN w.bad ELSE Ends(Trace[l])
              IN IF bad = {} THEN TRUE ELSE PrintT("REJECT:" \o ToJson([id |-> Trace[l].id, at |-> w.at, why |-> SetToSeq(bad)]))
TraceSpec == TraceInit /\ [][Observe]_<<vvars, l>>
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
