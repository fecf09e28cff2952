---------------------------- MODULE ObjectsTrace ----------------------------
(* Recorded histories (one a line) validated against Objects.                  *)
EXTENDS Objects, IOUtils
Trace == TLCEval(ndJsonDeserialize(IOEnv.TRACE))
VARIABLE l
N == NSlots
\* Follow the history until something is wrong.
Walk(r) ==
    FoldLeft(LAMBDA x, i :
        IF x.st.bad # {} THEN x
        ELSE LET o == r.ops[i]
                 st == Through(x.st, x.sl, x.own, o, r.steps[i])
             IN  [st |-> st, sl |-> After(x.sl, o), own |-> [j \in Sl |-> r.steps[i].slots[j].o], at |-> i],
        [st |-> Start, sl |-> [j \in Sl |-> Empty], own |-> [j \in Sl |-> 0], at |-> 0],
        [i \in 1..Len(r.steps) |-> i])
Verdict(r) ==
    LET w == Walk(r)
        fin == IF w.st.bad = {} /\ r.crash THEN {"crashed"} ELSE {}
        blk == IF w.st.bad = {} /\ ~r.crash /\ r.c = "alloc"
                  /\ Cardinality({i \in DOMAIN w.st.blk : w.st.blk[i]}) # Cardinality({i \in Sl : w.sl[i].k \in {"up", "upp"}})
               THEN {"memory-not-paired"} ELSE {}
    IN  [at |-> w.at, why |-> w.st.bad \cup fin \cup blk]
TraceInit == l = 1 /\ cls = "full" /\ slots = [i \in Sl |-> Empty] /\ hist = <<>>
Observe == /\ l <= Len(Trace) /\ l' = l + 1 /\ UNCHANGED vars
           /\ LET v == Verdict(Trace[l]) IN IF v.why = {} THEN TRUE ELSE PrintT("REJECT:" \o ToJson([id |-> Trace[l].id, at |-> v.at, why |-> SetToSeq(v.why)]))
TraceSpec == TraceInit /\ [][Observe]_<<vars, l>>
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
