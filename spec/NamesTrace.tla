----------------------------- MODULE NamesTrace -----------------------------
(* Each record is one header: its declarations in order, each with the Rust    *)
(* name under which the real engine exposed it ("" if it did not).             *)
EXTENDS Names, IOUtils, SequencesExt
Trace == TLCEval(ndJsonDeserialize(IOEnv.TRACE))
VARIABLES l, k
Plain(d) == [scope |-> d.scope, name |-> d.name, sig |-> d.sig, fate |-> d.fate]
TraceInit == l = 1 /\ k = 0 /\ decls = <<>>
NextHeader == /\ l <= Len(Trace) /\ k = Len(Trace[l].decls)
              /\ l' = l + 1 /\ k' = 0 /\ decls' = <<>>
DeclareEvent ==
    /\ l <= Len(Trace) /\ k < Len(Trace[l].decls)
    /\ LET e == Trace[l].decls[k + 1]
           d == Plain(e)
           ds == Append(decls, d)
       IN /\ Allowed(d)
          /\ decls' = ds
          /\ LET all == [i \in DOMAIN Trace[l].decls |-> Plain(Trace[l].decls[i])] IN IF e.rust = Exposed(all, k + 1) THEN TRUE
             ELSE PrintT("REJECT:" \o ToJson([id |-> Trace[l].id, at |-> k + 1, expected |-> Exposed(all, k + 1), got |-> e.rust,
                      clash |-> Clash(all, d.scope)]))
    /\ k' = k + 1 /\ UNCHANGED l
TraceNext == NextHeader \/ DeclareEvent
TraceSpec == TraceInit /\ [][TraceNext]_<<decls, l, k>>
RECURSIVE Sum(_)
Sum(i) == IF i = 0 THEN 0 ELSE Sum(i - 1) + Len(Trace[i].decls) + 1
TraceAccepted == TLCGet("stats").diameter - 1 = Sum(Len(Trace))
=============================================================================
