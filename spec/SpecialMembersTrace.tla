----------------------- MODULE SpecialMembersTrace -----------------------
(* Replays headers that were given to the real engine, class by class, and     *)
(* accepts each class only if what the bindings offer is allowed by            *)
(* SpecialMembers.  `gxx` records what the C++ compiler itself says of the     *)
(* class, so that the C++ rules in the specification are validated too.        *)
EXTENDS SpecialMembers, IOUtils, SequencesExt
Trace == TLCEval(ndJsonDeserialize(IOEnv.TRACE))
VARIABLE l
tvars == <<classes, l>>

GxxReasons(cs, r) ==
    IF "gxx" \in DOMAIN r
    THEN LET t == Truth(cs, Len(cs)) IN
         {<<"compiler-disagrees", o>> : o \in {x \in Ops : r.gxx[x] # t[x]}}
    ELSE {}

TraceInit == l = 1 /\ classes = <<>>
Observe ==
    /\ l <= Len(Trace)
    /\ l' = l + 1
    /\ classes' = Trace[l].classes
    /\ LET r  == Trace[l]
           rs == Reasons(r.classes, Len(r.classes), r.offered) \cup GxxReasons(r.classes, r)
       IN  IF rs = {} THEN TRUE ELSE PrintT("REJECT:" \o ToJson(
                [id |-> r.id, reasons |-> SetToSeq(rs),
                 known |-> IF GxxReasons(r.classes, r) # {} THEN <<>>
                           ELSE LET ex == Explains(r.classes, Len(r.classes), r.offered)
                                IN  IF ex = {} THEN <<>>
                                    ELSE SetToSeq(CHOOSE d \in ex :
                                            \A e \in ex : Cardinality(d) <= Cardinality(e))]))
TraceNext == Observe
TraceSpec == TraceInit /\ [][TraceNext]_tvars
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
