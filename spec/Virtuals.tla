------------------------------ MODULE Virtuals ------------------------------
(* Virtual calls on Rust subclasses (property P12).  A header declares a       *)
(* superclass `Sup` with virtual methods, some pure, some protected, possibly  *)
(* overloaded, and a constructor; Rust has two subclasses, MyA and MyB, each   *)
(* overriding some of the methods, and one object of each.  The methods are    *)
(* then called by C++ (through a reference to the superclass), by Rust through *)
(* such a reference, through the explicit superclass version and through the   *)
(* trait.  The specification says which implementation runs, on which object,  *)
(* with which arguments, and what its caller sees.  Types, passing modes and   *)
(* values are those of Calls; every object has a state on either side of the   *)
(* language border, which a mutating implementation replaces by its successor. *)
EXTENDS Calls

CONSTANTS MaxCtor, Places, Ways

VARIABLES setup
vvars == <<decls, objs, calls, phase, setup>>

Overrides == <<"MyA", "MyB">>
Pure(d) == d.pure
NormV(p) == [p EXCEPT !.how = IF p.b \in {"O", "S"} /\ p.m = "val" THEN "move" ELSE "-"]
VInputs(b) == Inputs(b) \ {"rref"}
VOutputs(b) == Outputs(b) \ {"cref", "mref", "rref"}
VWell(d) ==
    /\ d.owner = "V" /\ d.kind \in {"vconst", "vmut"} /\ d.vis \in {"public", "protected"}
    /\ \A i \in DOMAIN d.params : d.params[i].m \in Inputs(d.params[i].b) /\ d.params[i] = NormV(d.params[i])
    /\ d.ret # Void => d.ret.m \in Outputs(d.ret.b)
    /\ RefRetOk(d)
VAddable(ds, d) == VWell(d) /\ \A i \in DOMAIN ds : Apart(d, ds[i])
SetupOk(ds, s) ==
    /\ Len(s.over) = 2 /\ Len(s.cargs) = 2
    /\ \A o \in 1..2 : /\ Len(s.cargs[o]) = Len(s.ctor)
                       /\ \A i \in DOMAIN s.ctor : s.cargs[o][i] \in Values(s.ctor[i].b)
                       /\ s.over[o] \subseteq DOMAIN ds
                       /\ \A i \in DOMAIN ds : Pure(ds[i]) => i \in s.over[o]

VCallOk(ds, c) ==
    /\ c.o \in 1..2 /\ c.f \in DOMAIN ds /\ CallOk(ds, c)
    /\ c.via \in {"cpp", "ref", "super", "trait"}
    /\ c.via = "super" => ~Pure(ds[c.f])
    /\ c.via = "ref" => ds[c.f].vis = "public"

\* The heart of it: whose code runs.
Who(ds, over, c) == IF c.via = "super" THEN "cpp" ELSE IF c.f \in over[c.o] THEN "rust" ELSE "cpp"
VFresh == [cpp |-> <<1, 1>>, rust |-> <<1, 1>>]
AfterVCall(ob, ds, over, c) ==
    IF ds[c.f].kind = "vmut" THEN [ob EXCEPT ![Who(ds, over, c)][c.o] = Next3(@)] ELSE ob
VExpected(ob, ds, over, c) ==
    LET d == ds[c.f]
        w == Who(ds, over, c)
        a == AfterVCall(ob, ds, over, c)
    IN  [who |-> w, n |-> 1, f |-> c.f, recv |-> ob[w][c.o], tags |-> c.v,
         outs |-> [i \in DOMAIN d.params |-> Out(d.params[i], c.v[i])],
         ret |-> IF d.ret = Void THEN 0 ELSE c.r, cs |-> a.cpp, rs |-> a.rust]

-----------------------------------------------------------------------------
(* Every passing mode of every type, and every kind of result, in a method of *)
(* either kind which one subclass overrides; each called in every way.        *)
VDecl(k, ps, r, p, vis, n) == [owner |-> "V", kind |-> k, name |-> n, params |-> ps, ret |-> r, pure |-> p, vis |-> vis, dress |-> ""]
PlainSetup(pl) == [place |-> pl, ctor |-> <<>>, cargs |-> << <<>>, <<>> >>, cprot |-> FALSE, over |-> << {1}, {} >>]
VCall(o, f, via, v, r) == [o |-> o, f |-> f, via |-> via, v |-> v, r |-> r]
InAllWays(d) == [i \in 1..8 |-> VCall((i % 2) + 1, 1, <<"cpp", "ref", "super", "trait">>[((i - 1) \div 2) + 1],
                                      [j \in DOMAIN d.params |-> 2], IF d.ret = Void THEN 1 ELSE 2)]
VOne(b, m, k) == VDecl(k, <<NormV(Param(b, m, "-"))>>, Void, FALSE, "public", "f")
VOneRet(b, m, k) == VDecl(k, <<>>, [b |-> b, m |-> m], FALSE, "public", "f")
EachVInit == /\ objs = VFresh /\ phase = "each" /\ setup = PlainSetup("root")
             /\ \E b \in Bases, k \in Kinds, m \in Modes :
                  \E d \in {VOne(b, m, k), VOneRet(b, m, k)} : VWell(d) /\ decls = <<d>> /\ calls = InAllWays(d)
EachVSpec == EachVInit /\ [][FALSE]_vvars

-----------------------------------------------------------------------------
(* Random superclasses, subclasses and histories of calls.                    *)
VRandParam(u) == NormV(LET b == RandomElement(Bases) IN Param(b, RandomElement(VInputs(b)), "-"))
VRandRet(u) == LET b == RandomElement(Bases) IN IF RandomElement(1..4) = 1 THEN Void ELSE [b |-> b, m |-> RandomElement(VOutputs(b))]
VRandDecl(u) ==
    LET n == RandomElement(0..MaxParams) IN
    VDecl(RandomElement(Kinds), [i \in 1..n |-> VRandParam(i)], VRandRet(n), RandomElement(1..4) = 1,
          IF RandomElement(1..4) = 1 THEN "protected" ELSE "public", RandomElement(Names))
VRandSetup(ds) ==
    LET n == RandomElement(0..MaxCtor)
        ctor == [i \in 1..n |-> VRandParam(i)]
        pure == {i \in DOMAIN ds : Pure(ds[i])}
    IN  TLCEval([place |-> RandomElement(Places), ctor |-> ctor, cprot |-> RandomElement(1..3) = 1,
         cargs |-> [o \in 1..2 |-> [i \in 1..n |-> RandomElement(Values(ctor[i].b))]],
         over |-> [o \in 1..2 |-> pure \cup RandomElement(SUBSET (DOMAIN ds))]])
VRandCall(ds) ==
    LET f == RandomElement(DOMAIN ds)
        d == ds[f]
        way == RandomElement(Ways)
    IN  VCall(RandomElement(1..2), f,
              IF (way = "super" /\ Pure(d)) \/ (way = "ref" /\ d.vis = "protected") THEN "cpp" ELSE way,
              [i \in DOMAIN d.params |-> RandomElement(Values(d.params[i].b))],
              IF d.ret = Void THEN 1 ELSE RandomElement(Values(d.ret.b)))
VInit == decls = <<>> /\ objs = VFresh /\ calls = <<>> /\ phase = "declare" /\ setup = PlainSetup("root")
VDeclare == /\ phase = "declare" /\ Len(decls) < MaxDecls
            /\ \E d \in {VRandDecl(1)} : IF VAddable(decls, d) THEN decls' = Append(decls, d) /\ UNCHANGED <<objs, calls, phase, setup>> ELSE UNCHANGED vvars
VSubclass == /\ phase = "declare" /\ Len(decls) = MaxDecls /\ phase' = "call"
             /\ setup' = VRandSetup(decls) /\ UNCHANGED <<decls, objs, calls>>
VMake == /\ phase = "call" /\ Len(calls) < MaxCalls
         /\ \E c \in {VRandCall(decls)} :
              /\ calls' = Append(calls, c)
              /\ objs' = AfterVCall(objs, decls, setup.over, c)
              /\ UNCHANGED <<decls, phase, setup>>
VSimSpec == VInit /\ [][VDeclare \/ VSubclass \/ VMake]_vvars

\* Properties of the model.
VCallsOk == \A i \in DOMAIN calls : VCallOk(decls, calls[i])
VSetupOk == phase = "call" => SetupOk(decls, setup)
VStatesOk == \A w \in {"cpp", "rust"}, o \in 1..2 : objs[w][o] \in 1..3
\* A pure method never runs in C++, and the superclass's version never runs in Rust.
PureIsRust == phase = "call" => \A i \in DOMAIN calls : LET c == calls[i] IN
    /\ Pure(decls[c.f]) => Who(decls, setup.over, c) = "rust"
    /\ c.via = "super" => Who(decls, setup.over, c) = "cpp"
\* Objects do not influence one another.
Apart2 == phase = "call" /\ calls # <<>> =>
    LET c == calls[Len(calls)] b == AfterVCall(objs, decls, setup.over, c) IN
    \A w \in {"cpp", "rust"} : b[w][3 - c.o] = objs[w][3 - c.o]

VLine == [decls |-> decls, names |-> [i \in DOMAIN decls |-> RustName(decls, i)], place |-> setup.place, ctor |-> setup.ctor,
          cargs |-> setup.cargs, cprot |-> setup.cprot, over |-> [o \in 1..2 |-> SetToSeq(setup.over[o])], calls |-> calls]
VEmitEach == PrintT("CASE:" \o ToJson(VLine))
VEmitSim == IF Len(calls) < MaxCalls THEN TRUE ELSE PrintT("CASE:" \o ToJson(VLine))

-----------------------------------------------------------------------------
(* Judging a recorded call.                                                   *)
VWrong(ob, ds, over, c, r) ==
    LET e == VExpected(ob, ds, over, c) IN
    (IF r.who = e.who /\ r.n = e.n /\ r.f = e.f THEN {} ELSE {"wrong-implementation"})
    \cup (IF r.tags = e.tags THEN {} ELSE {"wrong-argument"})
    \cup (IF r.recv = e.recv /\ (e.who = "cpp" => r.rsame) THEN {} ELSE {"wrong-object"})
    \cup (IF \A i \in DOMAIN r.same : r.same[i] THEN {} ELSE {"copied-argument"})
    \cup (IF r.outs = e.outs THEN {} ELSE {"lost-change"})
    \cup (IF r.ret = e.ret /\ r.rsm THEN {} ELSE {"wrong-result"})
    \cup (IF r.cs = e.cs /\ r.rs = e.rs THEN {} ELSE {"wrong-state"})
    \cup (IF r.live = 0 THEN {} ELSE {"leak-or-double-free"})
=============================================================================
