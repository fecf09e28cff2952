------------------------------- MODULE Calls -------------------------------
(* Calling bound functions (property P18).  A header declares functions in     *)
(* namespaces and classes, possibly overloaded; Rust then makes calls.  The    *)
(* specification says under which Rust name each function is found and what    *)
(* every call must do: which C++ function runs, on which object, with which    *)
(* values and (for references and pointers) which objects as its arguments,    *)
(* what Rust sees of changes, and what the result is.  Values of each type are *)
(* numbered 1 to 3; a C++ function replaces what it can change by its          *)
(* successor.                                                                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt

CONSTANTS Bases, MaxDecls, MaxCalls, MaxParams, Names, Owners, Kinds, Dresses, Keywords

VARIABLES decls, objs, calls, phase
vars == <<decls, objs, calls, phase>>

Flat == {"i8", "u8", "i16", "u16", "i32", "u32", "i64", "u64", "sh", "ush", "int", "uint", "long", "ulong", "ll", "ull",
         "f32", "f64", "char", "usize", "bool", "E", "EC"}
Classes == {"C", "C2", "In", "C3"}
Inputs(b) == IF b \in Flat THEN {"val", "cref", "mref", "cptr", "mptr"}
             ELSE IF b \in {"P", "O", "M", "S"} THEN {"val", "cref", "mref", "cptr", "mptr", "uptr", "sptr", "rref"}
             ELSE {"cref", "mref", "cptr", "mptr", "uptr"}
Outputs(b) == IF b \in {"Vi", "VO", "Vd", "VS"} THEN Inputs(b) ELSE Inputs(b) \ {"rref"}
Values(b) == IF b = "bool" THEN 1..2 ELSE 1..3
Succ(b, v) == IF b = "bool" THEN 3 - v ELSE (v % 3) + 1
Next3(v) == (v % 3) + 1

Void == [b |-> "-", m |-> "void"]
Param(b, m, how) == [b |-> b, m |-> m, how |-> how]
NormP(p) == IF p.b \in {"O", "S"} /\ p.m = "val" THEN p ELSE [p EXCEPT !.how = "-"]
Recv(d) == d.kind \in {"const", "mut", "vconst", "vmut"}
ConstRecv(d) == d.kind \in {"const", "vconst"}

\* What Rust's rules for lifetimes need: a returned reference is tied to exactly one input.
Refs(d) == Cardinality({i \in DOMAIN d.params : d.params[i].m \in {"cref", "mref"}}) + (IF Recv(d) THEN 1 ELSE 0)
MutRefs(d) == Cardinality({i \in DOMAIN d.params : d.params[i].m = "mref"}) + (IF Recv(d) /\ ~ConstRecv(d) THEN 1 ELSE 0)
RefRetOk(d) == /\ d.ret.m \in {"cref", "mref"} => Refs(d) = 1
               /\ d.ret.m = "mref" => MutRefs(d) = 1
Well(d) ==
    /\ d.kind = "free" <=> d.owner \notin Classes
    /\ d.kind = "ctor" <=> d.name = "new"
    /\ d.kind = "ctor" => d.ret = Void
    /\ \A i \in DOMAIN d.params : d.params[i].m \in Inputs(d.params[i].b)
    /\ d.ret # Void => d.ret.m \in Outputs(d.ret.b)
    /\ RefRetOk(d)
    \* (a constructor from just its own class is not made; one from nothing at all is fine)

\* Overloads which a C++ caller with these very arguments can tell apart.
Same(b) == CASE b = "sh" -> "i16" [] b = "ush" -> "u16" [] b = "int" -> "i32" [] b = "uint" -> "u32"
             [] b = "long" -> "i64" [] b = "ulong" -> "u64" [] b = "usize" -> "u64" [] OTHER -> b
Key(p) == <<Same(p.b), IF p.m \in {"val", "cref", "mref", "rref"} THEN "direct" ELSE p.m>>
Apart(d, e) == \/ d.owner # e.owner \/ d.name # e.name
               \/ [i \in DOMAIN d.params |-> Key(d.params[i])] # [i \in DOMAIN e.params |-> Key(e.params[i])]
               \/ /\ Recv(d) /\ Recv(e) /\ ConstRecv(d) # ConstRecv(e)
Addable(d) == Well(d) /\ \A i \in DOMAIN decls : Apart(d, decls[i])

\* The Rust name: later functions of the same name in a scope are numbered, virtual ones last.
\* The names of functions which are keywords of Rust get an underscore.
Virtual(d) == d.kind \in {"vconst", "vmut"}
Before(ds, j, i) == IF Virtual(ds[i]) = Virtual(ds[j]) THEN j < i ELSE Virtual(ds[i])
Mangled(d) == IF d.name \in Keywords THEN d.name \o "_" ELSE d.name
RustName(ds, i) == LET k == Cardinality({j \in DOMAIN ds : Before(ds, j, i) /\ ds[j].owner = ds[i].owner /\ Mangled(ds[j]) = Mangled(ds[i])})
                   IN  IF k = 0 THEN Mangled(ds[i]) ELSE Mangled(ds[i]) \o ToString(k)

-----------------------------------------------------------------------------
(* A call, and what must be observed.                                         *)
Call(f, vs, r) == [f |-> f, v |-> vs, r |-> r]
RetOk(d, r) == CASE d.kind = "ctor" -> r \in 1..3 [] d.ret = Void -> r = 1 [] OTHER -> r \in Values(d.ret.b)
CallOk(ds, c) == LET d == ds[c.f] IN
    /\ Len(c.v) = Len(d.params)
    /\ \A i \in DOMAIN d.params : c.v[i] \in Values(d.params[i].b)
    /\ RetOk(d, c.r)
AfterCall(ob, d, c) ==
    CASE d.kind \in {"mut", "vmut"} -> [ob EXCEPT ![d.owner] = Next3(@)]
      [] d.kind = "ctor" -> [ob EXCEPT ![d.owner] = c.r]
      [] OTHER -> ob
\* What Rust can still see of an argument after the call.
Out(p, v) == CASE p.m \in {"mref", "mptr", "sptr"} -> Succ(p.b, v)
               [] p.m \in {"cref", "cptr"} -> v
               [] p.m = "val" /\ p.how = "copy" -> v
               [] OTHER -> 0
Expected(ob, d, c) ==
    [n |-> 1, f |-> c.f, recv |-> IF Recv(d) THEN ob[d.owner] ELSE 0,
     tags |-> c.v, outs |-> [i \in DOMAIN d.params |-> Out(d.params[i], c.v[i])],
     ret |-> IF d.kind = "ctor" THEN c.r ELSE IF d.ret = Void THEN 0 ELSE c.r,
     st |-> LET o == AfterCall(ob, d, c) IN <<o["C"], o["C2"], o["In"], o["C3"]>>]
Fresh == [o \in Classes |-> 1]

-----------------------------------------------------------------------------
(* One function at a time: every kind with every type in every mode, as the   *)
(* only parameter and as the result.                                          *)
Modes == {"val", "cref", "mref", "rref", "cptr", "mptr", "uptr", "sptr"}
OneParam == {NormP(Param(b, m, h)) : b \in Bases, m \in Modes, h \in {"copy", "move"}}
OneRet == {Void} \cup {[b |-> b, m |-> m] : b \in Bases, m \in Modes}
Decl(o, k, ps, r) == [owner |-> o, kind |-> k, name |-> IF k = "ctor" THEN "new" ELSE "f", params |-> ps, ret |-> r, dress |-> ""]
EachInit == /\ objs = Fresh /\ calls = <<>> /\ phase = "each"
            /\ \E o \in Owners, k \in Kinds :
                 \/ \E p \in OneParam : decls = <<Decl(o, k, <<p>>, Void)>> /\ Well(decls[1])
                 \/ \E r \in OneRet : decls = <<Decl(o, k, <<>>, r)>> /\ Well(decls[1])
                 \* (references returned by functions without an object need an argument)
                 \/ \E b \in Bases, m \in {"cref", "mref"} :
                      k \in {"free", "static"} /\ decls = <<Decl(o, k, <<Param(b, m, "-")>>, [b |-> b, m |-> m])>> /\ Well(decls[1])
EachSpec == EachInit /\ [][FALSE]_vars

-----------------------------------------------------------------------------
(* Random programs with overloads, and random calls.                          *)
RandParam(u) == NormP(LET b == RandomElement(Bases) IN Param(b, RandomElement(Inputs(b)), RandomElement({"copy", "move"})))
RandRet(u) == LET b == RandomElement(Bases) IN IF RandomElement(1..4) = 1 THEN Void ELSE [b |-> b, m |-> RandomElement(Outputs(b))]
RandDecl(u) ==
    LET o  == RandomElement(Owners)
        k  == IF o \in Classes THEN RandomElement(Kinds \ {"free"}) ELSE "free"
        n  == RandomElement(0..MaxParams)
    IN  [owner |-> o, kind |-> k, name |-> IF k = "ctor" THEN "new" ELSE RandomElement(Names),
         params |-> [i \in 1..n |-> RandParam(i)], ret |-> IF k = "ctor" THEN Void ELSE RandRet(n), dress |-> RandomElement(Dresses)]
RandCall(ds) ==
    LET f == RandomElement(DOMAIN ds)
        d == ds[f]
    IN  Call(f, [i \in DOMAIN d.params |-> RandomElement(Values(d.params[i].b))],
             IF d.kind = "ctor" THEN RandomElement(1..3) ELSE IF d.ret = Void THEN 1 ELSE RandomElement(Values(d.ret.b)))
Init == decls = <<>> /\ objs = Fresh /\ calls = <<>> /\ phase = "declare"
Declare == /\ phase = "declare" /\ Len(decls) < MaxDecls
           /\ \E d \in {RandDecl(1)} : IF Addable(d) THEN decls' = Append(decls, d) /\ UNCHANGED <<objs, calls, phase>> ELSE UNCHANGED vars
Turn == phase = "declare" /\ Len(decls) = MaxDecls /\ phase' = "call" /\ UNCHANGED <<decls, objs, calls>>
Make == /\ phase = "call" /\ Len(calls) < MaxCalls
        /\ \E c \in {RandCall(decls)} :
             /\ calls' = Append(calls, c)
             /\ objs' = AfterCall(objs, decls[c.f], c)
             /\ UNCHANGED <<decls, phase>>
SimSpec == Init /\ [][Declare \/ Turn \/ Make]_vars

\* Properties of the model: names are unique in their scope, and calls are well-formed.
UniqueNames == \A i, j \in DOMAIN decls : i # j /\ decls[i].owner = decls[j].owner => RustName(decls, i) # RustName(decls, j)
CallsOk == \A i \in DOMAIN calls : CallOk(decls, calls[i])
StatesOk == \A o \in Classes : objs[o] \in 1..3
Line == [decls |-> decls, names |-> [i \in DOMAIN decls |-> RustName(decls, i)], calls |-> calls]
EmitEach == PrintT("CASE:" \o ToJson(Line))
EmitSim == IF Len(calls) < MaxCalls THEN TRUE ELSE PrintT("CASE:" \o ToJson(Line))

-----------------------------------------------------------------------------
(* Judging a recorded call: what is wrong with it.                            *)
Wrong(ob, d, c, r) ==
    LET e == Expected(ob, d, c) IN
    (IF r.n = e.n /\ r.f = e.f THEN {} ELSE {"wrong-function"})
    \cup (IF r.tags = e.tags THEN {} ELSE {"wrong-argument"})
    \cup (IF r.recv = e.recv /\ (Recv(d) => r.rsame) THEN {} ELSE {"wrong-object"})
    \cup (IF \A i \in DOMAIN r.same : r.same[i] THEN {} ELSE {"copied-argument"})
    \cup (IF r.outs = e.outs THEN {} ELSE {"lost-change"})
    \cup (IF r.ret = e.ret /\ r.rsm THEN {} ELSE {"wrong-result"})
    \cup (IF r.st = e.st THEN {} ELSE {"wrong-state"})
    \cup (IF r.live = 0 THEN {} ELSE {"leak-or-double-free"})
=============================================================================
