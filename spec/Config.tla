------------------------------- MODULE Config -------------------------------
(* What a list of include_cpp! directives means (property P14).  The list is    *)
(* read one directive at a time; cfg is the configuration so far.  The meaning  *)
(* is built from sets, so that only which directives are there matters, except  *)
(* for those which set one thing twice (Clash) and for the order of #include.   *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Values,    \* directive values to choose from: a set of [d, args]
          MaxDirs, Probes, ArgKinds, MaxArgs

VARIABLES hist, cfg
vars == <<hist, cfg>>

Range(s) == {s[i] : i \in DOMAIN s}
HasPrefix(s, p) == Len(s) > Len(p) /\ SubSeq(s, 1, Len(p)) = p

(* ---- which argument lists a directive takes ---- *)
Strs == {"generate", "generate_pod", "generate_ns", "pod", "block", "opaque", "block_constructors", "instantiable"}
Flags == {"generate_all", "parse_only", "exclude_impls", "exclude_utilities"}
Directives == Strs \cup Flags \cup {"#include", "name", "rust_type", "extern_rust_type", "concrete", "subclass",
    "extern_cpp_type", "extern_cpp_opaque_type", "extern_rust_function", "safety"}
Accepted(d, ks0) ==
    LET ks == IF d = "safety" THEN ks0 ELSE [i \in DOMAIN ks0 |-> IF ks0[i] = "policy" THEN "id" ELSE ks0[i]] IN
    CASE d \in Strs \cup {"#include"} -> ks = <<"str">>
      [] d \in Flags -> ks = <<>>
      [] d = "name" -> ks = <<"id">>
      [] d \in {"rust_type", "extern_rust_type"} -> ks \in {<<"id">>, <<"path">>}
      [] d \in {"concrete", "subclass"} -> ks = <<"str", "comma", "id">>
      [] d \in {"extern_cpp_type", "extern_cpp_opaque_type"} -> ks \in {<<"str", "comma", "id">>, <<"str", "comma", "path">>}
      [] d = "extern_rust_function" -> ks \in {<<"id", "comma", "sig">>, <<"path", "comma", "sig">>}
      [] d = "safety" -> ks \in {<<>>, <<"unsafe">>, <<"policy">>}
      [] OTHER -> FALSE
KindsOf(x) == [i \in DOMAIN x.args |-> x.args[i].t]

(* ---- what each directive does ---- *)
Empty == [ok |-> TRUE, includes |-> <<>>, allow |-> "none", items |-> {}, nss |-> {}, pods |-> {}, blocks |-> {},
    ctorblocks |-> {}, opaques |-> {}, insts |-> {}, parse_only |-> FALSE, exclude_impls |-> FALSE,
    exclude_utilities |-> FALSE, name |-> "", policy |-> "unsafe", rtypes |-> {}, subs |-> {}, funs |-> {},
    concretes |-> {}, externs |-> {}]
Error == [Empty EXCEPT !.ok = FALSE]

A(x, i) == x.args[i].v
Ask(c, f) == IF c.allow = "all" THEN Error ELSE [f EXCEPT !.allow = "some"]
Apply(c, x) ==
    IF ~c.ok \/ ~Accepted(x.d, KindsOf(x)) THEN Error
    ELSE CASE x.d = "#include" -> [c EXCEPT !.includes = Append(@, A(x, 1))]
      [] x.d = "generate" -> Ask(c, [c EXCEPT !.items = @ \cup {A(x, 1)}])
      [] x.d = "generate_pod" -> Ask(c, [c EXCEPT !.items = @ \cup {A(x, 1)}, !.pods = @ \cup {A(x, 1)}])
      [] x.d = "generate_ns" -> Ask(c, [c EXCEPT !.nss = @ \cup {A(x, 1)}])
      [] x.d = "generate_all" -> IF c.allow = "some" THEN Error ELSE [c EXCEPT !.allow = "all"]
      [] x.d = "pod" -> [c EXCEPT !.pods = @ \cup {A(x, 1)}]
      [] x.d = "block" -> [c EXCEPT !.blocks = @ \cup {A(x, 1)}]
      [] x.d = "opaque" -> [c EXCEPT !.opaques = @ \cup {A(x, 1)}]
      [] x.d = "block_constructors" -> [c EXCEPT !.ctorblocks = @ \cup {A(x, 1)}]
      [] x.d = "instantiable" -> [c EXCEPT !.insts = @ \cup {A(x, 1)}]
      [] x.d = "parse_only" -> [c EXCEPT !.parse_only = TRUE]
      [] x.d = "exclude_impls" -> [c EXCEPT !.exclude_impls = TRUE]
      [] x.d = "exclude_utilities" -> [c EXCEPT !.exclude_utilities = TRUE]
      [] x.d = "name" -> [c EXCEPT !.name = A(x, 1)]
      [] x.d \in {"rust_type", "extern_rust_type"} -> [c EXCEPT !.rtypes = @ \cup {A(x, 1)}]
      [] x.d = "subclass" -> [c EXCEPT !.subs = @ \cup {<<A(x, 1), A(x, 3)>>}]
      [] x.d = "extern_rust_function" -> [c EXCEPT !.funs = @ \cup {<<A(x, 1), A(x, 3)>>}]
      [] x.d = "concrete" -> [c EXCEPT !.concretes = {e \in @ : e[1] # A(x, 1)} \cup {<<A(x, 1), A(x, 3)>>}]
      [] x.d \in {"extern_cpp_type", "extern_cpp_opaque_type"} ->
            [c EXCEPT !.externs = {e \in @ : e[1] # A(x, 1)} \cup {<<A(x, 1), A(x, 3), x.d = "extern_cpp_opaque_type">>}]
      [] x.d = "safety" -> [c EXCEPT !.policy = IF x.args = <<>> THEN "unsafe"
                                ELSE IF A(x, 1) = "unsafe_references_wrapped" THEN "wrapped" ELSE "safe"]
RECURSIVE Fold(_, _)
Fold(c, s) == IF s = <<>> THEN c ELSE Fold(Apply(c, Head(s)), Tail(s))
Meaning(s) == Fold(Empty, s)

(* Two directives which both decide the same thing: here order may matter. *)
Clash(x, y) == /\ x # y
               /\ \/ x.d = y.d /\ x.d \in {"name", "safety", "#include"}
                  \/ x.d = "concrete" /\ y.d = "concrete" /\ A(x, 1) = A(y, 1)
                  \/ /\ {x.d, y.d} \subseteq {"extern_cpp_type", "extern_cpp_opaque_type"}
                     /\ A(x, 1) = A(y, 1)

(* ---- what users of a configuration see of it ---- *)
LastIdent(p) == CASE p = "m::R" -> "R" [] p = "a::b::T" -> "T" [] OTHER -> p
SigName(s) == SubSeq(s, 3, 3)
IsMethod(s) == s = "fng(&self)" \/ s = "fnh(self:&R)"
Bindgen(c) == IF c.allow = "all" THEN {"*"}
    ELSE c.items \cup {n \o "::.*" : n \in c.nss} \cup c.pods \cup (IF c.exclude_utilities THEN {} ELSE {"(utilities)"})
         \cup UNION {{s[1], s[2], s[2] \o "Cpp"} : s \in c.subs}
Allowed(c, n) ==
    \/ c.allow = "all"
    \/ n \in c.items
    \/ \E ns \in c.nss : HasPrefix(n, ns \o "::")
    \/ \E s \in c.subs : n \in {s[1], s[2], s[2] \o "Holder", s[2] \o "Cpp"}
    \/ \E f \in c.funs : SigName(f[2]) = n
    \/ \E t \in c.rtypes : LastIdent(t) = n
    \/ \E e \in c.concretes : e[2] = n
Summary(c) == [
    includes |-> c.includes, policy |-> c.policy, parse_only |-> c.parse_only, exclude_impls |-> c.exclude_impls,
    exclude_utilities |-> c.exclude_utilities, bindgen |-> Bindgen(c),
    must |-> (IF c.allow = "some" THEN c.items ELSE {}) \cup c.pods, pods |-> c.pods,
    allowed |-> {n \in Probes : Allowed(c, n)}, blocked |-> c.blocks \cap Probes, blocklist |-> c.blocks,
    ctorblocked |-> c.ctorblocks \cap Probes, opaque |-> c.opaques, inst |-> c.insts,
    name |-> IF c.name = "" THEN "ffi" ELSE c.name,
    file |-> "autocxx-" \o (IF c.name = "" THEN "ffi-default" ELSE c.name) \o "-gen.rs",
    rust_types |-> c.rtypes, subclasses |-> {s[2] \o "<" \o s[1] : s \in c.subs}, superclasses |-> {s[1] : s \in c.subs},
    funs |-> {f[1] \o "|" \o f[2] \o "|" \o (IF IsMethod(f[2]) THEN "method" ELSE "free") : f \in c.funs},
    concretes |-> {e[1] \o "=" \o e[2] : e \in c.concretes},
    externs |-> {e[1] \o "=" \o e[2] \o (IF e[3] THEN " opaque" ELSE "") : e \in c.externs}]

(* ---- lists of directives ---- *)
Init == hist = <<>> /\ cfg = Empty
Read(x) == hist' = Append(hist, x) /\ cfg' = Apply(cfg, x)
Next == Len(hist) < MaxDirs /\ \E x \in Values : Read(x)
Spec == Init /\ [][Next]_vars
SimNext == Len(hist) < MaxDirs /\ Read(RandomElement(Values))
SimSpec == Init /\ [][SimNext]_vars

(* Order does not matter: exchanging neighbours which do not clash changes nothing. *)
Swapped(s, i) == [s EXCEPT ![i] = s[i + 1], ![i + 1] = s[i]]
OrderFree == \A i \in 1 .. Len(hist) - 1 : ~Clash(hist[i], hist[i + 1]) => Meaning(Swapped(hist, i)) = cfg
(* Asking for everything and for something is an error, whichever came first. *)
NotBoth == LET asks == {i \in DOMAIN hist : hist[i].d \in {"generate", "generate_pod", "generate_ns"}}
           IN  (asks # {} /\ \E i \in DOMAIN hist : hist[i].d = "generate_all") => ~cfg.ok
OkIff == cfg.ok <=> ((\A i \in DOMAIN hist : Accepted(hist[i].d, KindsOf(hist[i])))
                     /\ ~(\E i, j \in DOMAIN hist : hist[i].d = "generate_all" /\ hist[j].d \in {"generate", "generate_pod", "generate_ns"}))
MeaningIs == cfg = Meaning(hist)
Emit == Len(hist) > 0 => PrintT("CASE:" \o ToJson(hist))
EmitFull == Len(hist) = MaxDirs => PrintT("CASE:" \o ToJson(hist))

(* ---- argument lists of every kind, for one directive at a time ---- *)
Tok(k) == [t |-> k, v |-> CASE k = "str" -> "A" [] k = "id" -> "X" [] k = "path" -> "m::R" [] k = "sig" -> "fnf()"
                            [] k = "unsafe" -> "unsafe" [] k = "policy" -> "unsafe_ffi" [] k = "num" -> "7" [] OTHER -> ","]
\* (a policy is an identifier like any other)
ArgsOf(d, ks) == [d |-> d, args |-> [i \in DOMAIN ks |-> Tok(ks[i])]]
ArgInit == cfg = Empty /\ hist \in {<<ArgsOf(d, <<>>)>> : d \in Directives}
ArgNext == /\ Len(hist[1].args) < MaxArgs
           /\ \E k \in ArgKinds : hist' = <<[hist[1] EXCEPT !.args = Append(@, Tok(k))]>>
           /\ UNCHANGED cfg
ArgSpec == ArgInit /\ [][ArgNext]_vars
=============================================================================
