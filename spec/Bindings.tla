------------------------------- MODULE Bindings -------------------------------
(* What ends up in the bindings.  A header grows item by item (types, aliases, *)
(* functions, methods), a configuration asks for items and blocks types; the   *)
(* specification says which items must, may and must not be bound.  Properties *)
(* P05 (closed and compiling), P06 (allowlist and blocklist), P19 (incomplete  *)
(* types).                                                                     *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS MaxTypes, MaxFuns,
          TypeKinds,     \* of "struct","late","enum","fwd","bad","alias","holds","derives"
          Spaces,        \* namespaces: 0 is the root, 3 lies inside 1
          Modes,         \* ways a function mentions a type
          RetModes,
          MaxUses,
          Owners,        \* subset of {"free","method"}
          Fates,         \* of "ok","variadic","private","deleted","rvret","ptrptr"
          Exotics,       \* unusual declarations, written "f:name" or, for members, "m:name"
          MemberExotics, \* those which are members
          Requests,      \* "all" and/or "some"
          MaxReq, MaxBlock

VARIABLES types, funs, req, block, phase
vars == <<types, funs, req, block, phase>>

Inside(n, m) == n = m \/ (n = 3 /\ m = 1)

-----------------------------------------------------------------------------
(* How far a type can be used: "full" in every position, "ref" behind           *)
(* references and pointers only, "none" not at all, "maybe" if at all then      *)
(* behind references and pointers only (an alias of something unusable may be   *)
(* kept as an opaque type), "any" left open.                                    *)
\* A class is usable whatever its members and bases are: it is held by reference.
Defined == {"struct", "late", "enum", "holds", "derives"}
RECURSIVE State(_, _, _)
State(ts, bl, t) ==
    IF t = 0 THEN "full"
    ELSE IF t \in bl THEN "none"
    ELSE CASE ts[t].k \in Defined -> "full"
           [] ts[t].k = "fwd" -> "ref"
           [] ts[t].k = "bad" -> "none"
           [] ts[t].k = "alias" -> LET s == State(ts, bl, ts[t].to)
                                   IN  IF s = "none" THEN "maybe" ELSE s

NeedsFull == {"val", "uptr", "sptr", "vec", "rval", "ruptr"}
RefModes  == {"cref", "mref", "cptr", "mptr", "rref", "rptr"}

UseVerdict(ts, bl, u) ==
    IF u.m = "void" THEN "must"
    ELSE LET s == State(ts, bl, u.t)
         IN  CASE s = "full" -> "must"
               [] s = "none" -> "never"
               [] s = "ref"  -> IF u.m \in NeedsFull THEN "never" ELSE "must"
               [] s = "maybe" -> IF u.m \in NeedsFull THEN "never" ELSE "may"

Worst(S) == IF "never" \in S THEN "never" ELSE IF "may" \in S THEN "may" ELSE "must"

\* r is the request: [all |-> BOOLEAN, types |-> set, funs |-> set, spaces |-> set, missing |-> BOOLEAN]
ReqType(ts, r, t) == r.all \/ t \in r.types \/ \E n \in r.spaces : Inside(ts[t].ns, n)
ReqFun(ts, fs, r, f) == IF fs[f].owner # 0 THEN ReqType(ts, r, fs[f].owner)
                        ELSE r.all \/ f \in r.funs \/ \E n \in r.spaces : Inside(fs[f].ns, n)

\* Could the function be bound, were it asked for?
Representable(ts, bl, fs, f) ==
    LET x == fs[f]
        us == {UseVerdict(ts, bl, x.uses[i]) : i \in DOMAIN x.uses} \cup {UseVerdict(ts, bl, x.ret)}
    IN  IF x.fate \in Exotics THEN "may"
        ELSE IF x.fate # "ok" THEN "never"
        ELSE IF x.owner # 0 /\ State(ts, bl, x.owner) # "full" THEN "never"
        ELSE Worst(us)

FunVerdict(ts, bl, fs, r, f) == IF ~ReqFun(ts, fs, r, f) THEN "never" ELSE Representable(ts, bl, fs, f)

\* The types a function mentions, and those an alias leads to.
RECURSIVE Reach(_, _)
Reach(ts, t) == IF t = 0 THEN {} ELSE {t} \cup Reach(ts, ts[t].to)
Mentions(ts, x) == UNION {Reach(ts, x.uses[i].t) : i \in DOMAIN x.uses}
                   \cup (IF x.ret.m = "void" THEN {} ELSE Reach(ts, x.ret.t)) \cup (IF x.owner # 0 THEN {x.owner} ELSE {})
\* The target of a chain of aliases, which really has to be there.
RECURSIVE Target(_, _)
Target(ts, t) == IF t = 0 \/ ts[t].k # "alias" THEN t ELSE Target(ts, ts[t].to)
Targets(ts, x) == ({Target(ts, x.uses[i].t) : i \in DOMAIN x.uses} \cup (IF x.ret.m = "void" THEN {} ELSE {Target(ts, x.ret.t)})) \ {0}

TypeVerdict(ts, bl, fs, r, t) ==
    LET s == State(ts, bl, t)
        musts == {f \in DOMAIN fs : FunVerdict(ts, bl, fs, r, f) = "must"}
        mays  == {f \in DOMAIN fs : FunVerdict(ts, bl, fs, r, f) # "never"}
        asked == ReqType(ts, r, t)
    IN  IF s = "none" THEN "never"
        ELSE IF \/ asked /\ s = "full"
                \/ \E f \in musts : t \in Targets(ts, fs[f])
                \/ \E u \in DOMAIN ts : s = "full" /\ ts[u].k = "alias" /\ ReqType(ts, r, u) /\ u \notin bl /\ Target(ts, u) = t
                                        /\ State(ts, bl, u) = "full"
             THEN "must"
        ELSE IF \/ asked
                \/ \E f \in mays : t \in Mentions(ts, fs[f])
                \/ \E u \in DOMAIN ts : ReqType(ts, r, u) /\ t \in Reach(ts, u)
             THEN "may" ELSE "never"

\* Asking by name for something which does not exist, or which is blocked, is an error.
MustFail(ts, bl, r) == r.missing \/ r.types \cap bl # {}
MayFail(ts, bl, r) == \E t \in r.types : ts[t].k = "bad"

-----------------------------------------------------------------------------
(* What the real tool did.                                                    *)
\* o: [ok, named, boundT: set, boundF: set, compiles]
Reasons(ts, bl, fs, r, o) ==
    IF ~o.ok
    THEN (IF MustFail(ts, bl, r) \/ MayFail(ts, bl, r) THEN (IF o.named THEN {} ELSE {<<"error-does-not-name-it", 0>>})
          ELSE {<<"generation-failed", 0>>})
    ELSE (IF MustFail(ts, bl, r) THEN {<<"missing-not-reported", 0>>} ELSE {})
         \cup (IF o.compiles THEN {} ELSE {<<"does-not-compile", 0>>})
         \cup {<<"function-missing", f>> : f \in {g \in DOMAIN fs : FunVerdict(ts, bl, fs, r, g) = "must" /\ g \notin o.boundF}}
         \cup {<<"function-bound", f>> : f \in {g \in DOMAIN fs : FunVerdict(ts, bl, fs, r, g) = "never" /\ g \in o.boundF}}
         \cup {<<"type-missing", t>> : t \in {u \in DOMAIN ts : TypeVerdict(ts, bl, fs, r, u) = "must" /\ u \notin o.boundT}}
         \cup {<<"type-bound", t>> : t \in {u \in DOMAIN ts : TypeVerdict(ts, bl, fs, r, u) = "never" /\ u \in o.boundT}}
         \* a type which is incomplete, or not really there, offers no construction
         \cup {<<"incomplete-constructed", t>> : t \in {u \in o.made : State(ts, bl, u) # "full"}}

-----------------------------------------------------------------------------
NoReq == [all |-> FALSE, types |-> {}, funs |-> {}, spaces |-> {}, missing |-> FALSE]
Init == types = <<>> /\ funs = <<>> /\ req = NoReq /\ block = {} /\ phase = "types"

Pointing == {"alias", "holds", "derives"}
\* (a member or base has to be defined by then)
CanHold(ts) == {j \in DOMAIN ts : ts[j].k \in {"struct", "bad", "holds", "derives"}}
TypesAt(n) == {[k |-> k, ns |-> s, to |-> 0] : k \in TypeKinds \ Pointing, s \in Spaces}
              \cup {[k |-> k, ns |-> s, to |-> j] : k \in TypeKinds \cap {"holds", "derives"}, s \in Spaces, j \in CanHold(types)}
              \cup (IF "alias" \in TypeKinds THEN {[k |-> "alias", ns |-> s, to |-> j] : s \in Spaces, j \in 1..n} ELSE {})
\* (an alias of an enumeration or an abstract type is like any other; a forward declaration cannot own methods)
OwnersAt == (IF "free" \in Owners THEN {0} ELSE {}) \cup
            (IF "method" \in Owners THEN {t \in DOMAIN types : types[t].k \in {"struct", "late", "bad", "holds", "derives"}} ELSE {})
Uses == {[t |-> t, m |-> m] : t \in DOMAIN types, m \in Modes}
Rets == {[t |-> 0, m |-> "void"]} \cup {[t |-> t, m |-> m] : t \in DOMAIN types, m \in RetModes}
UseSeqs == UNION {[1..k -> Uses] : k \in 0..MaxUses}
\* A constraint of C++: a method cannot take or return its own class by value before it is complete (it can: bodies are not given)
AddType == /\ phase = "types" /\ Len(types) < MaxTypes
           /\ \E t \in TypesAt(Len(types)) : types' = Append(types, t)
           /\ UNCHANGED <<funs, req, block, phase>>
DoneTypes == phase = "types" /\ types # <<>> /\ phase' = "funs" /\ UNCHANGED <<types, funs, req, block>>
FunsHere == {[owner |-> o, ns |-> s, uses |-> us, ret |-> r, fate |-> x] : o \in OwnersAt, s \in Spaces, us \in UseSeqs, r \in Rets, x \in Fates}
\* a method lives where its class does; fates are told apart on plain signatures
FunOk(x) == /\ x.owner # 0 => x.ns = types[x.owner].ns
            /\ x.fate \in {"private", "deleted"} => x.owner # 0
AddFun == /\ phase = "funs" /\ Len(funs) < MaxFuns
          /\ \E x \in FunsHere : FunOk(x) /\ funs' = Append(funs, x)
          /\ UNCHANGED <<types, req, block, phase>>
Ask == /\ phase = "funs" /\ (funs # <<>> \/ MaxFuns = 0)
       /\ phase' = "done"
       /\ \E b \in {x \in SUBSET DOMAIN types : Cardinality(x) <= MaxBlock} :
            /\ block' = b
            /\ \/ "all" \in Requests /\ req' = [NoReq EXCEPT !.all = TRUE]
               \/ /\ "some" \in Requests
                  /\ \E ts \in SUBSET DOMAIN types, fs \in SUBSET {f \in DOMAIN funs : funs[f].owner = 0}, ns \in SUBSET (Spaces \ {0}), mi \in BOOLEAN :
                       /\ Cardinality(ts) + Cardinality(fs) + Cardinality(ns) + (IF mi THEN 1 ELSE 0) \in 1..MaxReq
                       /\ req' = [all |-> FALSE, types |-> ts, funs |-> fs, spaces |-> ns, missing |-> mi]
       /\ UNCHANGED <<types, funs>>
Next == AddType \/ DoneTypes \/ AddFun \/ Ask
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* Unusual declarations beside ordinary ones.  Nothing is said about whether    *)
(* they are bound; the ordinary ones must be bound regardless.                 *)
Member(e) == e \in MemberExotics
Plain(f, o) == [owner |-> o, ns |-> 0, uses |-> <<[t |-> 1, m |-> "cref"]>>, ret |-> [t |-> 1, m |-> "rptr"], fate |-> f]
ExoAdd == /\ phase = "types" /\ Len(funs) < MaxFuns + 2
          /\ types' = << [k |-> "struct", ns |-> 0, to |-> 0], [k |-> "struct", ns |-> 0, to |-> 0] >>
          /\ IF funs = <<>> THEN funs' = << Plain("ok", 0), Plain("ok", 2) >>
             ELSE \E e \in Exotics :
                    /\ \A i \in DOMAIN funs : funs[i].fate # e
                    /\ funs' = Append(funs, Plain(e, IF Member(e) THEN 2 ELSE 0))
          /\ UNCHANGED <<req, block, phase>>
ExoDone == /\ phase = "types" /\ Len(funs) = MaxFuns + 2 /\ phase' = "done" /\ req' = [NoReq EXCEPT !.all = TRUE]
           /\ UNCHANGED <<types, funs, block>>
ExoSpec == Init /\ [][ExoAdd \/ ExoDone]_vars

-----------------------------------------------------------------------------
(* Random larger headers.                                                     *)
RUse(ms) == [t |-> RandomElement(DOMAIN types), m |-> RandomElement(ms)]
SimType == /\ phase = "types" /\ Len(types) < MaxTypes
           /\ \E k \in {RandomElement(IF types = <<>> THEN TypeKinds \ Pointing ELSE IF CanHold(types) = {} THEN TypeKinds \ {"holds", "derives"} ELSE TypeKinds)},
                 s \in {RandomElement(Spaces)} :
              \E to \in {IF k = "alias" THEN RandomElement(DOMAIN types) ELSE IF k \in Pointing THEN RandomElement(CanHold(types)) ELSE 0} :
                types' = Append(types, [k |-> k, ns |-> s, to |-> to])
           /\ UNCHANGED <<funs, req, block, phase>>
SimDone == phase = "types" /\ Len(types) = MaxTypes /\ phase' = "funs" /\ UNCHANGED <<types, funs, req, block>>
SimFun == /\ phase = "funs" /\ Len(funs) < MaxFuns
          /\ \E o \in {IF OwnersAt = {} THEN 0 ELSE RandomElement(OwnersAt)}, s \in {RandomElement(Spaces)}, n \in {RandomElement(0..MaxUses)},
                us \in {TLCEval([i \in 1..MaxUses |-> RUse(Modes)])},
                r \in {IF RandomElement(1..2) = 1 THEN [t |-> 0, m |-> "void"] ELSE TLCEval(RUse(RetModes))},
                fate \in {IF RandomElement(1..5) = 1 THEN RandomElement(Fates) ELSE "ok"} :
             LET x == [owner |-> o, ns |-> IF o # 0 THEN types[o].ns ELSE s, uses |-> SubSeq(us, 1, n), ret |-> r,
                       fate |-> IF \/ o = 0 /\ (fate \in {"private", "deleted"} \/ Member(fate))
                                   \/ o # 0 /\ fate \in Exotics \ MemberExotics
                                   \* an unusual member declares fixed names: once is enough
                                   \/ fate \in Exotics /\ \E i \in DOMAIN funs : funs[i].fate = fate
                                THEN "ok" ELSE fate]
             IN  funs' = Append(funs, x)
          /\ UNCHANGED <<types, req, block, phase>>
RSub(S, n) == LET k == RandomElement(0..n) IN {x \in S : RandomElement(1..(Cardinality(S) + 1)) <= k}
SimAsk == /\ phase = "funs" /\ Len(funs) = MaxFuns /\ phase' = "done"
          /\ \E b \in {TLCEval(RSub(DOMAIN types, MaxBlock))}, w \in {RandomElement(Requests)} :
               /\ block' = b
               /\ IF w = "all" THEN req' = [NoReq EXCEPT !.all = TRUE]
                  ELSE \E ts \in {TLCEval(RSub(DOMAIN types, MaxReq))}, fs \in {TLCEval(RSub({f \in DOMAIN funs : funs[f].owner = 0}, MaxReq))},
                          ns \in {TLCEval(RSub(Spaces \ {0}, 1))}, mi \in {RandomElement(1..12) = 1} :
                         /\ ts \cup fs \cup ns # {} \/ mi
                         \* asking by name for a blocked or unusable type is tried in the small models
                         /\ req' = [all |-> FALSE, types |-> IF RandomElement(1..8) = 1 THEN ts ELSE {t \in ts : State(types, b, t) \notin {"none", "maybe"}},
                                    funs |-> fs, spaces |-> ns, missing |-> mi]
          /\ UNCHANGED <<types, funs>>
SimSpec == Init /\ [][SimType \/ SimDone \/ SimFun \/ SimAsk]_vars

-----------------------------------------------------------------------------
(* Properties of the model.                                                   *)
\* Closure: whatever a function which must be bound mentions is not left out.
Closed == phase = "done" => \A f \in DOMAIN funs : FunVerdict(types, block, funs, req, f) = "must" =>
             \A t \in Targets(types, funs[f]) : TypeVerdict(types, block, funs, req, t) = "must"
\* Nothing bound mentions a blocked type.
RECURSIVE Names(_)
Names(t) == IF t = 0 THEN {} ELSE {t} \cup (IF types[t].k = "alias" THEN Names(types[t].to) ELSE {})
BlockedGone == phase = "done" => \A f \in DOMAIN funs : FunVerdict(types, block, funs, req, f) = "must" =>
                 (UNION {Names(funs[f].uses[i].t) : i \in DOMAIN funs[f].uses} \cup Names(funs[f].ret.t) \cup {funs[f].owner}) \cap block = {}
\* Asking for more never unbinds anything.
Monotone == (phase = "done" /\ ~req.all) => \A f \in DOMAIN funs :
    FunVerdict(types, block, funs, req, f) = "must" => FunVerdict(types, block, funs, [req EXCEPT !.all = TRUE], f) = "must"
\* Only behind references.
IncompleteByRef == phase = "done" => \A f \in DOMAIN funs : FunVerdict(types, block, funs, req, f) # "never" /\ funs[f].fate = "ok" =>
    \A i \in DOMAIN funs[f].uses : State(types, block, funs[f].uses[i].t) = "ref" => funs[f].uses[i].m \in RefModes
Emit == phase # "done" \/ PrintT("CASE:" \o ToJson([types |-> types, funs |-> funs, req |-> req, block |-> block]))
=============================================================================
