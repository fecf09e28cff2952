--------------------------------- MODULE Gen ---------------------------------
(* The command-line generator (property P17): what each run over one output     *)
(* directory writes, for every set of input files and options.                  *)
(* An input file is a sequence of sections:                                     *)
(*   bare    include_cpp! which needs no C++ of autocxx's own                   *)
(*   wrap    include_cpp! whose function needs a C++ wrapper                    *)
(*   sub     include_cpp! with a subclass, which needs C++ source of its own    *)
(*   bridge  a cxx::bridge                                                      *)
(* each about one header, inside a module or not, under a module name.          *)
EXTENDS Naturals, Sequences, FiniteSets, SequencesExt, TLC, Json

CONSTANTS Kinds, Names, Headers, MaxFiles, MaxSections, MaxRuns, OptionSets, MaxExact

VARIABLES fs,     \* what is known of the output directory: name -> content, for names in DOMAIN fs
          vers,   \* version of each header
          runs,   \* the runs so far, each [files, opts, vers]
          last    \* what the last run did
vars == <<fs, vers, runs, last>>

SectionSet == [kind : Kinds \ {"bridge"}, name : Names, hdr : Headers, nested : BOOLEAN]
              \cup (IF "bridge" \in Kinds THEN [kind : {"bridge"}, name : {""}, hdr : Headers, nested : BOOLEAN] ELSE {})
ModName(n) == IF n = "" THEN "ffi" ELSE n
IsAuto(s) == s.kind # "bridge"
Extra(s) == s.kind \in {"wrap", "sub"}
Flat(files) == FlattenSeq(files)

(* ---- names given to headers ---- *)
\* Position of section i among the sections satisfying P, from 0
Before(S, i, P(_)) == Cardinality({j \in 1 .. i - 1 : P(S[j])})
Count(S, P(_)) == Cardinality({j \in DOMAIN S : P(S[j])})
\* include_cpp!s are given their headers' names first, then bridges
CxxNo(S, i) == IF IsAuto(S[i]) THEN Before(S, i, IsAuto) ELSE Count(S, IsAuto) + Before(S, i, LAMBDA s : ~IsAuto(s))
Exact(o) == o.exact > 0
N(o) == o.exact - 1   \* exact = 0: not given; otherwise one more than the number given
CxxHeaderNo(o, k) == IF Exact(o) THEN "gen" \o ToString(k) \o ".h" ELSE IF k = 0 THEN "cxxgen.h" ELSE "cxxgen" \o ToString(k) \o ".h"
CxxHeader(o, S, i) == CxxHeaderNo(o, CxxNo(S, i))
AutoHeaderNo(k) == "autocxxgen" \o ToString(k) \o ".h"
AutoHeader(o, S, i) == IF Exact(o) THEN AutoHeaderNo(Before(S, i, Extra)) ELSE "autocxxgen_" \o ModName(S[i].name) \o ".h"
CcName(o, k) == "gen" \o ToString(k) \o "." \o o.ext
RsName(o, S, i) == IF o.fix THEN "gen" \o ToString(Before(S, i, IsAuto)) \o ".include.rs"
                   ELSE "autocxx-" \o (IF S[i].name = "" THEN "ffi-default" ELSE S[i].name) \o "-gen.rs"

(* ---- contents ---- *)
Blank == [role |-> "blank", secs |-> <<>>, incs |-> {}]
Hdr(s) == "h" \o ToString(s.hdr) \o ".h"
Sec(s, v) == [kind |-> s.kind, name |-> s.name, hdr |-> s.hdr, ver |-> v[s.hdr]]
Content(role, s, v, incs) == [role |-> role, secs |-> <<Sec(s, v)>>, incs |-> incs]
AutoInc(o, S, i) == IF Extra(S[i]) THEN {AutoHeader(o, S, i)} ELSE {}
PairFiles(o, S, i, v) ==
    LET k == Before(S, i, LAMBDA s : TRUE) + Before(S, i, Extra)  \* C++ sources before these
        s == S[i]
        cxx == <<[name |-> CcName(o, k), c |-> Content("cc", s, v, {Hdr(s)} \cup AutoInc(o, S, i))],
                 [name |-> CxxHeader(o, S, i), c |-> Content("h", s, v, IF IsAuto(s) THEN {Hdr(s)} \cup AutoInc(o, S, i) ELSE {Hdr(s)})]>>
        own == IF ~Extra(s) THEN <<>>
               ELSE <<[name |-> CcName(o, k + 1), c |-> IF s.kind = "sub" THEN Content("autocc", s, v, {AutoHeader(o, S, i), o.prefix \o CxxHeader(o, S, i)})
                                                        ELSE [role |-> "empty", secs |-> <<>>, incs |-> {}]],
                      [name |-> AutoHeader(o, S, i), c |-> Content("autoh", s, v, {Hdr(s)})]>>
    IN cxx \o own
Upto(from, n, name(_)) == [k \in 1 .. (IF n > from THEN n - from ELSE 0) |-> [name |-> name(from + k - 1), c |-> Blank]]
CcCount(S) == Len(S) + Count(S, Extra)
CppFiles(o, S, v) ==
    FlattenSeq([i \in 1 .. Len(S) |-> PairFiles(o, S, i, v)])
    \o (IF Exact(o) THEN Upto(CcCount(S), N(o), LAMBDA k : CcName(o, k)) \o Upto(Len(S), N(o), LAMBDA k : CxxHeaderNo(o, k))
                         \o Upto(Count(S, Extra), N(o), LAMBDA k : AutoHeaderNo(k)) ELSE <<>>)
RsFiles(o, S, v) ==
    LET A == SelectSeq([i \in 1 .. Len(S) |-> i], LAMBDA i : IsAuto(S[i])) IN
    [k \in 1 .. Len(A) |-> [name |-> RsName(o, S, A[k]), c |-> Content("rs", S[A[k]], v, {Hdr(S[A[k]])} \cup AutoInc(o, S, A[k]))]]
    \o (IF Exact(o) THEN Upto(Count(S, IsAuto), N(o), LAMBDA k : "gen" \o ToString(k) \o ".include.rs") ELSE <<>>)
JsonFile(o, S, v) ==
    LET A == SelectSeq([i \in 1 .. Len(S) |-> i], LAMBDA i : IsAuto(S[i])) IN
    <<[name |-> "gen.rs.json", c |-> [role |-> "json", secs |-> [k \in 1 .. Len(A) |-> Sec(S[A[k]], v)],
        \* of sections which read the same, the archive keeps the last
        incs |-> UNION {{Hdr(S[A[k]])} \cup AutoInc(o, S, A[k]) : k \in {k \in 1 .. Len(A) : \A j \in k + 1 .. Len(A) : Sec(S[A[j]], v) # Sec(S[A[k]], v)}}]]>>
Outputs(o, S, v) ==
    (IF o.cpp THEN CppFiles(o, S, v) ELSE <<>>)
    \o (IF o.cxxh THEN <<[name |-> "cxx.h", c |-> [role |-> "cxx.h", secs |-> <<>>, incs |-> {}]]>> ELSE <<>>)
    \o (IF o.rs THEN RsFiles(o, S, v) ELSE <<>>)
    \o (IF o.archive THEN JsonFile(o, S, v) ELSE <<>>)

(* ---- which runs must fail ---- *)
DuplicateModule(files) == \E f \in DOMAIN files : \E i, j \in DOMAIN files[f] :
    i < j /\ IsAuto(files[f][i]) /\ IsAuto(files[f][j]) /\ ModName(files[f][i].name) = ModName(files[f][j].name)
TooMany(o, S) == Exact(o) /\ \/ o.cpp /\ (CcCount(S) > N(o) \/ Len(S) > N(o) \/ Count(S, Extra) > N(o))
                             \/ o.rs /\ Count(S, IsAuto) > N(o)
Unnamed(o) == Exact(o) /\ o.rs /\ ~o.fix
Conflict(out) == \E i, j \in DOMAIN out : i < j /\ out[i].name = out[j].name /\ out[i].c # out[j].c
NoMode(o) == ~o.cpp /\ ~o.rs /\ ~o.archive
FixAlone(o) == o.fix /\ ~o.rs
Fails(files, o, v) == LET S == Flat(files) IN
    DuplicateModule(files) \/ TooMany(o, S) \/ Unnamed(o) \/ NoMode(o) \/ FixAlone(o) \/ Conflict(Outputs(o, S, v))

(* ---- a run ---- *)
NamesOf(out) == {out[i].name : i \in DOMAIN out}
ContentOf(out, n) == (CHOOSE i \in DOMAIN out : out[i].name = n) 
Written(out) == [n \in NamesOf(out) |-> out[ContentOf(out, n)].c]
Deps(files) == LET S == Flat(files) IN UNION {{Hdr(S[i]), "d" \o ToString(S[i].hdr) \o ".h"} : i \in {i \in DOMAIN S : IsAuto(S[i])}}
Outcome(files, o, v, f) ==
    IF Fails(files, o, v) THEN [ok |-> FALSE, files |-> <<>>, same |-> {}, deps |-> {}]
    ELSE LET w == Written(Outputs(o, Flat(files), v)) IN
         [ok |-> TRUE, files |-> w, same |-> {n \in DOMAIN w \cap DOMAIN f : f[n] = w[n]}, deps |-> Deps(files)]
\* A failed run leaves the directory in an unknown state.
After(f, r) == IF r.ok THEN r.files @@ f ELSE <<>>

Init == fs = <<>> /\ vers = [h \in Headers |-> 1] /\ runs = <<>> /\ last = [ok |-> TRUE, files |-> <<>>, same |-> {}, deps |-> {}]
Run(files, o, v) ==
    LET r == Outcome(files, o, v, fs) IN
    /\ vers' = v /\ last' = r /\ fs' = After(fs, r)
    /\ runs' = Append(runs, [files |-> files, opts |-> o, vers |-> v])
Files == UNION {[1 .. n -> UNION {[1 .. m -> SectionSet] : m \in 0 .. MaxSections}] : n \in 1 .. MaxFiles}
Next == Len(runs) < MaxRuns /\ \E files \in Files, o \in OptionSets : Run(files, o, vers)
Spec == Init /\ [][Next]_vars

(* ---- long histories: mostly small changes from one run to the next ---- *)
\* (n, the number of runs so far, keeps TLC from taking these for constants)
B(p) == RandomElement(1 .. 100) <= p
RandomSection(n) == RandomElement(SectionSet)
RandomFile(n) == TLCEval([i \in 1 .. RandomElement(0 .. MaxSections) |-> RandomSection(n)])
RandomFiles(n) == TLCEval([i \in 1 .. RandomElement(1 .. MaxFiles) |-> RandomFile(n)])
RandomOpts(n) == TLCEval(LET cpp == B(80) rs == B(70) IN
    [cpp |-> cpp, rs |-> rs, archive |-> IF ~cpp /\ ~rs THEN B(90) ELSE B(30), fix |-> IF rs THEN B(50) ELSE B(3), cxxh |-> B(20),
     exact |-> IF B(45) THEN 0 ELSE RandomElement(1 .. MaxExact + 1), ext |-> IF B(70) THEN "cc" ELSE "cpp",
     prefix |-> IF B(70) THEN "" ELSE "pre/", relative |-> RandomElement({"none", "all", "out", "dep", "up"}),
     dir |-> IF B(70) THEN "" ELSE RandomElement({" x", "#", "$y"})])
Mutated(files, n) == TLCEval(
    LET f == RandomElement(DOMAIN files) IN
    CASE files[f] = <<>> \/ B(30) -> [files EXCEPT ![f] = IF Len(@) < MaxSections THEN Append(@, RandomSection(n)) ELSE <<RandomSection(n)>>]
      [] B(20) -> [files EXCEPT ![f] = Tail(@)]
      [] B(20) -> [files EXCEPT ![f] = Reverse(@)]
      [] B(20) /\ Len(files) < MaxFiles -> Append(files, files[f])
      [] B(20) /\ Len(files) > 1 -> Tail(files)
      [] OTHER -> [files EXCEPT ![f][RandomElement(DOMAIN files[f])] = RandomSection(n)])
SimStep(old, n) ==
    LET files == TLCEval(IF n = 0 THEN RandomFiles(n) ELSE IF B(25) THEN old.files ELSE IF B(80) THEN Mutated(old.files, n) ELSE RandomFiles(n))
        o == TLCEval(IF n = 0 \/ B(20) THEN RandomOpts(n) ELSE old.opts)
        v == TLCEval(IF B(20) THEN [vers EXCEPT ![RandomElement(Headers)] = 3 - @] ELSE vers)
    IN Run(files, o, v)
SimNext == Len(runs) < MaxRuns /\ SimStep(IF runs = <<>> THEN <<>> ELSE Last(runs), Len(runs))
SimSpec == Init /\ [][SimNext]_vars

(* ---- what the promises amount to ---- *)
R == Last(runs)
HasSuffix(s, x) == Len(s) >= Len(x) /\ SubSeq(s, Len(s) - Len(x) + 1, Len(s)) = x
HasPrefix(s, x) == Len(s) >= Len(x) /\ SubSeq(s, 1, Len(x)) = x
ExactCounts == (runs # <<>> /\ last.ok /\ Exact(R.opts)) =>
    LET D == DOMAIN last.files IN
    /\ R.opts.cpp => /\ {n \in D : HasSuffix(n, "." \o R.opts.ext)} = {CcName(R.opts, k) : k \in 0 .. N(R.opts) - 1}
                     /\ {n \in D : HasSuffix(n, ".h") /\ HasPrefix(n, "gen")} = {"gen" \o ToString(k) \o ".h" : k \in 0 .. N(R.opts) - 1}
                     /\ {n \in D : HasPrefix(n, "autocxxgen")} = {AutoHeaderNo(k) : k \in 0 .. N(R.opts) - 1}
    /\ R.opts.rs => {n \in D : HasSuffix(n, ".rs")} = {"gen" \o ToString(k) \o ".include.rs" : k \in 0 .. N(R.opts) - 1}
\* Every generated header which a generated file includes was generated for the same section, or one
\* which could not have been told from it.
Wired == (runs # <<>> /\ last.ok /\ R.opts.cpp) => \A n \in DOMAIN last.files : LET c == last.files[n] IN
    \A x \in c.incs : HasPrefix(x, "autocxxgen") \/ HasPrefix(x, "cxxgen") \/ HasPrefix(x, "gen") =>
        x \in DOMAIN last.files /\ (Len(c.secs) = 1 => last.files[x].secs = c.secs)
\* Nothing is rewritten by a second run on the same input.
Idempotent == (Len(runs) > 1 /\ last.ok /\ R = runs[Len(runs) - 1]) => last.same = DOMAIN last.files
\* What a run promises depends on its input alone.
Promise == (runs # <<>> /\ last.ok) => last.files = Outcome(R.files, R.opts, R.vers, <<>>).files
Emit == runs # <<>> => PrintT("CASE:" \o ToJson(runs))
EmitFull == Len(runs) = MaxRuns => PrintT("CASE:" \o ToJson(runs))
=============================================================================
