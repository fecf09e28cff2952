------------------------------ MODULE Locations ------------------------------
(* Where the macro finds its bindings, and where the builder puts them (P16).   *)
(* The environment has four variables; "" stands for a variable which is unset. *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS ArchiveKinds, \* what a path in the list of archives is
          MaxArchives, FileVals, DirVals, OutVals, Names, GenDirs

VARIABLES env, inv, phase
vars == <<env, inv, phase>>

Lists == UNION {[1 .. n -> ArchiveKinds] : n \in 0 .. MaxArchives}
\* json is [set, list], the others are strings
Envs == [json : [set : {FALSE}, list : {<<>>}] \cup [set : {TRUE}, list : Lists], file : FileVals, rs : DirVals, out : OutVals]
Invs == [name : Names, parse_only : BOOLEAN]
ModName(n) == IF n = "" THEN "ffi" ELSE n
FileName(n) == "autocxx-" \o (IF n = "" THEN "ffi-default" ELSE n) \o "-gen.rs"

Openable(k) == k # "absent"
RECURSIVE First(_, _)
First(l, i) == IF i > Len(l) THEN 0 ELSE IF Openable(l[i]) THEN i ELSE First(l, i + 1)
(* What the macro does: expand to nothing, to the code of the archive at a position, include *)
(* a file, or fail.                                                                           *)
Choice(e, v) ==
    IF v.parse_only THEN [how |-> "nothing", what |-> ""]
    ELSE IF e.json.set THEN
        LET i == First(e.json.list, 1) IN
        IF i = 0 THEN [how |-> "fail", what |-> ""]
        ELSE IF e.json.list[i] = "good" THEN [how |-> "archive", what |-> ToString(i)] ELSE [how |-> "fail", what |-> ""]
    ELSE IF e.file # "" THEN [how |-> "include", what |-> e.file]
    ELSE IF e.rs # "" THEN [how |-> "include", what |-> e.rs \o "/" \o FileName(v.name)]
    ELSE \* the build output directory; rustc reports that it is not set
         [how |-> "include", what |-> "$OUT_DIR/autocxx-build-dir/rs/" \o FileName(v.name)]

(* The builder: the root it writes under, "" if it fails. *)
Root(e, g) == IF g # "" THEN g ELSE IF e.json.set \/ e.file # "" THEN "" ELSE IF e.rs # "" THEN e.rs
              ELSE IF e.out # "" THEN e.out \o "/autocxx-build-dir" ELSE ""
\* which is what it then tells cargo to set AUTOCXX_RS to, "" for nothing
Told(g) == IF g # "" THEN g \o "/rs" ELSE ""
Writes(e, g, names) == {Root(e, g) \o "/rs/" \o FileName(n) : n \in names}
MacroEnv(e, g) == [e EXCEPT !.rs = IF Told(g) # "" THEN Told(g) ELSE @]
Expand(e, w) == IF Len(w) > 8 /\ SubSeq(w, 1, 8) = "$OUT_DIR" THEN e.out \o SubSeq(w, 9, Len(w)) ELSE w
\* With AUTOCXX_RS set while building, the builder writes to its rs directory and the macro reads
\* the directory itself (a known finding).
RsWhileBuilding(e, g) == g = "" /\ e.rs # "" /\ ~e.json.set /\ e.file = ""

Init == env \in Envs /\ inv \in [name : Names, parse_only : BOOLEAN, gen : GenDirs] /\ phase = "built"
Next == phase = "built" /\ phase' = "expanded" /\ env' = MacroEnv(env, inv.gen) /\ UNCHANGED inv
Spec == Init /\ [][Next]_vars

ReadsWhatWasBuilt ==
    (phase = "built" /\ Root(env, inv.gen) # "" /\ ~env.json.set /\ env.file = "" /\ ~inv.parse_only /\ ~RsWhileBuilding(env, inv.gen))
    => LET e == MacroEnv(env, inv.gen) IN Expand(e, Choice(e, inv).what) \in Writes(env, inv.gen, {inv.name})
ArchiveFirst == (phase = "built" /\ env.json.set /\ ~inv.parse_only) => Choice(env, inv).how \in {"archive", "fail"}
Emit == (phase = "built" /\ inv.gen = "") => PrintT("CASE:" \o ToJson([env |-> env, name |-> inv.name, parse_only |-> inv.parse_only]))
=============================================================================
