--------------------------- MODULE LocationsTrace ---------------------------
(* Records of what the real macro and builder did in an environment.           *)
EXTENDS Locations, IOUtils, SequencesExt
Trace == TLCEval(ndJsonDeserialize(IOEnv.TRACE))
VARIABLE l
Reject(r, why) == PrintT("REJECT:" \o ToJson([id |-> r.id, why |-> why]))
JudgeMacro(r, e) ==
    IF [how |-> r.how, what |-> r.what] = Choice(e, r) THEN TRUE
    ELSE Reject(r, "expected " \o Choice(e, r).how \o " " \o Choice(e, r).what \o ", got " \o r.how \o " " \o r.what)
Under(r, f) == LET p == Root(r.env, r.gen) IN
    \/ \E d \in {"/rs/", "/include/", "/cxx/"} : Len(f) > Len(p \o d) /\ SubSeq(f, 1, Len(p \o d)) = p \o d
JudgeBuild(r) ==
    LET root == Root(r.env, r.gen)
        names == ToSet(r.names)
        files == ToSet(r.files)
        cxx == {f \in files : SubSeq(f, 1, Len(root \o "/cxx/")) = root \o "/cxx/"}
    IN  IF root = "" THEN IF r.status = "ok" \/ files # {} THEN Reject(r, "built although there is nowhere to build") ELSE TRUE
        ELSE IF Cardinality({ModName(n) : n \in names}) # Len(r.names) THEN IF r.status = "ok" THEN Reject(r, "two modules of one name accepted") ELSE TRUE
        ELSE IF r.status # "ok" THEN Reject(r, "not built: " \o r.status)
        ELSE IF ~\A f \in files : Under(r, f) THEN Reject(r, "files outside the three directories")
        ELSE IF {f \in files : SubSeq(f, 1, Len(root \o "/rs/")) = root \o "/rs/"} # Writes(r.env, r.gen, names) THEN Reject(r, "other Rust files than expected")
        ELSE IF Cardinality(cxx) < Len(r.names) THEN Reject(r, "C++ sources missing")
        ELSE IF (root \o "/include/cxx.h") \notin files THEN Reject(r, "cxx.h missing")
        ELSE IF ~ToSet(r.listed) \subseteq files THEN Reject(r, "listed files were not written")
        ELSE IF r.told # Told(r.gen) THEN Reject(r, "cargo told '" \o r.told \o "'")
        ELSE \* the macro, afterwards
             LET e == MacroEnv(r.env, r.gen) IN
             \A i \in DOMAIN r.names :
                 LET w == Choice(e, [name |-> r.names[i], parse_only |-> FALSE]) IN
                 IF r.reads[i].how # w.how \/ r.reads[i].what # w.what THEN Reject(r, "the macro reads " \o r.reads[i].what)
                 ELSE IF e.json.set \/ e.file # "" \/ Expand(e, w.what) \in files THEN TRUE
                 ELSE Reject(r, "the macro reads a file the builder did not write")
TraceInit == l = 1 /\ env = <<>> /\ inv = <<>> /\ phase = ""
TraceNext == /\ l <= Len(Trace)
             /\ IF Trace[l].kind = "macro" THEN JudgeMacro(Trace[l], Trace[l].env) ELSE JudgeBuild(Trace[l])
             /\ l' = l + 1 /\ UNCHANGED vars
TraceSpec == TraceInit /\ [][TraceNext]_<<l, vars>>
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
