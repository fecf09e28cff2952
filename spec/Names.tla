------------------------------- MODULE Names -------------------------------
(* The Rust names given to overloaded C++ functions (property P04).  A header  *)
(* grows by declaring functions in scopes (a namespace or a class).  The first *)
(* function of a given name in a scope keeps its name, the k-th later one gets *)
(* the name followed by k, counting also functions which end up not bound.     *)
(* Constructors are named "new". A C++ name which is a keyword of Rust gets an  *)
(* underscore appended, and is then treated as any other name.                 *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Scopes, TypeScopes, FnNames, Sigs, Fates, MaxDecls, Keywords

\* fate: "ok", or why the function cannot be bound ("private", "deleted", "variadic").
VARIABLE decls
vars == <<decls>>

\* Virtual methods, which may take the same things as others.
Virtual(d) == d.sig \in {"vint", "vdouble", "vbool", "vint2"}
Takes(d) == CASE d.sig = "vint" -> "int" [] d.sig = "vdouble" -> "double" [] d.sig = "vbool" -> "bool" [] d.sig = "vint2" -> "int2" [] OTHER -> d.sig
Mangled(d) == IF d.name \in Keywords THEN d.name \o "_" ELSE d.name
Allowed(d) ==
    /\ Virtual(d) => (d.scope \in TypeScopes /\ d.name \notin {"new", "s"} /\ d.fate \in {"ok", "private"})
    /\ d.name = "new" => d.scope \in TypeScopes
    /\ d.fate = "private" => d.scope \in TypeScopes
    /\ d.sig = "()c" => (d.scope \in TypeScopes /\ d.name \notin {"new", "s"})
    /\ d.sig = "copy" => d.name = "new"
    \* (bindgen never reports static variadic member functions)
    /\ d.fate = "variadic" => (d.sig \in {"int", "bool"} /\ d.name # "s")
    \* all overloads in a scope have different parameters
    /\ \A i \in DOMAIN decls : ~(decls[i].scope = d.scope /\ Mangled(decls[i]) = Mangled(d) /\ Takes(decls[i]) = Takes(d))

Init == decls = <<>>
Declare == /\ Len(decls) < MaxDecls
           /\ \E s \in Scopes, n \in FnNames, g \in Sigs, f \in Fates :
                LET d == [scope |-> s, name |-> n, sig |-> g, fate |-> f]
                IN  Allowed(d) /\ decls' = Append(decls, d)
Next == Declare
Spec == Init /\ [][Next]_vars

\* For simulation of long histories: one arbitrary step of Declare.
AllDecls == [scope : Scopes, name : FnNames, sig : Sigs, fate : Fates]
SimDeclare == /\ Len(decls) < MaxDecls
              /\ LET ok == {d \in AllDecls : Allowed(d)}
                 IN  ok # {} /\ \E d \in {RandomElement(ok)} : decls' = Append(decls, d)
SimSpec == Init /\ [][SimDeclare]_vars

\* (the virtual methods of a class come after all others)
Before(ds, j, i) == IF Virtual(ds[i]) = Virtual(ds[j]) THEN j < i ELSE Virtual(ds[i])
Earlier(ds, i) == Cardinality({j \in DOMAIN ds : Before(ds, j, i) /\ ds[j].scope = ds[i].scope /\ Mangled(ds[j]) = Mangled(ds[i])})
RustName(ds, i) == LET k == Earlier(ds, i) IN IF k = 0 THEN Mangled(ds[i]) ELSE Mangled(ds[i]) \o ToString(k)
\* What is bound is exposed to Rust under its name, what is not has none. The copy constructor is
\* exposed as a trait and not under a name, but takes part in the numbering.
Exposed(ds, i) == IF ds[i].fate = "ok" /\ ds[i].sig # "copy" THEN RustName(ds, i) ELSE ""

\* Two different C++ names in one scope that would receive the same Rust name, such as an
\* overloaded f next to a function whose real name is f1.
Clash(ds, s) ==
    LET mine == {i \in DOMAIN ds : ds[i].scope = s}
        r    == TLCEval([i \in mine |-> RustName(ds, i)])
        \* (constructors are numbered under the name of the class on the way)
        raw  == TLCEval([i \in mine |-> IF ds[i].name # "new" THEN r[i]
                                        ELSE LET k == Earlier(ds, i) IN IF k = 0 THEN "own" ELSE "own" \o ToString(k)])
    IN  \E i, j \in mine : ds[i].name # ds[j].name /\ (r[i] = r[j] \/ raw[i] = raw[j])

-----------------------------------------------------------------------------
Distinct == \A s \in Scopes :
    LET mine == {i \in DOMAIN decls : decls[i].scope = s}
    IN  Cardinality({RustName(decls, i) : i \in mine}) = Cardinality(mine) \/ Clash(decls, s)
\* Names already given never change when more is declared (but for those of virtual methods when
\* more methods are which are not virtual).
Stable == [][\A i \in DOMAIN decls : (Virtual(decls[i]) /\ Virtual(decls'[Len(decls')])) => RustName(decls', i) = RustName(decls, i)]_vars
StableOthers == [][\A i \in DOMAIN decls : ~Virtual(decls[i]) => RustName(decls', i) = RustName(decls, i)]_vars
\* Scopes are independent.
Independent == \A s \in Scopes :
    LET mine == SelectSeq(decls, LAMBDA d : d.scope = s)
        names == {<<mine[i].sig, mine[i].name, RustName(mine, i)>> : i \in DOMAIN mine}
    IN  names = {<<decls[i].sig, decls[i].name, RustName(decls, i)>> : i \in {j \in DOMAIN decls : decls[j].scope = s}}
Emit == Len(decls) = 0 \/ PrintT("CASE:" \o ToJson(decls))
EmitLong == Len(decls) < MaxDecls \/ PrintT("CASE:" \o ToJson(decls))
=============================================================================
