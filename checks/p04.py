"""P04: every overload gets its own predictable Rust name (spec/Names.tla)."""
import os, sys, re, json
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vl

CPP = {"": "", "()c": "", "int": "int a", "double": "double a", "bool": "bool a", "int2": "int a, int b", "float": "float a", "copy": None,
       "short": "short a", "bool2": "bool a, bool b", "ib": "int a, bool b", "bi": "bool a, int b", "d2": "double a, double b", "int3": "int a, int b, int c"}
RUST = {"": [], "()c": [], "int": ["c_int"], "double": ["f64"], "bool": ["bool"], "int2": ["c_int", "c_int"], "float": ["f32"],
        "short": ["c_short"], "bool2": ["bool", "bool"], "ib": ["c_int", "bool"], "bi": ["bool", "c_int"], "d2": ["f64", "f64"], "int3": ["c_int"] * 3}


for v in ("int", "double", "bool", "int2"):
    CPP["v" + v], RUST["v" + v] = CPP[v], RUST[v]


# Names which Rust or the tool might treat in some special way. "own1" stands for the name of the
# class followed by a 1.
KEYWORDS = ["as", "type", "move", "match", "impl", "Self", "box", "dyn", "async", "yield", "abstract", "override", "final", "crate", "super", "where", "fn", "let", "in"]
WORDS = KEYWORDS + ["as_", "type_", "f_", "F1_", "own1", "own2", "own_", "Option", "drop", "main", "root", "clone", "A_b", "str", "u8", "within_box", "gen", "Ok"]


def letters(n):
    s = ""
    while True:
        s = chr(ord("a") + n % 26) + s
        n //= 26
        if n == 0:
            return "z" + s


def fun(d, nm, cls, style):
    par = CPP[d["sig"]] if d["sig"] != "copy" else "const %s&" % cls
    if d["fate"] == "variadic":
        par += ", ..."
    tail = (" const" if d["sig"] == "()c" else "") + (" = delete" if d["fate"] == "deleted" else "")
    static = "static " if (style == "static" and cls and d["name"] == "s") else ""
    if d["sig"][:1] == "v":
        static = "virtual "
    if d["name"] == "new":
        return "%s(%s)%s;" % (cls, par, tail)
    return "%svoid %s(%s)%s;" % (static, nm, par, tail)


def render(tag, decls):
    """Scopes: "" global, "a" namespace, "T" class, "U" class in a namespace, "N" nested class.
    Consecutive declarations of a namespace-level scope stay in the order of the declarations."""
    def nm(d):
        if d["name"][:3] == "own":
            return (d["scope"] if d["scope"] not in ("", "a") else "own") + tag + d["name"][3:]
        return d["name"] + "_" + tag if d["scope"] in ("", "a") and tag and d["name"] not in WORDS else d["name"]
    body = {s: [d for d in decls if d["scope"] == s] for s in ("T", "U", "N")}

    def cls(s, name, inner=""):
        o = []
        for d in body[s]:
            o.append("%s: %s" % ("private" if d["fate"] == "private" else "public", fun(d, nm(d), name, "static")))
        return "class %s { %s%s public: int q; };" % (name, inner, " ".join(o))
    out = []
    for d in decls:
        if d["scope"] == "":
            out.append(fun(d, nm(d), "", ""))
        elif d["scope"] == "a":
            out.append("namespace ns_%s { %s }" % (tag, fun(d, nm(d), "", "")))
    inner = "public: " + cls("N", "N" + tag) + " " if body["N"] else ""
    if body["T"] or inner:
        out.append(cls("T", "T" + tag, inner))
    if body["U"]:
        out.append("namespace ns_%s { %s }" % (tag, cls("U", "U" + tag)))
    return "\n".join(out)


def observe(mod, tag, decls):
    """The Rust name under which each declaration is exposed."""
    names = []
    tpath = {"T": "T" + tag, "U": "ns_%s::U%s" % (tag, tag), "N": "T%s_N%s" % (tag, tag)}
    for d in decls:
        if d["sig"] == "copy" or d["fate"] == "variadic":
            want = None
        else:
            want = RUST[d["sig"]]
        got = []
        word = d["name"] + ("_" if d["name"] in KEYWORDS else "")
        if d["scope"] in ("", "a"):
            pre = "ns_%s::" % tag if d["scope"] == "a" else ""
            base = "own" + tag + d["name"][3:] if d["name"][:3] == "own" else word if d["name"] in WORDS else d["name"] + "_" + tag
            for f in mod["_fns"].get(tag, []):
                m = re.fullmatch(re.escape(pre) + "(" + re.escape(base) + r"(\d*))", f["path"])
                if m and f["params"] == want and not f["placeholder"]:
                    got.append(word + m.group(2))
        else:
            base = d["scope"] + tag + d["name"][3:] if d["name"][:3] == "own" else word
            for f in mod["_m"].get(tpath[d["scope"]], []):
                if f["placeholder"] or f["params"] != want:
                    continue
                m = re.fullmatch(re.escape(base) + r"(\d*)", f["name"])
                if not m:
                    continue
                if d["name"] not in ("new", "s") and (f["recv"] == "const") != (d["sig"] == "()c"):
                    continue
                got.append(word + m.group(1))
        names.append("" if not got else got[0] if len(got) == 1 else "several:" + ",".join(sorted(got)))
    return names


def main():
    ck = vl.Check("P04")
    q = lambda s: "{" + ", ".join('"%s"' % x for x in s) + "}"

    def cfg(scopes, names, sigs, fates, n, emit):
        return """SPECIFICATION Spec
CONSTANTS Scopes = %s
 TypeScopes = {"T", "U", "N"}
 FnNames = %s
 Sigs = %s
 Fates = %s
 MaxDecls = %d
 Keywords = %s
INVARIANTS Distinct Independent %s
PROPERTIES Stable StableOthers
CHECK_DEADLOCK FALSE
""" % (q(scopes), q(names), q(sigs), q(fates), n, q(KEYWORDS), emit)
    allS, allN, allG, allF = ["", "a", "T", "U", "N"], ["f", "g", "s", "F", "new"], ["", "()c", "int", "double", "bool", "int2", "float", "copy", "vdouble", "vint2"], ["ok", "private", "deleted", "variadic"]
    cases = []
    for nm, c in [("namespaces", cfg(["", "a"], ["f", "g"], ["", "int", "double"], ["ok", "deleted"], 3, "Emit")),
                  ("classes", cfg(["T", "U"], ["f", "new"], ["", "int", "()c", "copy"], ["ok", "private"], 3, "Emit")),
                  ("one class", cfg(["T"], ["f", "new"], ["", "int", "double", "()c"], ["ok", "private"], 4, "Emit")),
                  ("virtual methods", cfg(["T"], ["f"], ["", "int", "vint", "vdouble", "vbool", "()c"], ["ok", "private"], 4, "Emit")),
                  ("one namespace", cfg(["a"], ["f", "F"], ["", "int", "double"], ["ok"], 5, "Emit"))]:
        r = vl.tlc("Names", c)
        ck.model(r, nm)
        cs = r.lines("CASE:")
        cases += vl.seeded_pick(cs, 700 if ck.quick else 20000)
    # long histories over everything, by simulation
    num, depth = (400, 16) if ck.quick else (4000, 22)
    r = vl.tlc("Names", cfg(allS, allN, allG, allF, depth, "EmitLong").replace("PROPERTIES Stable StableOthers\n", "").replace("SPECIFICATION Spec", "SPECIFICATION SimSpec"),
               extra=["-simulate", "num=%d" % num, "-depth", str(depth + 1), "-seed", str(vl.SEED)])
    long = r.lines("CASE:")
    vl.log("# TLC simulation: %d histories of %d declarations" % (len(long), depth))
    ck.add("simulated_histories", len(long))
    cases += long
    # many overloads of few names, including names that differ only in case or by an ending
    num, depth = (60, 24) if ck.quick else (1000, 26)
    r = vl.tlc("Names", cfg(["T", "a", ""], ["f", "F", "new"], list(RUST), ["ok", "private"], depth, "EmitLong").replace("PROPERTIES Stable StableOthers\n", "").replace("SPECIFICATION Spec", "SPECIFICATION SimSpec").replace("INVARIANTS Distinct Independent", "INVARIANTS Distinct"),
               extra=["-simulate", "num=%d" % num, "-depth", str(depth + 1), "-seed", str(vl.SEED + 1)])
    r2 = vl.tlc("Names", cfg(["T"], ["f"], list(RUST), ["ok"], 13, "EmitLong").replace("PROPERTIES Stable StableOthers\n", "").replace("SPECIFICATION Spec", "SPECIFICATION SimSpec"),
               extra=["-simulate", "num=%d" % (num // 4), "-depth", "14", "-seed", str(vl.SEED + 2)])
    many = r.lines("CASE:") + r2.lines("CASE:")
    ck.add("simulated_histories", len(many))
    cases += many
    # words
    ws = [vl.seeded_pick(WORDS, 5, keyf=lambda w: w + str(k)) for k in range(3 if ck.quick else 12)]
    for k, w in enumerate(ws):
        r = vl.tlc("Names", cfg(["a", "T", "N"], w, ["", "int"], ["ok"], 2, "Emit"))
        ck.model(r, "words %d" % k)
        cases += r.lines("CASE:")
    num, depth = (120, 12) if ck.quick else (2000, 16)
    r = vl.tlc("Names", cfg(["a", "T", "U", "N"], WORDS + ["new"], ["", "()c", "int", "bool", "int2", "double", "vdouble"], ["ok", "private", "deleted"], depth, "EmitLong").replace("PROPERTIES Stable StableOthers\n", "").replace("SPECIFICATION Spec", "SPECIFICATION SimSpec").replace("INVARIANTS Distinct Independent", "INVARIANTS Distinct"),
               extra=["-simulate", "num=%d" % num, "-depth", str(depth + 1), "-seed", str(vl.SEED + 3)])
    wcases = r.lines("CASE:")
    ck.add("simulated_histories", len(wcases))
    cases += wcases
    # names that clash with a numbered overload (a known finding)
    r = vl.tlc("Names", cfg(["T", "U"], ["f", "f1"], ["", "int", "double"], ["ok"], 3, "Emit"))
    ck.model(r, "clashing names")
    # parameters identify the function here, so no two may have the same ones
    cl = [c for c in r.lines("CASE:") if len({(d["scope"], d["sig"]) for d in c}) == len(c)]
    cases += cl if not ck.quick else vl.seeded_pick(cl, 200)
    run(ck, cases)


def run(ck, cases):
    G = 60
    groups = []
    for gi, ch in enumerate(vl.chunks(cases, G)):
        hdr = "\n".join(render(letters(i), c) for i, c in enumerate(ch))
        groups.append({"id": "g%d" % gi, "header": hdr, "directives": "generate_all!()\nsafety!(unsafe_ffi)"})
    vl.log("# %d headers, %d histories" % (len(groups), len(cases)))
    res = vl.run_axv(groups)
    recs = []
    for gi, ch in enumerate(vl.chunks(cases, G)):
        v = res["g%d" % gi]
        if v["status"] != "ok":
            if v["status"] != "skipped":
                ck.violation("engine:%s" % vl.hashlib.sha1(groups[gi]["header"].encode()).hexdigest(),
                             "engine %s on valid header: %s" % (v["status"], v["error"][:300]), groups[gi])
            continue
        mod = v["mods"][0]
        mod["_fns"], mod["_m"] = {}, {}
        for f in mod["fns"]:
            m = re.match(r"ns_(z[a-z]+)::", f["path"]) or re.search(r"_(z[a-z]+)\d*$", f["path"])
            if m:
                mod["_fns"].setdefault(m.group(1), []).append(f)
        for f in mod["methods"]:
            mod["_m"].setdefault(f["type"], []).append(f)
        for i, c in enumerate(ch):
            obs = observe(mod, letters(i), c)
            recs.append({"id": "g%d.%d" % (gi, i), "decls": [dict(d, rust=o) for d, o in zip(c, obs)]})
    rej, st, tr = vl.validate("NamesTrace", recs, """CONSTANTS Scopes = {}
 TypeScopes = {"T", "U", "N"}
 FnNames = {}
 Sigs = {}
 Fates = {}
 MaxDecls = 0
 Keywords = {%s}
""" % ", ".join('"%s"' % k for k in KEYWORDS))
    ck.cov["traces_validated_against_impl"] += len(recs)
    ck.add("declarations", sum(len(r["decls"]) for r in recs))
    by = {r["id"]: r for r in recs}
    for r in recs[:1] + recs[-1:]:
        ck.sample({"header": render("", r["decls"]), "names": [d["rust"] for d in r["decls"]]})
    for j in rej:
        r = by[j["id"]]
        if j["clash"] and "clash" in ck.known:
            ck.known_hit.add("clash")
            continue
        src = render("", r["decls"])
        ck.violation(json.dumps([src, j["at"]]), "declaration %d should be %r but is %r in: %s" % (j["at"], j["expected"], j["got"], src), {"header": src, "record": r, "reject": j})
    ck.finish()


if __name__ == "__main__":
    main()
