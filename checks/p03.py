"""P03: abstract classes can never be instantiated from Rust (spec/Abstract.tla)."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vl, cxxprobe, json
from p01 import index

PARAMS = {"": "", "int": "int a", "xref": "const AxvX& a", "cptr": "const char* a", "uint": "unsigned a"}


ALIAS = {"int": "AxvInt a", "xref": "const AxvXAlias& a"}
PRE = "struct AxvX { int q; };\ntypedef int AxvInt; using AxvXAlias = AxvX;\n"
# ways of writing the same hierarchy: declaration order reversed, explicit constructors,
# private pure virtual functions, in a namespace, aliases in place of parameter types
STYLES = [set(), {"rev"}, {"ctor"}, {"priv"}, {"ns"}, {"rev", "ctor", "ns"}, {"alias"}, {"priv", "ctor"}]


def decl(name, d, style=(), last=False, ret="void"):
    if d["sig"] == "~":
        return "virtual ~%s()%s;" % (name, " = 0" if d["kind"] == "pure" else " {}" if d["kind"] == "virtual" else " {}")
    s = d["sig"]
    fn, rest = s.split("(")
    par, const = rest.split(")")
    ps = ALIAS.get(par, PARAMS[par]) if "alias" in style and last else PARAMS[par]
    acc = "private: " if "priv" in style and d["kind"] == "pure" else ""
    return acc + "%s%s %s(%s)%s%s" % ("" if d["kind"] == "plain" else "virtual ", ret, fn, ps, " const" if const else "",
                                " = 0;" if d["kind"] == "pure" else " {}") + (" public:" if acc else "")


def render(pre, classes, style=()):
    out = []
    for i, c in enumerate(classes):
        n = "%sC%d" % (pre, i)
        fs = sorted(c["funs"], key=lambda d: d["sig"], reverse="rev" in style)
        b = ", ".join("public %sC%d" % (pre, k - 1) for k in c["bases"])
        ctor = "%s() {} %s(int x) {} %s(const %s&) {} %s(%s&&) {} " % (n, n, n, n, n, n) if "ctor" in style else ""
        out.append("class %s%s { public: %s%s int m%d; };" % (
            n, " : " + b if b else "", ctor, " ".join(decl(n, d, style, i == len(classes) - 1 and i > 0) for d in fs), i))
    o = "\n".join(out)
    return "namespace axvns { %s }" % o if "ns" in style else o


def made(e):
    tr = {t["trait"] for t in e["traits"]}
    m = []
    if any(x["name"].startswith("new") and not x["placeholder"] and not x["has_recv"] and "impl New" in x["ret"] for x in e["methods"]):
        m.append("default")
    if "CopyNew" in tr:
        m.append("copy")
    if "MoveNew" in tr:
        m.append("move")
    return m


def main():
    ck = vl.Check("P03")
    q = lambda s: "{" + ", ".join('"%s"' % x for x in s) + "}"
    cfg = lambda n, f, b, sigs, kinds: """SPECIFICATION Spec
CONSTANTS MaxClasses = %d
 MaxFuns = %d
 MaxBases = %d
 Sigs = %s
 Kinds = %s
INVARIANTS ConcreteFromConcrete OverrideAll Emit
CHECK_DEADLOCK FALSE
""" % (n, f, b, q(sigs), q(kinds))
    models = [("two classes", cfg(2, 2, 1, ["f()", "f()c", "f(int)", "f(xref)", "g()", "~"], ["pure", "virtual", "plain"])),
              ("chains and joins of three", cfg(3, 1, 2, ["f()", "f()c", "f(int)", "g()"] if ck.quick else
                                                ["f()", "f()c", "f(int)", "f(uint)", "g()", "~"], ["pure", "virtual"])),
              ("three classes, two functions each", cfg(3, 2, 1, ["f()", "f()c"] if ck.quick else ["f()", "f()c", "g()", "f(xref)"], ["pure", "virtual", "plain"]))]
    if not ck.quick:
        models.append(("four classes", cfg(4, 1, 2, ["f()", "f()c", "g()"], ["pure", "virtual"])))
    cases = []
    for name, c in models:
        r = vl.tlc("Abstract", c)
        ck.model(r, name)
        cs = r.lines("CASE:")
        cs = [c for c in cs if not any(d["sig"] == "~" and d["kind"] == "plain" for k in c for d in k["funs"])]
        cs = [c for c in cs if not any(d["sig"] == "~" and d["kind"] == "virtual" for k in c for d in k["funs"])]
        n = 2600 if ck.quick else 25000
        cases += vl.seeded_pick(cs, n)
    run(ck, cases)


def run(ck, cases):
    G = 150
    groups, probes, styles, tnames = [], [], [], []
    for gi, ch in enumerate(vl.chunks(cases, G)):
        sty = [STYLES[(gi * 3 + i) % len(STYLES)] for i in range(len(ch))]
        tn = ["%sn%dC%d" % ("axvns::" if "ns" in sty[i] else "", i, len(c) - 1) for i, c in enumerate(ch)]
        hdr = PRE + "\n".join(render("n%d" % i, c, sty[i]) for i, c in enumerate(ch))
        # alternately ask for everything, and only for the class in question
        if gi % 2:
            d = "generate_all!()\nsafety!(unsafe_ffi)"
        else:
            d = "safety!(unsafe_ffi)\n" + "\n".join('generate!("%s")' % t for t in tn)
        groups.append({"id": "g%d" % gi, "header": hdr, "directives": d})
        probes.append((hdr, ["std::is_abstract<%s>::value" % t for t in tn]))
        styles.append(sty)
        tnames.append(tn)
    vl.log("# %d headers, %d hierarchies" % (len(groups), len(cases)))
    res = vl.run_axv(groups)
    pr = cxxprobe.probe_many(probes)
    recs = []
    for gi, ch in enumerate(vl.chunks(cases, G)):
        v = res["g%d" % gi]
        if v["status"] != "ok":
            if v["status"] != "skipped":
                ck.violation("engine:%s" % groups[gi]["id"], "engine %s on valid header: %s" % (v["status"], v["error"][:300]), groups[gi])
            continue
        ix = index(v["mods"][0])
        for i, c in enumerate(ch):
            e = ix.get(tnames[gi][i], {"traits": [], "methods": []})
            recs.append({"id": "g%d.%d" % (gi, i), "classes": c, "made": made(e), "compiler": pr[gi][i], "all": gi % 2,
                         "style": sorted(styles[gi][i])})
    rej, st, tr = vl.validate("AbstractTrace", recs, "CONSTANTS MaxClasses = 1\n MaxFuns = 0\n MaxBases = 0\n Sigs = {}\n Kinds = {}\n")
    ck.cov["traces_validated_against_impl"] += len(recs)
    ck.add("abstract_cases", sum(1 for r in recs if r["compiler"]))
    by = {r["id"]: r for r in recs}
    for r in recs[:1] + recs[-2:]:
        ck.sample({"header": render("", r["classes"], r["style"]), "offered": r["made"], "abstract": r["compiler"]})
    for j in rej:
        r = by[j["id"]]
        src = render("", r["classes"], r["style"])
        if any(x[0] == "compiler-disagrees" for x in j["reasons"]):
            vl.log(src, r, j)
            vl.die("the specification of C++ disagrees with the compiler")
        ck.violation(json.dumps([src, r["all"], sorted(map(tuple, j["reasons"]))]), "%s (%s): %s" % (j["reasons"], "all" if r["all"] else "single", src),
                     {"header": src, "record": r})
    ck.finish()


if __name__ == "__main__":
    main()
