"""P02: by-value types are only those safe to move bytewise (spec/PodSafe.tla)."""
import os, sys, shutil, tempfile
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vl, cxxprobe, compile, json
from concurrent.futures import ThreadPoolExecutor

INC = {"std::string": "#include <string>\n", "std::unique_ptr": "#include <memory>\n", "std::shared_ptr": "#include <memory>\n", "std::vector": "#include <vector>\n"}
PRE = """enum AxvE { AxvA, AxvB };
enum class AxvF : char { X, Y };
union AxvU { int i; float f; };
struct AxvO { int o; };
struct AxvStrHolder { std::string s; };
struct AxvBlk { int b; };
typedef int AxvInt;
typedef std::string AxvStr;
template<class T> struct AxvT { T t; };
"""


def pre(body):
    """The declarations the text needs."""
    ls = [l for l in PRE.splitlines() if any(w in body for w in l.replace("{", " ").replace(";", " ").replace(":", " ").split() if w.startswith("Axv") and w not in ("AxvA", "AxvB"))]
    t = "\n".join(ls) + "\n"
    inc = "".join(sorted({v for k, v in INC.items() if k in body or k in t}))
    return "#pragma once\n" + inc + t


LEAF = {
    "int": "int {0};", "float": "double {0};", "enum": "AxvE {0}; AxvF {0}f;", "ptrstr": "std::string* {0};", "arrint": "int {0}[3];",
    "arrptr": "AxvStrHolder* {0}[2];", "ref": "int& {0};", "bits": "int {0}:3; int {0}x:5;", "union": "AxvU {0};", "fptr": "void (*{0})(int);",
    "blk": "AxvBlk {0};", "tdefint": "AxvInt {0};", "anon": "struct {{ int q; }} {0};", "tmplint": "AxvT<int> {0};", "static": "static std::string {0}s; int {0};",
    "str": "std::string {0};", "strarr": "std::string {0}[2];", "uptr": "std::unique_ptr<AxvO> {0};", "uptrint": "std::unique_ptr<int> {0};",
    "sptr": "std::shared_ptr<AxvO> {0};", "vec": "std::vector<int> {0};", "tdefstr": "AxvStr {0};", "tmplstr": "AxvT<std::string> {0};",
}
SPECIAL = {"none": "", "virt": "virtual void vf() {{}} ", "dtor": "~{0}() {{}} ", "copy": "{0}(const {0}&) {{}} {0}() = default; ",
           "move": "{0}({0}&&) {{}} {0}() = default; ", "vdtor": "virtual ~{0}() {{}} "}


# ways of writing the same header
def name(i, style):
    return {"flat": "T%d", "ns": "n{0}::T{0}", "samens": "axvns::T%d", "class": "T%d"}[style].replace("{0}", str(i)).replace("%d", str(i))


def render(ts, style):
    out = []
    for i, t in enumerate(ts):
        n = name(i + 1, style).split("::")[-1]
        if style == "ns":
            out.append("namespace n%d {" % (i + 1))
        b = " : public %s" % name(t["base"], style) if t["base"] else ""
        body = SPECIAL[t["sp"]].format(n)
        tds = ""
        for k, f in enumerate(t["fields"]):
            fn = "f%d_%d" % (i + 1, k)
            if f["t"]:
                m = name(f["t"], style)
                if style == "ns":
                    m = "::" + m
                if f["k"] == "tdef":
                    tds += "typedef %s Td%d_%d;\n" % (m, i + 1, k)
                body += {"cls": "%s %s; ", "arr": "%s %s[2]; ", "ptr": "%s* %s; ", "tdef": "Td%d_%d%%.0s %%s; " % (i + 1, k)}[f["k"]] % (m, fn)
            else:
                body += LEAF[f["k"]].format(fn) + " "
        out.append("%s%s %s%s { %s%s};" % (tds, "class" if style == "class" else "struct", n, b, "public: " if style == "class" else "", body))
        if style == "ns":
            out.append("}")
    o = "\n".join(out)
    if style == "samens":
        o = "namespace axvns {\n" + o + "\n}"
    return pre(o), o


STYLES = ["flat", "ns", "samens", "class"]
q = lambda s: "{" + ", ".join('"%s"' % x for x in s) + "}"


def cfg(n, f, leaves, links, specials, spec="Spec"):
    return """SPECIFICATION %s
CONSTANTS MaxTypes = %d
 MaxFields = %d
 Leaves = %s
 Links = %s
 Specials = %s
INVARIANTS Classified ContentsSafe MustIsMay PtrHarmless Emit
CHECK_DEADLOCK FALSE
""" % (spec, n, f, q(leaves), q(links), q(specials))


def main():
    ck = vl.Check("P02")
    sp = ["none", "virt", "dtor", "copy", "move", "vdtor"]
    lk = ["cls", "arr", "ptr", "tdef"]
    few = ["int", "str", "arrint", "strarr"]
    models = [("every field and special member", cfg(1, 1, LEAF, [], sp), 400),
              ("pairs of fields", cfg(1, 2, LEAF, [], ["none"]), 150 if ck.quick else 600),
              ("pairs of types", cfg(2, 1, ["int", "str", "vec", "enum", "uptr", "bits", "strarr", "blk"], lk, sp), 400 if ck.quick else 4000),
              ("chains of three", cfg(3, 1, few, lk, ["none", "virt", "dtor"]), 350 if ck.quick else 6000)]
    cases = []
    for (nm, c, n), r in zip(models, vl.tlc_many([("PodSafe", m[1]) for m in models])):
        ck.model(r, nm)
        cs = r.lines("CASE:")
        cases += vl.seeded_pick(cs, n)
    n = 150 if ck.quick else 2500
    r = vl.tlc("PodSafe", cfg(6, 3, [l for l in LEAF if l != "uptrint"], lk, sp, "SimSpec"), extra=["-simulate", "num=%d" % n, "-depth", "9", "-seed", str(vl.SEED)])
    ck.model(r, "random headers of six types")
    cases += [c for c in r.lines("CASE:") if c["asked"]]
    run(ck, cases)


def run(ck, cases):
    td = tempfile.mkdtemp(prefix="p02_", dir=vl.WORK)
    try:
        go(ck, cases, td)
    finally:
        shutil.rmtree(td, ignore_errors=True)


def go(ck, cases, td):
    # C++ forbids some of what the model can say; the compiler is asked about each type
    cs, sty = [], []
    for i, c in enumerate(cases):
        st = STYLES[i % len(STYLES)]
        ts = [name(k + 1, st) for k in range(len(c["types"]))]
        d = ["safety!(unsafe_ffi)", 'block!("AxvBlk")']
        for k, t in enumerate(ts):
            if k + 1 in c["asked"]:
                d.append('generate_pod!("%s")' % t)
            elif (i // 4) % 2:
                d.append('generate!("%s")' % t)
        if (i // 8) % 2:
            d = d[:2] + d[:1:-1]
        p, body = render(c["types"], st)
        cs.append({"id": str(i), "header": p + body, "body": body, "directives": "\n".join(d), "outdir": os.path.join(td, str(i))})
        sty.append(st)
    vl.log("# %d headers" % len(cs))
    res = vl.run_axv(cs)
    ok = [c["id"] for c in cs if res[c["id"]]["status"] == "ok"]
    with ThreadPoolExecutor(vl.NCPU) as ex:
        pch = compile.pch()
        cpp = dict(zip(ok, ex.map(lambda i: compile.cpp_errors(os.path.join(td, i), pch), ok)))
    # one probe for many headers: wrap each in a namespace of its own
    probes, P = [], 60
    for g in vl.chunks(list(range(len(cs))), P):
        h, e = "".join(sorted(set(INC.values()))) + PRE, []
        for i in g:
            h += "namespace axvc%d {\n%s\n}\n" % (i, cs[i]["body"].replace("::n", "::axvc%d::n" % i))
            e += ["(std::is_trivially_move_constructible<axvc%d::%s>::value && std::is_trivially_destructible<axvc%d::%s>::value)" % (i, n, i, n)
                  for n in [name(k + 1, sty[i]) for k in range(len(cases[i]["types"]))]]
        probes.append((h, e))
    pr = [x for p in cxxprobe.probe_many(probes) for x in p]
    recs, at = [], 0
    refused = granted = 0
    for i, c in enumerate(cases):
        v = res[str(i)]
        n = len(c["types"])
        comp = pr[at:at + n]
        at += n
        if v["status"] == "skipped":
            continue
        kinds, exposed = ["absent"] * n, [False] * n
        if v["status"] == "ok":
            byp = {t["path"]: t for t in v["mods"][0]["types"]}
            for k in range(n):
                t = byp.get(name(k + 1, sty[i]))
                if t:
                    kinds[k] = "pod" if t["kind"] == "pod" else "opaque"
                    exposed[k] = any(f["pub"] for f in t["fields"])
        built = v["status"] == "ok" and not cpp[str(i)]
        granted += built
        refused += not built
        recs.append({"id": str(i), "types": c["types"], "asked": c["asked"], "built": built, "kinds": kinds, "exposed": exposed, "compiler": comp})
        if v["status"] not in ("ok", "error"):
            ck.violation("engine:" + cs[i]["header"], "engine %s: %s" % (v["status"], v["error"][:200]), cs[i])
    rej, st, tr = vl.validate("PodSafeTrace", recs, "CONSTANTS MaxTypes = 1\n MaxFields = 1\n Leaves = {}\n Links = {}\n Specials = {}\n")
    ck.cov["traces_validated_against_impl"] += len(recs)
    ck.add("granted", granted)
    ck.add("refused", refused)
    by = {r["id"]: r for r in recs}
    for r in recs[:1] + recs[-2:]:
        ck.sample({"header": cs[int(r["id"])]["body"], "directives": cs[int(r["id"])]["directives"], "kinds": r["kinds"], "built": r["built"]})
    for j in rej:
        r, c = by[j["id"]], cs[int(j["id"])]
        if any(x[0] == "compiler-disagrees" for x in j["reasons"]):
            vl.log(c["header"], r, j)
            vl.die("the specification of C++ disagrees with the compiler")
        ck.violation(json.dumps([c["body"], c["directives"], sorted(map(tuple, j["reasons"]))]),
                     "%s: %s %s %s" % (j["reasons"], c["body"], c["directives"],
                                       (cpp.get(j["id"]) or [res[j["id"]].get("error", "")])[:1]), {"case": c, "record": r})
    ck.finish()


if __name__ == "__main__":
    main()
