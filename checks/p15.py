"""P15: an archive of bindings gives back what was stored for an invocation (spec/Archive.tla)."""
import itertools, os, re, sys
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vl, directives as D

BASE = "CONSTANTS MaxDirs = 0\n MaxArgs = 0\n Values = {}\n ArgKinds = {}\n Probes = {}\n"
BAD = ("generate_all",)
V = [v for v in D.VOCAB if v["d"] != "generate_all"]


def keys():
    """Invocations: nothing, one directive, two, and some which only differ in where one string ends."""
    ks = [[]] + [[v] for v in D.VOCAB]
    ks += [[a, b] for a in V for b in V if a is not b and not (a["d"] == b["d"] == "name")]
    S, g = D.S, lambda *n: [D.D("generate", D.S(x)) for x in n]
    ks += [g("A", "A"), g("AA"), g("A", "B", "A"), g("A", "B", "AB"), g("AB", "A"), g("AB", "AB"), [D.D("generate", S(""))], g("", ""), g("", "", ""), g("A", ""), g("", "A"), [D.D("#include", S("a.h")), D.D("#include", S("a.h"))],
           [D.D("pod", S("A")), D.D("pod", S("A"))], [D.D("name", D.I("ffi"))]]
    out, seen = [], set()
    for k in ks:
        t = D.render(k, 0)
        if t not in seen:
            seen.add(t)
            out.append(k)
    return out


SECTION = '#include "a.h"\nsafety!(unsafe)\n%s'
HEADER = "#pragma once\n#include <string>\ninline int f(int a) { return a; }\ninline int g(int a) { return a; }\nstruct S { int x; void m(); };\nstruct Base { virtual ~Base(); virtual int v(int) const; Base(); };\n"
FOUND = {"nothing": "", "type": "#[autocxx::extern_rust::extern_rust_type]\npub struct R(i32);", "type in mod": "pub mod m { #[autocxx::extern_rust::extern_rust_type]\npub struct R(i32); }",
         "function": "#[autocxx::extern_rust::extern_rust_function]\npub fn hello(a: i32) -> i32 { a }", "method": "pub struct Q; impl Q {\n#[autocxx::extern_rust::extern_rust_function]\npub fn hello(&self) {} }",
         "use": "fn main() { ffi::g(1); }", "subclass": '#[autocxx::subclass::subclass(superclass("Base"))]\npub struct Sub { x: u32 }'}
DIRS = {"none": "", "one": 'generate!("f")', "two": 'generate!("f") generate!("S")', "named": 'name!(other)\ngenerate!("f")', "pod": 'generate_pod!("S")', "parse": "parse_only!()", "util": "exclude_utilities!()", "rust": 'extern_rust_type!(Z)\ngenerate!("g")',
        "concrete": 'generate!("f")\nblock!("S")\ninstantiable!("S")', "sub": 'subclass!("Base", Sub2)', "all": "generate_all!()"}


def codegen(Q):
    """Whole Rust files: one section with everything the generator may discover, two sections in one or two files."""
    out = []
    for (dn, d), (fn, f), auto in itertools.product(DIRS.items(), FOUND.items(), (False, True)):
        if (fn == "subclass" and not auto) or (fn in ("use", "subclass") and auto and dn in ("all", "named")) or (fn == "use" and dn == "two") or dn in ("all", "parse") and fn != "nothing":
            continue
        out.append({"auto": auto, "files": [("autocxx::include_cpp! {%s}\n" % (SECTION % d)) + f],
                    "invs": [{"key": d, "found": [fn if (auto or fn not in ("use",)) else "nothing"]}]})
    # two files, each with one section
    for (d1, d2), (f1, f2) in itertools.product(itertools.combinations_with_replacement(("none", "one", "named", "pod", "rust"), 2), itertools.product(("nothing", "type", "function"), repeat=2)):
        out.append({"auto": False, "files": [("autocxx::include_cpp! {%s}\n" % (SECTION % DIRS[d])) + FOUND[f] for d, f in ((d1, f1), (d2, f2))],
                    "invs": [{"key": DIRS[d], "found": [f]} for d, f in ((d1, f1), (d2, f2))]})
    # two and three sections in a file, in mods
    for d1, d2 in (("one", "named"), ("none", "named"), ("rust", "named"), ("pod", "named")):
        a, b = "autocxx::include_cpp! {%s}\n" % (SECTION % DIRS[d1]), "autocxx::include_cpp! {%s}\n" % (SECTION % DIRS[d2])
        for t in (a + b, "mod x { %s }\n%s" % (a, b), "mod x { mod y { %s } }\nmod z { %s }" % (a, b)):
            out.append({"auto": False, "files": [t], "invs": [{"key": DIRS[d], "found": ["nothing"]} for d in (d1, d2)]})
    if Q:
        out = vl.seeded_pick(out, 110)
    for i, c in enumerate(out):
        c["id"] = "c%d" % i
        c["headers"] = {"a.h": HEADER}
        c["lookups"] = [re.sub(r"\s+", " ", SECTION % v["key"]) if n % 2 else (SECTION % v["key"]).replace("\n", "\n\n   // x\n") for n, v in enumerate(c["invs"])]
    return out


def main():
    ck = vl.Check("P15")
    Q = ck.quick
    ks = keys()
    small = [ks[0]] + [[v] for v in D.VOCAB[2:6]] + [[D.VOCAB[2], D.VOCAB[3]], [D.VOCAB[3], D.VOCAB[2]]]
    a = "CONSTANTS MaxOps = %d\n Styles = {0, 1, 2, 3}\n"
    inv = "INVARIANTS Own Absent %s\nCHECK_DEADLOCK FALSE\n"
    emit = "INVARIANTS EmitOps\nCHECK_DEADLOCK FALSE\n"
    dk = lambda k: {"Keys": "{" + ", ".join(D.tla(x) for x in k) + "}"}
    near = vl.seeded_pick(ks, 40)
    jobs = [("every history", "SPECIFICATION ASpec\n" + BASE + (a % 2).replace("{0, 1, 2, 3}", "{0, 3}") + inv % "EmitOps", dict(defs=dk(small[:5])))]
    for n, (k, m) in enumerate([(small, 30), (near, 60), (vl.seeded_pick(ks, 200), 120)]):
        jobs.append(("random histories of %d" % m, "SPECIFICATION SimASpec\n" + BASE + a % m + (inv % "EmitOps" if n == 0 else emit),
                     dict(defs=dk(k), extra=["-simulate", "num=%d" % ((40, 30, 10)[n] * (1 if Q else 15)), "-depth", "200", "-seed", str(vl.SEED + n)])))
    rs = vl.tlc_many([("Archive", c, kw) for _, c, kw in jobs])
    hists = []
    for r, (n, _, _) in zip(rs, jobs):
        ck.model(r, n)
        hists += r.lines("CASE:")
    # one archive with every invocation there is: each is then found with its own bindings
    op = lambda o, k=(), s=0, c=0: {"op": o, "key": list(k), "style": s, "code": c}
    half = [k for i, k in enumerate(ks) if i % 2 == vl.SEED % 2]
    big = [op("insert", k, 0, i + 1) for i, k in enumerate(half)] + [op("reload")] + [op("get", k, i % 4) for i, k in enumerate(ks)]
    if Q:
        big = [op("insert", k, 0, i + 1) for i, k in enumerate(half)] + [op("reload")] + [op("get", k, i % 4) for i, k in enumerate(ks) if i % 2 == vl.SEED % 2 or i % 16 == (vl.SEED + 1) % 16]
    hists += [big]
    cases = []
    for i, h in enumerate(hists):
        ops = []
        for o in h:
            t = D.render(o["key"], o["style"])
            ops.append({"op": o["op"], "text": t, "code": "code_%d ;" % o["code"]})
        cases.append({"id": "h%d" % i, "ops": ops})
    cg = codegen(Q)
    vl.axv()
    parts = [("archive", c) for c in vl.chunks(cases, 400)] + [("codegen", c) for c in vl.chunks(cg, -(-len(cg) // 8))]
    res = {}
    with ThreadPoolExecutor(8) as ex:
        for r in ex.map(lambda p: vl.run_axv([{k: v for k, v in c.items() if k != "invs"} for c in p[1]], p[0], 1), parts):
            res.update(r)
    recs = []

    def num(x):
        m = re.fullmatch(r"code_(\d+)\s*;", x)
        return 999999 if x == "ok" else 0 if x == "missing" else 777777 if not x.strip() else int(m.group(1)) if m else 888888
    for i, h in enumerate(hists):
        r = res["h%d" % i]
        if "results" not in r:
            ck.violation("archive panics", "archive operations panic: %s" % str(r)[:300], cases[i])
            continue
        recs.append({"id": "h%d" % i, "kind": "history", "ops": [dict(o, got=num(x)) for o, x in zip(h, r["results"])]})
    for c in cg:
        r = res[c["id"]]
        lk = r.get("lookups", [])
        recs.append({"id": c["id"], "kind": "codegen", "status": r["status"], "invs": c["invs"],
                     "got": [isinstance(x, list) and i in x for i, x in enumerate(lk)]})
        c["result"] = r
    ck.cov["traces_validated_against_impl"] += len(recs)
    ck.cov["operations"] = sum(len(r.get("ops", [])) for r in recs)
    ck.cov["code generations"] = {"total": len(cg), "ok": sum(r.get("status") == "ok" for r in recs)}
    rej, st, tr = vl.validate("ArchiveTrace", recs, BASE + "CONSTANTS Keys = {}\n Styles = {}\n MaxOps = 0\n", chunk=400, par=6)
    ck.cov["states"] += st
    ck.cov["transitions"] += tr
    for j in rej:
        if j["id"][0] == "c":
            c = next(c for c in cg if c["id"] == j["id"])
            ck.violation("codegen %s: %s" % (j["why"], " ".join(" ".join(c["files"]).split())), "%s: %s (%s)" % (j["why"], " ".join(" ".join(c["files"]).split()), str(c["result"])[:200]), c)
        else:
            i = int(j["id"][1:])
            o = hists[i][j["at"] - 1]
            ck.violation("lookup of %s" % " ".join(D.render(o["key"]).split()), "operation %d of a history on one archive: %s %s gives %s" % (j["at"], o["op"], " ".join(D.render(o["key"]).split()), res[j["id"]]["results"][j["at"] - 1]), cases[i])
    ck.sample(*[[(o["op"], D.render(o["key"])) for o in h[:4]] for h in hists[:3]])
    ck.finish()


if __name__ == "__main__":
    main()
