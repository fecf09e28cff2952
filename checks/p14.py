"""P14: directives mean the same in any order, bad ones are rejected (spec/Config.tla)."""
import json, os, random, re, sys
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vl, directives as D

KINDS = ("str", "id", "path", "sig", "comma", "unsafe", "policy", "num")
consts = lambda md, values, ma=0: "CONSTANTS MaxDirs = %d\n MaxArgs = %d\n" % (md, ma)
T = {"trace": "CONSTANTS MaxDirs = 0\n MaxArgs = 0\n Values = {}\n ArgKinds = {}\n"}


def defs(values):
    return {"Values": "{" + ", ".join(D.tla(v) for v in values) + "}", "Probes": D.tla(set(D.PROBES)), "ArgKinds": D.tla(set(KINDS))}


def junk():
    """Texts which are no list of directives."""
    ok, w = 'generate!("A")', []
    for n in ("generates", "Generate", "gen", "pods", "blocks", "generate_types", "unsafe_ffi", "include_cpp", "extern_type", "rust_types", "namespace", "block_constructor", "generate_", "_generate"):
        for a in ("", '"A"', "A", '"A", B'):
            w.append("%s!(%s)" % (n, a))
    for n in ("includes", "define", "generate", "safety", "pragma"):
        w += ["#%s" % n, '#%s "a.h"' % n, '#%s!("a.h")' % n, "#%s <a.h>" % n]
    w += ['include!("a.h")', 'include "a.h"', '#include <vector>', '#include a.h', "#include", "#", '#!include "a.h"', '##include "a.h"', '#include("a.h")', '#include "a.h" "b.h"', '#include "a.h", "b.h"',
          ok + ";", ok + ",", ";", ",", ok + "; " + ok, ok + ", " + ok, 'generate!{"A"}', 'generate!["A"]', 'generate! "A"', "generate!", "generate", '"A"', "42", "!", "()", "generate!()()", 'generate!!("A")', 'generate!("A") as B',
          "safety!(unsafe unsafe)", "safety!(unsafe_ffi, unsafe)", "safety!(safe)", "safety!(Unsafe)", "safety!(unsafe{})", "safety!(unsafe_ffi_)", "safety!(\"unsafe\")", "name!(a::b)", "name!(a, b)", "name!(fn)", "name!(self::a)", "rust_type!(a::)", "rust_type!(::a)", "rust_type!(Vec<u8>)",
          'concrete!("T<int>" TI)', 'concrete!("T<int>", T::I)', 'concrete!(TI, "T<int>")', "subclass!(Sub)", 'subclass!("Base")', 'subclass!("Base",)', 'extern_cpp_type!("E")', 'extern_cpp_type!("E", crate::)', 'extern_cpp_type!("E", "crate::E")', "extern_rust_function!(fn f())", "extern_rust_function!(f)", 'extern_rust_function!(f, fn f() {})', 'extern_rust_function!("f", fn f())',
          'generate!(b"A")', "generate!('A')", "generate!(c\"A\")", "generate!(A::B)", 'generate!("A" "B")', 'generate!("A", "B")', "generate_all!(true)", "parse_only!(\"A\")", 'exclude_impls!("A")', "generate_all!(,)"]
    return [(t, x) for t in w for x in (t, ok + "\n" + t, t + "\n" + ok)]


HEADER = """#pragma once
#include <string>
#include <cstdint>
struct A { int x; A(); int get() const; }; struct B { B(int); A a; void set(A v); }; struct AB { AB* next; };
struct P { int i; bool b; }; struct O { O(); B b; P p; };
template<class X> struct T { X x; };
struct Base { Base(); virtual ~Base(); virtual int vf(int) const; virtual void pv() = 0; };
T<int> mk(); void use(const T<A>& t); P flip(P p); void h2(A& a, const B& b); inline int freef(int a) { return a; }
namespace n { struct A { int y; AB q() const; }; enum class E { X, Y }; int fn1(E e); typedef ::A Alias; void takes(Alias a);
namespace m { struct B { std::string s() const; }; void fm(B& b, E e); } }
"""
ENGINE = ("generate", "generate_pod", "generate_ns", "pod", "block", "block_constructors", "instantiable", "exclude_utilities", "exclude_impls", "name", "safety", "concrete", "opaque", "subclass", "generate_all")


def engine_vocab():
    return [v for v in D.VOCAB if v["d"] in ENGINE and not (v["d"] == "pod" and v["args"][0]["v"] == "O")
            and not (v["d"] == "safety" and v["args"] and v["args"][0]["v"] == "unsafe_references_wrapped")]


def public(r):
    """What users see of the bindings, in no particular order and without hashes in names."""
    def norm(v):
        if isinstance(v, dict):
            return {k: norm(x) for k, x in v.items() if k not in ("via", "id", "error") and not k.startswith("bridge")}
        if isinstance(v, list):
            return sorted((norm(x) for x in v), key=lambda x: json.dumps(x, sort_keys=True))
        return re.sub("_0x[0-9a-f]+", "_HASH", v) if isinstance(v, str) else v
    return json.dumps(norm(r), sort_keys=True)


def pairs(lists, rnd):
    cases, recs = [], []
    for i, h in enumerate(lists):
        for j in range(3):
            g = list(h)
            if j:
                rnd.shuffle(g)
                recs.append({"id": "e%d.%d" % (i, j), "kind": "pair", "hist": h, "other": g, "junk": False})
            cases.append({"id": "%d.%d" % (i, j), "header": HEADER, "rs": 'autocxx::include_cpp! {\n#include "input.h"\n' + D.render(g) + "}\n"})
    res = vl.run_axv(cases)
    for r in recs:
        i = r["id"][1:]
        a, b = res[i.split(".")[0] + ".0"], res[i]
        r["same"] = public(a) == public(b)
        r["text"] = D.render(r["hist"]) + " -- and -- " + D.render(r["other"])
    return recs, sum(r["status"] == "ok" for r in res.values())


def main():
    ck = vl.Check("P14")
    Q = ck.quick
    inv = "INVARIANTS OrderFree NotBoth OkIff MeaningIs %s\nCHECK_DEADLOCK FALSE\n"
    small = [v for i, v in enumerate(D.VOCAB) if v["d"] in ("generate", "generate_pod", "generate_ns", "generate_all", "pod", "block") or i % 3 == vl.SEED % 3]
    jobs = [("every pair", "SPECIFICATION Spec\n" + consts(2, 0) + inv % "Emit", dict(defs=defs(D.VOCAB))),
            ("every triple of some", "SPECIFICATION Spec\n" + consts(3, 0) + inv % "EmitFull", dict(defs=defs(small[:16] if Q else D.VOCAB))),
            ("argument lists", "SPECIFICATION ArgSpec\n" + consts(1, 0, 3 if Q else 4) + "INVARIANT Emit\nCHECK_DEADLOCK FALSE\n", dict(defs=defs(D.VOCAB)))]
    noall = [v for v in D.VOCAB if v["d"] != "generate_all"]
    noone = [v for v in D.VOCAB if not v["d"].startswith("generate") or v["d"] == "generate_all"]
    for k, (v, n) in enumerate([(noall, 12), (noone, 8), (D.VOCAB, 4), (noall, 40)]):
        jobs.append(("random lists of %d" % n, "SPECIFICATION SimSpec\n" + consts(n, 0) + inv % "EmitFull",
                     dict(defs=defs(v), extra=["-simulate", "num=%d" % (60 if Q else 1500), "-depth", "60", "-seed", str(vl.SEED + k)])))
    ev = engine_vocab()
    for k, (v, n) in enumerate([([x for x in ev if x["d"] != "generate_all"], 7), ([x for x in ev if not x["d"].startswith("generate") or x["d"] == "generate_all"], 5), ([x for x in ev if x["d"] != "generate_all"], 12)]):
        jobs.append(("lists of %d for the engine" % n, "SPECIFICATION SimSpec\n" + consts(n, 0) + inv % "EmitFull",
                     dict(defs=defs(v), extra=["-simulate", "num=%d" % (25 if Q else 400), "-depth", "60", "-seed", str(vl.SEED + k)])))
    rs = vl.tlc_many([("Config", c, kw) for _, c, kw in jobs])
    lists, eng = [], []
    for r, (n, _, _) in zip(rs, jobs):
        ck.model(r, n)
        if n.endswith("engine"):
            eng += r.lines("CASE:")
        else:
            lists += [(n, x) for x in r.lines("CASE:")]
    rnd = random.Random(vl.SEED)
    cases, recs = [], []
    for i, (n, h) in enumerate(lists):
        recs.append({"id": i, "kind": "list", "hist": h, "junk": False, "text": D.render(h, 0 if n == "argument lists" else i % 4)})
        if n.startswith("random"):
            # the same directives in another order
            g = list(h)
            rnd.shuffle(g)
            recs.append({"id": "s%d" % i, "kind": "list", "hist": g, "junk": False, "text": D.render(g, i % 4)})
    for i, (t, x) in enumerate(junk()):
        recs.append({"id": "j%d" % i, "kind": "list", "hist": [], "junk": True, "text": x})
    for k, part in enumerate(vl.chunks(recs, 500)):
        cases.append({"id": k, "probes": D.PROBES, "texts": [r["text"] for r in part]})
    res = vl.run_axv(cases, "config")
    for k, part in enumerate(vl.chunks(recs, 500)):
        if "results" not in res[k]:
            vl.die("the parser died: %s" % str(res[k])[:300])
        for r, o in zip(part, res[k]["results"]):
            r["ok"] = o["ok"]
            if o["ok"]:
                r["cfg"], r["back"] = o["cfg"], ({"ok": True, "cfg": o["back"]["cfg"]} if o["back"]["ok"] else {"ok": False})
    ps, nok = pairs(eng, rnd)
    lists_n = len(recs)
    recs += ps
    ck.cov["traces_validated_against_impl"] += len(recs)
    ck.cov["lists"] = {"valid": sum(r["ok"] for r in recs[:lists_n]), "refused": sum(not r["ok"] for r in recs[:lists_n]), "bound by the engine": nok, "pairs of orders": len(ps)}
    rej, st, tr = vl.validate("ConfigTrace", [{k: v for k, v in r.items() if k != "text"} for r in recs],
                              T["trace"].replace(" Values = {}\n ArgKinds = {}\n", " Values = {}\n ArgKinds = {}\n Probes = %s\n" % D.tla(set(D.PROBES))), chunk=2500, par=6)
    ck.cov["states"] += st
    ck.cov["transitions"] += tr
    byid = {r["id"]: r for r in recs}
    for j in rej:
        r = byid[j["id"]]
        ck.violation("%s %s" % (j["why"], " ".join(r["text"].split())), "%s: %s" % (j["why"], " ".join(r["text"].split())), r)
    ck.sample(*[r["text"] for r in recs[::max(1, len(recs) // 5)]][:5])
    ck.finish()


if __name__ == "__main__":
    main()
