"""P18: calling a bound function runs that C++ function with those arguments (spec/Calls.tla)."""
import json, os, shutil, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vl, wire, compile

q = lambda s: "{" + ", ".join('"%s"' % x for x in s) + "}"
KINDS = ("free", "static", "const", "mut", "vconst", "vmut", "ctor")


def consts(bases=tuple(wire.CPP), md=40, mc=150, mp=4, names=("f", "g", "h"), owners=tuple(wire.OWN), kinds=KINDS, dresses=("", "", "inline", "noexcept")):
    return "CONSTANTS Bases = %s\n MaxDecls = %d\n MaxCalls = %d\n MaxParams = %d\n Names = %s\n Owners = %s\n Kinds = %s\n Dresses = %s\n Keywords = %s\n" % (
        q(bases), md, mc, mp, q(names), q(owners), q(kinds), q(dresses), q(wire.KEYWORDS))


def show(d):
    return "%s %s::%s(%s) -> %s" % (d["kind"], d["owner"], d["name"], ", ".join("%s %s %s" % (p["b"], p["m"], p["how"]) for p in d["params"]), d["ret"])


def main():
    ck = vl.Check("P18")
    Q = ck.quick
    owners = [("root", "C"), ("n", "C2"), ("n::m", "In"), ("root", "C3")]
    each = [("Calls", "SPECIFICATION EachSpec\n" + consts(owners=o) + "INVARIANT EmitEach\nCHECK_DEADLOCK FALSE\n", {}) for o in (owners[vl.SEED % 4:][:1] if Q else owners)]
    inv = "INVARIANTS UniqueNames CallsOk StatesOk EmitSim\nCHECK_DEADLOCK FALSE\n"
    shapes = [(30, 150, 4, ("f", "g", "h"), tuple(wire.OWN)), (25, 120, 6, ("f",), tuple(wire.OWN)), (40, 150, 2, ("f", "g"), ("C2", "In")), (30, 150, 3, ("f", "g"), ("n", "n::m", "root")),
              (40, 160, 3, wire.WORDS, ("n", "n::m", "C", "C2", "In", "C3"))]
    sims = [("Calls", "SPECIFICATION SimSpec\n" + consts(md=md, mc=mc, mp=mp, names=nm, owners=ow, kinds=KINDS[:-1] if nm is wire.WORDS else KINDS, dresses=("", "inline", "words") if nm is wire.WORDS else ("", "", "inline", "noexcept")) + inv,
             dict(extra=["-simulate", "num=%d" % (8 if Q else 80), "-depth", "1000", "-seed", str(vl.SEED + k)])) for k, (md, mc, mp, nm, ow) in enumerate(shapes)]
    rs = vl.tlc_many(each + sims)
    decls = []
    for r in rs[:len(each)]:
        ck.model(r, "every type in every mode, one at a time")
        decls += [c["decls"][0] for c in r.lines("CASE:")]
    progs = wire.pack(decls, 320)
    for r, s in zip(rs[len(each):], shapes):
        ck.model(r, "random programs of %d functions" % s[0])
        progs += [{"decls": c["decls"], "names": c["names"], "calls": c["calls"]} for c in r.lines("CASE:")]
    tmp = tempfile.mkdtemp(prefix="wire_", dir=vl.WORK)
    try:
        for i, p in enumerate(progs):
            p["id"] = "p%d" % i
            for d, n in zip(p["decls"], p["names"]):
                d["rust"] = n
        cases = [wire.case(p["id"], p["decls"], False, tmp) for i, p in enumerate(progs)]
        res = vl.run_axv(cases)
        compile.rt()
        with ThreadPoolExecutor(vl.NCPU) as ex:
            out = list(ex.map(lambda p: wire.play(p, tmp, res[p["id"]]), progs))
        recs, broken = [], 0
        for p, (rec, err), cs in zip(progs, out, cases):
            if err and not rec["steps"]:
                ck.violation("build:" + err[:80], "a program of bound functions does not build or run: " + err[:600], {"header": cs["header"], "rs": cs["rs"], "error": err})
            else:
                recs.append(rec)
        ck.cov["traces_validated_against_impl"] += len(recs)
        rej, st, tr = vl.validate("CallsTrace", [{k: v for k, v in r.items()} for r in recs], consts(), chunk=4, par=8)
        for j in rej:
            p = next(p for p in progs if p["id"] == j["id"])
            rec = next(r for r in recs if r["id"] == j["id"])
            c = p["calls"][j["at"] - 1]
            d = p["decls"][c["f"] - 1]
            got = rec["steps"][j["at"] - 1] if j["at"] <= len(rec["steps"]) else "nothing"
            ck.violation(show(d) + " " + ",".join(sorted(j["why"])), "calling %s with %s: %s: recorded %s" % (show(d), c, sorted(j["why"]), json.dumps(got)), {"decls": p["decls"], "call": c, "step": got, "header": cases[progs.index(p)]["header"], "rs": cases[progs.index(p)]["rs"]})
        ck.add("functions", sum(len(p["decls"]) for p in progs))
        ck.add("calls", sum(len(r["steps"]) for r in recs))
        ck.add("programs", len(progs))
        ck.sample({"declaration": show(progs[-1]["decls"][0]), "call": progs[-1]["calls"][0], "recorded": recs[-1]["steps"][:1] if recs else None})
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    ck.finish()


if __name__ == "__main__":
    main()
