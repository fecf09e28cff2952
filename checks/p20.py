"""P20: conversions to base classes (spec/Upcasts.tla)."""
import json, os, shutil, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vl, compile, upcasts

q = lambda s: "{" + ", ".join(('"%s"' % x) if isinstance(x, str) else str(x).upper() for x in s) + "}"
BOTH = (False, True)


def consts(n=3, bases=2, accs=("public", "protected", "private", "default"), virts=BOTH, aliases=BOTH, kinds=("struct", "class"), schemes=("distinct", "namespaces", "nested"), pures=BOTH, bounds=BOTH):
    return "CONSTANTS MaxClasses = %d\n MaxBases = %d\n Accs = %s\n Virts = %s\n Aliases = %s\n KindsOf = %s\n Schemes = %s\n Pures = %s\n Bounds = %s\n" % (
        n, bases, q(accs), q(virts), q(aliases), q(kinds), q(schemes), q(pures), q(bounds))


INV = "INVARIANTS Denotes OneWay Complete Emit\nCHECK_DEADLOCK FALSE\n"


def show(c):
    return "; ".join("%s%s%s C%d%s" % ("" if x["bound"] else "unbound ", "pure " if x["pure"] else "", x["kind"], i + 1, (": " + ", ".join(
        ("virtual " if b["virt"] else "") + ("" if b["acc"] == "default" else b["acc"] + " ") + ("alias of " if b["alias"] else "") + "C%d" % b["c"] for b in x["bases"])) if x["bases"] else "") for i, x in enumerate(c["classes"])) + " (%s names)" % c["scheme"]


def hidden_ambiguity(c):
    """Whether a direct base is ambiguous because it is also the virtual base of another base."""
    cs = c["classes"]

    def virtual(i, v=False):
        for b in cs[i - 1]["bases"]:
            if v or b["virt"]:
                yield b["c"]
            yield from virtual(b["c"], v or b["virt"])
    return any(not b["virt"] and b["c"] in set(virtual(i + 1)) for i, x in enumerate(cs) for b in x["bases"])


def main():
    ck = vl.Check("P20")
    Q = ck.quick
    F, T = (False,), (True,)
    jobs = [("Upcasts", "SPECIFICATION Spec\n" + consts(n=2, bases=1) + INV, {}),
            ("Upcasts", "SPECIFICATION Spec\n" + consts(n=3, bases=2, virts=F, aliases=F, kinds=("class",), schemes=("distinct",), pures=F, bounds=T, accs=("public", "private")) + INV, {}),
            ("Upcasts", "SPECIFICATION Spec\n" + consts(n=4, bases=2 if Q else 3, virts=F if Q else BOTH, aliases=F, kinds=("struct",), schemes=("distinct",), pures=F, bounds=T, accs=("default",) if Q else ("public", "private")) + INV, {})]
    names = ["two classes", "three classes", "four classes"]
    for n, num in ((4, 150 if Q else 1500), (7, 80 if Q else 800)):
        jobs.append(("Upcasts", "SPECIFICATION SimSpec\n" + consts(n=n, bases=3) + INV, dict(extra=("-simulate", "num=%d" % num, "-depth", str(n + 2), "-seed", str(vl.SEED + n)))))
        names.append("random graphs of %d classes" % n)
    rs = vl.tlc_many(jobs)
    cases = []
    for r, n in zip(rs, names):
        ck.model(r, n)
        cases += vl.seeded_pick(r.lines("CASE:"), 160 if Q else 1500)
    for i, c in enumerate(cases):
        c["id"] = "u%d" % i
        c["chains"] = [s for s in c["chains"]][:40]
    progs = {"p%d" % i: cs for i, cs in enumerate([cases[i:i + 8] for i in range(0, len(cases), 8)])}
    tmp = tempfile.mkdtemp(prefix="up_", dir=vl.WORK)
    recs = []
    try:
        res = vl.run_axv([upcasts.case(p, cs, tmp) for p, cs in progs.items()])
        compile.rt()
        again = []
        with ThreadPoolExecutor(vl.NCPU) as ex:
            for (p, cs), (got, err) in zip(progs.items(), ex.map(lambda p: upcasts.play(p, progs[p], tmp, res[p]), progs)):
                if err:
                    again += [(c, err) for c in cs]
                else:
                    recs += got
        # a program which does not build is taken apart
        alone = {"a%d" % i: [c] for i, (c, _) in enumerate(again[:200])}
        res = vl.run_axv([upcasts.case(p, cs, tmp) for p, cs in alone.items()]) if alone else {}
        with ThreadPoolExecutor(vl.NCPU) as ex:
            for (p, cs), (got, err) in zip(alone.items(), ex.map(lambda p: upcasts.play(p, alone[p], tmp, res[p]), alone)):
                if err and "is an ambiguous base" in err and hidden_ambiguity(cs[0]):
                    ck.violation("build: ambiguous with a virtual base", "bindings of classes with a direct base which is also a virtual base of another base do not build: %s" % show(cs[0]), cs[0])
                elif err:
                    ck.violation("build: " + show(cs[0]), "bindings of these classes do not build or run: %s: %s" % (show(cs[0]), err[:400]), cs[0])
                else:
                    recs += got
        if again and not any(v for v in alone):
            ck.violation("build", again[0][1][:600], {})
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    ck.cov["traces_validated_against_impl"] += len(recs)
    ck.add("graphs", len(recs))
    ck.add("conversions", sum(len(r["steps"]) for r in recs))
    rej, st, tr = vl.validate("UpcastsTrace", recs, consts(n=7, bases=3))
    ck.cov["states"] += st
    ck.cov["transitions"] += tr
    byid = {r["id"]: r for r in recs}
    for j in rej:
        r = byid[j["id"]]
        ck.violation("%s: %s" % (j["why"], show(r)), "%s in %s" % (j["why"], show(r)), r)
    ck.sample(*[{"classes": show(r), "offered": r["offered"], "steps": r["steps"][:4]} for r in recs[:: max(1, len(recs) // 5)]])
    ck.finish()


if __name__ == "__main__":
    main()
