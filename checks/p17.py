"""P17: the command-line generator writes exactly the promised set of files (spec/Gen.tla)."""
import json, os, sys
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vl, gencli

OPT = "[cpp |-> %s, rs |-> %s, archive |-> %s, fix |-> %s, cxxh |-> FALSE, exact |-> %d, ext |-> \"cc\", prefix |-> \"\", relative |-> \"none\", dir |-> \"\"]"


def options():
    T = ("TRUE", "FALSE")
    return [OPT % (c, r, a, f, e) for c in T for r in T for a in T for f in T for e in (0, 1, 2, 3, 4, 5)]


def consts(runs, files, sections, kinds='{"bare", "wrap", "sub", "bridge"}', names='{"", "x"}', headers="{1, 2}", opts=()):
    return ("CONSTANTS Kinds = %s\n Names = %s\n Headers = %s\n MaxFiles = %d\n MaxSections = %d\n MaxRuns = %d\n MaxExact = 6\n"
            % (kinds, names, headers, files, sections, runs)), {"OptionSets": "{%s}" % ", ".join(opts)}


INV = "INVARIANTS ExactCounts Wired Idempotent Promise %s\nCHECK_DEADLOCK FALSE\n"


def main():
    ck = vl.Check("P17")
    Q = ck.quick
    small = [o for i, o in enumerate(options())]
    jobs = []

    def job(spec, emit, c, defs, **kw):
        return ("Gen", "SPECIFICATION %s\n" % spec + c + INV % emit, dict(defs=defs, **kw))
    c, d = consts(1, 1, 2, opts=small)
    jobs.append(job("Spec", "Emit", c, d))
    T, F = "TRUE", "FALSE"
    c, d = consts(2, 2, 1, kinds='{"sub", "bridge"}' if Q else '{"wrap", "sub", "bridge"}', names='{""}', opts=[OPT % (T, F, F, F, 0), OPT % (F, T, F, F, 0), OPT % (T, T, T, T, 5)])
    jobs.append(job("Spec", "Emit" if not Q else "", c, d))
    nsim = 60 if Q else 700
    c, d = consts(6, 3, 3, opts=["[a |-> 1]"])
    jobs.append(job("SimSpec", "EmitFull", c, d, extra=("-simulate", "num=%d" % nsim, "-depth", "8", "-seed", str(vl.SEED))))
    rs = vl.tlc_many(jobs)
    for r, n in zip(rs, ("single runs", "two runs", "long histories")):
        ck.model(r, n)
    one = rs[0].lines("CASE:")
    two = [] if Q else [x for x in rs[1].lines("CASE:") if len(x) == 2]
    sim = rs[2].lines("CASE:")
    n1, n2 = (130, 0) if Q else (2500, 1500)
    cases = vl.seeded_pick(one, n1) + vl.seeded_pick(two, n2) + sim
    vl.axv()
    exe = os.path.join(os.path.dirname(vl.axv()), "autocxx-gen")
    with ThreadPoolExecutor(vl.NCPU) as ex:
        got = list(ex.map(lambda h: gencli.history(exe, h), cases))
    recs = [{"id": "h%d" % i, "runs": g} for i, g in enumerate(got)]
    allruns = [r for g in got for r in g]
    ck.cov["traces_validated_against_impl"] += len(recs)
    ck.cov["runs"] = {"histories": len(recs), "runs": len(allruns), "succeeded": sum(r["ok"] for r in allruns), "files": sum(len(r["out"]) for r in allruns)}
    c, d = consts(6, 3, 3, opts=["[a |-> 1]"])
    rej, st, tr = vl.validate("GenTrace", recs, "CONSTANTS Kinds = {\"bare\", \"wrap\", \"sub\", \"bridge\"}\n Names = {\"\", \"x\"}\n Headers = {1, 2}\n MaxFiles = 3\n MaxSections = 3\n MaxRuns = 6\n OptionSets = {}\n MaxExact = 6\n", chunk=40)
    ck.cov["states"] += st
    ck.cov["transitions"] += tr
    byid = {r["id"]: r for r in recs}
    for j in rej:
        r = byid[j["id"]]
        n = int(j["why"].split(":")[0].split()[1])
        brief = [{"files": [["%(kind)s %(hdr)d %(name)s" % s for s in f] for f in x["files"]], "opts": x["opts"], "vers": x["vers"]} for x in r["runs"][:n]]
        ck.violation(json.dumps([brief, j["why"]], sort_keys=True), "%s; history %s" % (j["why"], json.dumps(brief)), r)
    ck.sample(*recs[:: max(1, len(recs) // 4)])
    ck.finish()


if __name__ == "__main__":
    main()
