"""Replaying spec/Subclass.tla histories through real Rust subclasses of a C++ class."""
import json, shutil
import vl, driver

q = lambda s: "{" + ", ".join(('"%s"' % x) if isinstance(x, str) else str(x) for x in s) + "}"
ALL = ("new", "clone", "drop", "conv", "give", "fetch", "cppdel", "del", "delme", "super", "leave", "call", "rcall", "viaref")


def consts(slots=2, store=1, objs=2, ops=5, depth=3, modes=("rust", "cpp", "self"), names=ALL, kinds=(1, 2, 3, 4, 5, 6)):
    return "CONSTANTS NSlots = %d\n NStore = %d\n MaxObjs = %d\n MaxOps = %d\n MaxDepth = %d\n Modes = %s\n OpNames = %s\n Kinds = %s\n" % (
        slots, store, objs, ops, depth, q(modes), q(names), q(kinds))


INV = "INVARIANTS Settled Together CppWhole NoDangling NoLeaks Alone Emit\nCHECK_DEADLOCK FALSE\n"


def full(name, n, **kw):
    return name, n, "SPECIFICATION Spec\n" + consts(**kw) + INV, {}


def sim(name, num, **kw):
    return name, 10 ** 9, "SPECIFICATION SimSpec\n" + consts(**kw) + INV, \
        dict(extra=["-simulate", "num=%d" % num, "-depth", "%d" % (kw["ops"] * 6), "-seed", str(vl.SEED)])


def enc(o):
    n, s, t, c, k, x = o["n"], o["s"] - 1, o["t"] - 1, o["c"] - 1, o["k"], o["x"]
    return {"new": "new %d %s" % (s, o["m"]), "clone": "clone %d %d" % (s, t), "drop": "drop %d" % s, "conv": "conv %d" % s,
            "give": "give %d %d" % (s, c), "fetch": "fetch %d %d" % (c, s), "cppdel": "cppdel %d" % c, "del": "del %d" % s,
            "delme": "delme", "super": "super %d" % x, "leave": "leave", "call": "call %d %d %d" % (o["s"], k, x),
            "rcall": "rcall %d %d %d" % (s, k, x), "viaref": "viaref %d %d %d" % (s, k, x)}[n]


def reason(se):
    for w, m in (("destroyed", "called after subclass destroyed"), ("reentrant", "likely a re-entrant call")):
        if m in se:
            return w
    return "other"


def run(ck, models):
    d, err = driver.build("subclass")
    try:
        if err:
            ck.violation("build", "the bindings for a subclassed C++ class do not build: " + err[:800], {"error": err})
            return
        cases = []
        for (nm, n, cfg, ex), r in zip(models, vl.tlc_many([("Subclass", m[2], m[3]) for m in models])):
            ck.model(r, nm)
            cs = r.lines("CASE:")
            fatal, fine = [c for c in cs if c["dead"]], [c for c in cs if not c["dead"]]
            # (a history which stops the program costs a new process)
            cases += vl.seeded_pick(fine, n) + vl.seeded_pick(fatal, max(60, n // 20))
        vl.log("# %d histories, %d of which stop the program" % (len(cases), sum(1 for c in cases if c["dead"])))
        lines = ["%d %d %d %s" % (i, c["slots"], c["store"], ";".join(enc(o) for o in c["ops"])) for i, c in enumerate(cases)]
        res = driver.replay(d, lines)
        recs = []
        for i, c in enumerate(cases):
            r = res[str(i)]
            recs.append({"id": str(i), "ops": c["ops"], "crash": r["crash"], "reason": reason(r.get("stderr", "")) if r["crash"] else "", "sz": (c["slots"], c["store"]),
                         "steps": [{k: s[k] for k in ("ok", "ev", "slots", "store", "me", "peer")} for s in r["steps"]]})
        for sz in sorted({r["sz"] for r in recs}):
            part = [r for r in recs if r["sz"] == sz]
            rej, st, tr = vl.validate("SubclassTrace", part, consts(slots=sz[0], store=sz[1]))
            ck.cov["traces_validated_against_impl"] += len(part)
            for j in rej:
                i = int(j["id"])
                ops = [enc(o) for o in cases[i]["ops"]]
                at = j["at"]
                got = res[j["id"]]["steps"][at - 1] if 0 < at <= len(res[j["id"]]["steps"]) else res[j["id"]].get("stderr")
                ck.violation(json.dumps([ops[:at], sorted(j["why"])]), "%s at operation %d of %s: %s" % (sorted(j["why"]), at, ops, json.dumps(got)[:500]),
                             {"case": cases[i], "line": lines[i], "record": recs[i], "stderr": res[j["id"]].get("stderr")})
        ck.add("operations", sum(len(r["steps"]) for r in recs))
        ck.add("histories_that_stop_the_program", sum(1 for r in recs if r["crash"]))
        for r in recs[:1] + recs[-1:]:
            ck.sample({"ops": [enc(o) for o in r["ops"]][:14], "events": [s["ev"] for s in r["steps"]][:8]})
    finally:
        shutil.rmtree(d, ignore_errors=True)
