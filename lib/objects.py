"""Replaying spec/Objects.tla histories through the real holders and parameter passing."""
import json, shutil
import vl, driver

q = lambda s: "{" + ", ".join(('"%s"' % x) if isinstance(x, str) else str(x) for x in s) + "}"
CLASSES = ("full", "mo", "co", "alloc")
KINDS = ("up", "bx", "cp", "upp")
MODES = ("ref", "upref", "bxref", "cref", "cup", "cbx", "up", "bx", "mup", "mbx", "mst", "new", "mk")
RMODES = ("up", "bx", "st")
PASS = ("take", "take2", "rtake", "rsteal", "vr", "rv", "echo", "sink", "sinkbx", "put", "vput", "sput")
HOLD = ("new", "make", "makeup", "null", "copy", "mov", "drop", "shift", "conv", "raw", "set", "refs", "stack", "stackmake", "passup", "borrow")


def consts(slots=2, classes=CLASSES, kinds=KINDS, start=(), vals=(1, 2), ops=HOLD, modes=MODES, rmodes=RMODES, maxops=1):
    return """CONSTANTS NSlots = %d
 Classes = %s
 Kinds = %s
 StartKinds = %s
 Vals = %s
 OpNames = %s
 Modes = %s
 RModes = %s
 MaxOps = %d
""" % (slots, q(classes), q(kinds), q(start), q(vals), q(ops), q(modes), q(rmodes), maxops)


def one(name, n, **kw):
    return name, n, "SPECIFICATION OneSpec\n" + consts(**kw) + "INVARIANTS Sane Kept EmitOne\nCHECK_DEADLOCK FALSE\n", {}


def full(name, n, **kw):
    return name, n, "SPECIFICATION Spec\n" + consts(**kw) + "INVARIANTS Sane EmitAll\nCHECK_DEADLOCK FALSE\n", {}


def sim(name, num, **kw):
    return name, 10 ** 9, "SPECIFICATION SimSpec\n" + consts(**kw) + "INVARIANTS Sane EmitSim\nCHECK_DEADLOCK FALSE\n", \
        dict(extra=["-simulate", "num=%d" % num, "-depth", "%d" % (kw["maxops"] * 8), "-seed", str(vl.SEED)])


def enc(o):
    a = lambda x: "%s:%d:%d" % (x["m"], x["s"] - 1, x["v"])
    n, s, t = o["n"], o["s"] - 1, o["t"] - 1
    if n in ("new", "make"):
        return "%s %d %s %d" % (n, s, o["k"], o["v"])
    if n in ("makeup", "set"):
        return "%s %d %d" % (n, s, o["v"])
    if n in ("null", "drop", "conv", "raw", "refs", "passup"):
        return "%s %d" % (n, s)
    if n in ("copy", "mov"):
        return "%s %d %d %s" % (n, s, t, o["k"])
    if n in ("shift", "borrow"):
        return "%s %d %d" % (n, s, t)
    if n == "stack":
        return "stack %d %d" % (o["v"], o["v"] + 5)
    if n == "stackmake":
        return "stackmake %d" % o["v"]
    if n == "echo":
        return "echo %s %d %s" % (a(o["a"]), t, o["k"])
    if n in ("take2", "vr", "rv"):
        return "%s %s %s" % (n, a(o["a"]), a(o["b"]))
    return "%s %s" % (n, a(o["a"]))


def run(ck, models, always=lambda c: False):
    d, err = driver.build("objects")
    try:
        if err:
            ck.violation("build", "the bindings for the instrumented classes do not build: " + err[:800], {"error": err})
            return
        cases = []
        for (nm, n, cfg, ex), r in zip(models, vl.tlc_many([("Objects", m[2], m[3]) for m in models])):
            ck.model(r, nm)
            cs = [c for c in r.lines("CASE:") if c["ops"]]
            cases += vl.seeded_pick(cs, n)
        vl.log("# %d histories" % len(cases))
        lines = ["%d %s %d %s" % (i, c["c"], c["n"], ";".join(enc(o) for o in c["ops"])) for i, c in enumerate(cases)]
        res = driver.replay(d, lines)
        recs = []
        for i, c in enumerate(cases):
            r = res[str(i)]
            recs.append({"id": str(i), "c": c["c"], "ops": c["ops"][:len(r["steps"])], "steps": r["steps"], "crash": r["crash"], "n": c["n"]})
        for k in sorted({r["n"] for r in recs}):
            part = [r for r in recs if r["n"] == k]
            rej, st, tr = vl.validate("ObjectsTrace", part, consts(slots=k, start=("none",)))
            ck.cov["traces_validated_against_impl"] += len(part)
            for j in rej:
                i = int(j["id"])
                ops = [enc(o) for o in cases[i]["ops"]]
                ck.violation(json.dumps([cases[i]["c"], ops[:j["at"]] if not recs[i]["crash"] else ops, sorted(j["why"])]),
                             "%s at operation %d of %s on class %s: %s" % (sorted(j["why"]), j["at"], ops, cases[i]["c"], json.dumps(recs[i]["steps"][j["at"] - 1] if j["at"] else res[j["id"]])[:400]),
                             {"case": cases[i], "line": lines[i], "record": recs[i]})
        ck.add("operations", sum(len(r["steps"]) for r in recs))
        ck.add("events", sum(len(s["ev"]) for r in recs for s in r["steps"]))
        for r in recs[:1] + recs[-1:]:
            ck.sample({"class": r["c"], "ops": [enc(o) for o in r["ops"]][:12], "events": [s["ev"] for s in r["steps"]][:4]})
    finally:
        shutil.rmtree(d, ignore_errors=True)
