"""P16: where the macro looks for bindings and where the builder puts them (spec/Locations.tla)."""
import itertools, json, os, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vl

q = lambda s: "{" + ", ".join('"%s"' % x for x in s) + "}"


def consts(kinds=("absent", "good", "other", "empty", "garbage"), n=2, names=("", "ffi2")):
    return "CONSTANTS ArchiveKinds = %s\n MaxArchives = %d\n FileVals = %s\n DirVals = %s\n OutVals = %s\n Names = %s\n GenDirs = %s\n" % (
        q(kinds), n, q(("", "@/some/x.rs")), q(("", "@/rsdir")), q(("", "@/out")), q(names), q(("", "@/gen")))


def text(name, parse_only=False):
    return '#include "a.h"\n generate!("f")\n' + ("name!(%s)\n" % name if name else "") + ("parse_only!()\n" if parse_only else "")


def environ(e, paths):
    r = {}
    if e["json"]["set"]:
        r["AUTOCXX_RS_JSON_ARCHIVE"] = ":".join(paths)
    for k, v in (("file", "AUTOCXX_RS_FILE"), ("rs", "AUTOCXX_RS"), ("out", "OUT_DIR")):
        if e[k]:
            r[v] = e[k]
    return r


def reading(s):
    """How the tokens the macro expands to find the bindings."""
    s = s.strip()
    if s == "panic":
        return "fail", ""
    if s == "":
        return "nothing", ""
    m = re.fullmatch(r"from_a(\d+)_json\s*;", s)
    if m:
        return "archive", m.group(1)
    if "include" in s:
        parts = re.findall(r'(env\s*!\s*\(\s*)?r?#*"([^"]*)"', s)
        return "include", "".join(("$" if a else "") + b for a, b in parts)
    return "other", s


def stream(exe, sub, cases):
    """Runs cases, keeping what the code under test itself prints before each result."""
    p = subprocess.run([exe, sub], input="\n".join(json.dumps(c) for c in cases) + "\n", text=True, capture_output=True, env=vl.ENV, timeout=800)
    out, said = {}, []
    for l in p.stdout.splitlines():
        try:
            v = json.loads(l)
        except ValueError:
            v = None
        if isinstance(v, dict) and "id" in v:
            out[v["id"]] = (v, said)
            said = []
        else:
            said.append(l)
    return out


H = "#pragma once\n#include <string>\ninline int f(int a) { return a; }\nstd::string g();\n"
MODS = [[""], ["ffi2"], ["", "ffi2"], ["ffi3", "ffi2", ""], ["ffi2", "ffi2"], ["", "ffi"], ["x"]]


def source(names, nested):
    t = ""
    for i, n in enumerate(names):
        s = 'autocxx::include_cpp! {\n%s\nsafety!(unsafe)\n%s}\n' % (text(n), 'generate!("g")' if i % 2 else "")
        t += "mod m%d { %s }\n" % (i, s) if nested and i % 2 == 0 else s
    return t


def main():
    ck = vl.Check("P16")
    Q = ck.quick
    inv = "INVARIANTS ReadsWhatWasBuilt ArchiveFirst Emit\nCHECK_DEADLOCK FALSE\n"
    r = vl.tlc("Locations", "SPECIFICATION Spec\n" + consts(n=2 if Q else 3, names=("", "ffi2", "ffi")) + inv)
    ck.model(r, "every environment, every invocation")
    cases = r.lines("CASE:")
    exe = vl.axv()
    todo = []
    for i, c in enumerate(cases):
        ar = {"a%d.json" % (k + 1): kind for k, kind in enumerate(c["env"]["json"]["list"])}
        todo.append({"id": i, "text": text(c["name"], c["parse_only"]), "archives": ar, "env": environ(c["env"], ["@/" + n for n in ar])})
    recs = []
    with ThreadPoolExecutor(vl.NCPU) as ex:
        res = {}
        for o in ex.map(lambda p: stream(exe, "locate", p), vl.chunks(todo, -(-len(todo) // 8))):
            res.update(o)
    for i, c in enumerate(cases):
        how, what = reading(res[i][0].get("result", "died")) if i in res else ("died", "")
        recs.append(dict(c, id="m%d" % i, kind="macro", how=how, what=what))
    # the builder, then the macro in what it leaves behind
    noj, json1 = {"set": False, "list": []}, {"set": True, "list": ["good"]}
    builds = []
    for mods, nested, gen in itertools.product(MODS, (False, True), ("", "@/gen")):
        for j, f, rs, out in itertools.product((noj, json1), ("", "@/some/x.rs"), ("", "@/rsdir"), ("", "@/out")):
            if (j["set"] or f) and (nested or mods not in MODS[:2]):
                continue
            builds.append({"env": {"json": j, "file": f, "rs": rs, "out": out}, "gen": gen, "names": mods, "nested": nested})
    tmp = tempfile.mkdtemp(prefix="loc_", dir=vl.WORK)
    try:
        todo = []
        for i, b in enumerate(builds):
            b["id"] = "b%d" % i
            d = os.path.join(tmp, b["id"])
            os.makedirs(d)
            todo.append({"id": b["id"], "dir": d, "headers": {"a.h": H}, "rs": source(b["names"], b["nested"]), "gendir": b["gen"] or None,
                         "env": environ(b["env"], ["@/a1.json"]), "lookups": []})
        with ThreadPoolExecutor(vl.NCPU) as ex:
            res = {}
            for o in ex.map(lambda p: stream(exe, "builder", p), vl.chunks(todo, -(-len(todo) // 8))):
                res.update(o)
        looks = []
        for b, t in zip(builds, todo):
            v, said = res.get(b["id"], ({"status": "died"}, []))
            told = [l.split("AUTOCXX_RS=", 1)[1] for l in said if re.match(r"cargo:{1,2}rustc-env=AUTOCXX_RS=", l)]
            rel = lambda l: ["@/" + x for x in l]
            b.update(kind="build", status="ok" if v["status"] == "ok" else v["status"].split(":")[0], files=rel(v.get("files", [])), listed=rel(v.get("rs", []) + v.get("cpp", [])),
                     told=(told[-1].replace(t["dir"], "@") if told else ""), reads=[])
            e = dict(b["env"], rs=b["told"] or b["env"]["rs"])
            for k, n in enumerate(b["names"]):
                looks.append({"id": "%s.%d" % (b["id"], k), "text": text(n), "archives": {"a1.json": "good"}, "env": environ(e, ["@/a1.json"])})
        look = stream(exe, "locate", looks)
        for b in builds:
            for k in range(len(b["names"])):
                how, what = reading(look["%s.%d" % (b["id"], k)][0].get("result", "died"))
                b["reads"].append({"how": how, "what": what})
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    recs += builds
    ck.cov["traces_validated_against_impl"] += len(recs)
    ck.cov["environments"] = {"macro": len(cases), "builder": len(builds), "built": sum(b["status"] == "ok" for b in builds)}
    rej, st, tr = vl.validate("LocationsTrace", recs, consts(), par=4)
    ck.cov["states"] += st
    ck.cov["transitions"] += tr
    byid = {r["id"]: r for r in recs}
    for j in rej:
        r = byid[j["id"]]
        e = r["env"]
        if r["kind"] == "build" and j["why"] == "the macro reads a file the builder did not write" and not r["gen"] and e["rs"] and not e["json"]["set"] and not e["file"]:
            key = "autocxx-rs-while-building"
        else:
            key = "%s %s %s" % (r["kind"], json.dumps(e, sort_keys=True), j["why"])
        ck.violation(key, "%s in environment %s (%s): %s" % (r["kind"], json.dumps(environ(e, e["json"]["list"])), json.dumps({k: r[k] for k in ("name", "parse_only", "names", "gen") if k in r}), j["why"]), r)
    ck.sample(*recs[:: max(1, len(recs) // 5)])
    ck.finish()


if __name__ == "__main__":
    main()
