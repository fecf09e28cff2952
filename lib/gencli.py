"""Runs histories of the real command-line generator (spec/Gen.tla)."""
import os, re, shutil, subprocess, tempfile
import vl

BLANK = "// Blank autocxx placeholder"
TYPES = {1: "bool", 2: "float"}


def header(h, v):
    t = TYPES[v]
    return """#pragma once
#include "d%(h)d.h"
inline %(t)s bare%(h)d(%(t)s a) { return a; }
inline %(t)s linkfn%(h)d() { return 0; }
struct S%(h)d { %(t)s a; S%(h)d(); S%(h)d(const S%(h)d&); ~S%(h)d(); };
inline S%(h)d wrap%(h)d(S%(h)d s) { return s; }
class Osub%(h)d { public: virtual %(t)s msub%(h)d(%(t)s) const = 0; virtual ~Osub%(h)d() {} };
""" % {"h": h, "t": t}


def section(s, v):
    h, k = s["hdr"], s["kind"]
    if k == "bridge":
        t = '#[cxx::bridge]\nmod br { unsafe extern "C++" { include!("h%d.h"); fn linkfn%d() -> %s; } }\n' % (h, h, {1: "bool", 2: "f32"}[v[h - 1]])
    else:
        want = {"bare": 'generate!("bare%d") exclude_utilities!()', "wrap": 'generate!("wrap%d")', "sub": 'subclass!("Osub%d",Sub%d)'}[k]
        want = want % ((h, h) if k == "sub" else h)
        t = 'autocxx::include_cpp! {\n#include "h%d.h"\n%ssafety!(unsafe)\n%s\n}\n' % (h, "name!(%s)\n" % s["name"] if s["name"] else "", want)
    return t


def source(file, v):
    return "".join("mod n%d {\n%s}\n" % (i, section(s, v)) if s["nested"] else section(s, v) for i, s in enumerate(file))


def parse_depfile(text):
    """[(output, [dependencies])], as make reads it."""
    out = []
    for rule in text.replace("\\\n", " ").split("\n"):
        if not rule.strip():
            continue
        words, w, i = [], "", 0
        while i < len(rule):
            c = rule[i]
            if c == "\\" and i + 1 < len(rule) and rule[i + 1] in " #\\":
                w += rule[i + 1]
                i += 1
            elif c == "$" and rule[i + 1:i + 2] == "$":
                w += "$"
                i += 1
            elif c == "#":
                break
            elif c.isspace():
                words += [w] if w else []
                w = ""
            else:
                w += c
            i += 1
        words += [w] if w else []
        targets = [x for x in words if x.endswith(":")]
        n = words.index(targets[0]) if targets else 0
        out += [(" ".join(words[:n + 1]).rstrip(":"), words[n + 1:])]
    return out


MARK = re.compile(r"(bare|wrap|linkfn|sub)(\d)(?!\d)")
INC = re.compile(r'^\s*#\s*include "([^"]*)"|include ?! ?\( ?\\?"([^"\\]*)\\?" ?\)', re.M)


def describe(data, name):
    text = data.decode(errors="replace")
    incs = {a or b for a, b in INC.findall(text)} - {"cxx.h"}
    if name == "cxx.h":
        return {"marks": [], "incs": [], "blank": text == BLANK, "empty": not text}
    marks = {a.replace("linkfn", "bridge") + b for a, b in MARK.findall(text)}
    return {"marks": sorted(marks), "incs": sorted(incs), "blank": text == BLANK, "empty": not text}


def command(exe, o, nfiles, root, outdir, depfile):
    """The command line, run in root."""
    inc = "inc" + o["dir"]
    rel = o["relative"]
    cmd = [exe] + ["in%d.rs" % i for i in range(nfiles)] + ["-I", inc if rel in ("all", "out", "up") else os.path.join(root, inc)]
    cmd += ["--outdir", outdir if rel in ("all", "out", "up") else os.path.join(root, outdir)]
    cmd += ["--depfile", depfile if rel in ("all", "dep") else os.path.join("..", os.path.basename(root), depfile) if rel == "up" else os.path.join(root, depfile)]
    for k, f in (("cpp", "--gen-cpp"), ("rs", "--gen-rs-include"), ("archive", "--gen-rs-archive"), ("fix", "--fix-rs-include-name"), ("cxxh", "--generate-cxx-h")):
        cmd += [f] if o[k] else []
    cmd += ["--generate-exact", str(o["exact"] - 1)] if o["exact"] else []
    cmd += ["--cpp-extension", o["ext"]] if o["ext"] != "cc" else []
    cmd += ["--cxxgen-h-path", o["prefix"]] if o["prefix"] else []
    return cmd


def snapshot(d):
    r = {}
    for base, _, fs in os.walk(d):
        for f in fs:
            p = os.path.join(base, f)
            r[os.path.relpath(p, d)] = open(p, "rb").read()
    return r


OLD = 1000000000


def history(exe, runs):
    """What each run of a history did."""
    root = os.path.realpath(tempfile.mkdtemp(prefix="gen_", dir=vl.WORK))
    res = []
    try:
        env = {k: v for k, v in vl.ENV.items() if not k.startswith("AUTOCXX_RS")}
        for n, r in enumerate(runs):
            o, v = r["opts"], r["vers"]
            inc = os.path.join(root, "inc" + o["dir"])
            os.makedirs(inc, exist_ok=True)
            for h in range(1, len(v) + 1):
                open(os.path.join(inc, "h%d.h" % h), "w").write(header(h, v[h - 1]))
                open(os.path.join(inc, "d%d.h" % h), "w").write("#pragma once\n")
            for i, f in enumerate(r["files"]):
                open(os.path.join(root, "in%d.rs" % i), "w").write(source(f, v))
            out = "out" + runs[0]["opts"]["dir"]
            outp = os.path.join(root, out)
            for f in snapshot(outp):
                os.utime(os.path.join(outp, f), (OLD, OLD))
            dep = os.path.join(root, "deps.d")

            def go(outdir):
                return subprocess.run(command(exe, o, len(r["files"]), root, outdir, "deps.d"), cwd=root, env=env, capture_output=True, text=True, errors="replace", timeout=300)
            p = go(out)
            rec = dict(r, ok=p.returncode == 0, said=" ".join((p.stderr + p.stdout)[:200].split()), out=[], outputs=[], deps=[])
            if rec["ok"]:
                deps = parse_depfile(open(dep).read())
                place = lambda x: os.path.normpath(os.path.join(root, x))
                names = [os.path.relpath(place(a), outp) for a, _ in deps]
                rec["outputs"] = sorted(set(names))
                rec["deps"] = [sorted({os.path.relpath(place(x), inc) if place(x).startswith(inc + "/") else "(%s)" % x for x in b if not place(x).startswith("/usr/")}) for _, b in deps]
                rec["deps"] = [list(x) for x in sorted(set(map(tuple, rec["deps"])))]
                shutil.rmtree(os.path.join(root, "fresh"), ignore_errors=True)
                q = go("fresh")
                fresh = snapshot(os.path.join(root, "fresh")) if q.returncode == 0 else {}
                now = snapshot(outp)
                for f, data in sorted(now.items()):
                    rec["out"].append(dict(describe(data, f), name=f, fresh=fresh.get(f) == data, rewritten=int(os.stat(os.path.join(outp, f)).st_mtime) != OLD))
            res.append(rec)
        return res
    finally:
        shutil.rmtree(root, ignore_errors=True)
