"""Compiling (and running) generated bindings with the real compilers, against autocxx and cxx
built from /repo's current tree."""
import atexit, glob, json, os, re, subprocess, shutil, tempfile
from concurrent.futures import ThreadPoolExecutor
import vl

_rt = None


def rt():
    global _rt
    if _rt:
        return _rt
    d = os.path.join(vl.VERIF, "rt")
    p = subprocess.run(["cargo", "build", "--offline", "-q", "--message-format=json"], cwd=d, env=vl.ENV, capture_output=True, text=True)
    if p.returncode:
        import sys
        sys.stderr.write(p.stderr[-4000:])
        for l in p.stdout.splitlines():
            try:
                m = json.loads(l)
                if m.get("reason") == "compiler-message":
                    sys.stderr.write((m["message"].get("rendered") or "")[:3000])
            except ValueError:
                pass
        vl.die("cargo build of the runtime crates failed")
    ext = {}
    for l in p.stdout.splitlines():
        try:
            m = json.loads(l)
        except ValueError:
            continue
        if m.get("reason") == "compiler-artifact" and m["target"]["name"] in ("autocxx", "cxx", "moveit") and "lib" in m["target"]["kind"]:
            ext[m["target"]["name"]] = [f for f in m["filenames"] if f.endswith(".rlib")][0]
    _rt = (ext, os.path.join(d, "target", "debug", "deps"))
    return _rt


def rustc_cmd():
    ext, deps = rt()
    c = ["rustc", "--edition=2021", "-L", "dependency=" + deps, "-Awarnings", "--error-format=short"]
    for k, v in ext.items():
        c += ["--extern", "%s=%s" % (k, v)]
    return c


_pch = []


def pch():
    """Options which make g++ start from precompiled standard headers."""
    if not _pch:
        d = tempfile.mkdtemp(prefix="pch_", dir=vl.WORK)
        atexit.register(shutil.rmtree, d, True)
        open(os.path.join(d, "pre.h"), "w").write("".join("#include <%s>\n" % h for h in (
            "algorithm array cstddef cstdint cstring exception initializer_list iterator memory new stdexcept string string_view "
            "type_traits utility vector iosfwd cassert cstdlib functional map").split()))
        p = subprocess.run(["g++", "-std=c++14", "-w", "-x", "c++-header", "pre.h", "-o", "pre.h.gch"], cwd=d, capture_output=True, text=True)
        if p.returncode:
            vl.die("precompiling headers failed: " + p.stderr)
        _pch.extend(["-include", os.path.join(d, "pre.h")])
    return _pch


def cpp_errors(outdir, extra=()):
    errs = []
    for f in sorted(glob.glob(os.path.join(outdir, "gen*.cc"))):
        p = subprocess.run(["g++", "-std=c++14", "-w", "-fsyntax-only", "-I", outdir, *extra, f], capture_output=True, text=True, errors="replace")
        if p.returncode:
            errs += [l for l in p.stderr.splitlines() if "error" in l] or [p.stderr[-300:] or "g++ failed"]
    return errs


def rust_errors(outdir, src="input.rs"):
    s = os.path.join(outdir, src)
    p = subprocess.run(rustc_cmd() + ["--crate-type", "lib", "--crate-name", "t", "--emit=metadata", "-o", os.path.join(outdir, "t.rmeta"), s],
                       capture_output=True, text=True, errors="replace", env=dict(vl.ENV, AUTOCXX_RS=outdir))
    if p.returncode:
        return [l for l in p.stderr.splitlines() if "error" in l] or [p.stderr[-300:] or "rustc failed"]
    return []


def errors(outdir):
    return {"cpp": cpp_errors(outdir), "rust": rust_errors(outdir)}


def errors_many(outdirs, jobs=vl.NCPU):
    rt()
    with ThreadPoolExecutor(jobs) as ex:
        return list(ex.map(errors, outdirs))


def build_exe(outdir, src="main.rs", cflags=(), rflags=(), objs=(), jobs=4):
    """Compiles the generated C++ and the Rust program src into outdir/prog. Returns error text or None."""
    os_ = list(objs)

    def cc(f):
        o = f[:-3] + ".o"
        p = subprocess.run(["g++", "-std=c++14", "-w", "-g0", "-c", "-I", outdir, *cflags, f, "-o", o], capture_output=True, text=True, errors="replace")
        return o, (p.stderr if p.returncode else None)
    with ThreadPoolExecutor(jobs) as ex:
        for o, e in ex.map(cc, sorted(glob.glob(os.path.join(outdir, "*.cc")))):
            if e:
                return "C++: " + e[-3000:]
            os_.append(o)
    cmd = rustc_cmd() + ["--crate-type", "bin", "--crate-name", "prog", "-o", os.path.join(outdir, "prog"), *rflags, os.path.join(outdir, src)]
    for o in os_:
        cmd += ["-C", "link-arg=" + o]
    cmd += ["-C", "link-arg=-lstdc++"]
    p = subprocess.run(cmd, capture_output=True, text=True, errors="replace", env=dict(vl.ENV, AUTOCXX_RS=outdir))
    if p.returncode:
        return "Rust: " + "\n".join([l for l in p.stderr.splitlines() if "error" in l or "undefined" in l][:40] or [p.stderr[-3000:]])
    return None
