"""Programs which replay histories through real bindings: built from /repo's current tree, fed
histories on standard input, killed histories reported as crashes."""
import json, os, shutil, subprocess, tempfile
from concurrent.futures import ThreadPoolExecutor
import vl, compile


def build(name, header=None, rs=None, extra=(), cflags=()):
    """Builds drivers/NAME (a header, main.rs and plain C++ files) and returns its directory."""
    src = os.path.join(vl.VERIF, "drivers", name)
    d = tempfile.mkdtemp(prefix=name + "_", dir=vl.WORK)
    hs = [f for f in os.listdir(src) if f.endswith(".h")]
    case = {"id": name, "header": header or open(os.path.join(src, hs[0])).read(), "rs": rs or open(os.path.join(src, "main.rs")).read(), "outdir": d}
    r = vl.run_axv([case])[name]
    if r["status"] != "ok":
        return d, "generation: %s" % r.get("error")
    for f in os.listdir(src):
        if f.endswith(".cc"):
            shutil.copy(os.path.join(src, f), d)
    return d, compile.build_exe(d, "input.rs", cflags=cflags)


def _run(exe, lines, timeout):
    """Returns {id: record}; a history during which the program dies is recorded as crashed.
    Programs print one record per history, or one per step and a last one marked as the end."""
    out, left = {}, list(lines)
    env = dict(os.environ, RUST_BACKTRACE="0")
    while left:
        try:
            p = subprocess.run([exe], input="\n".join(left) + "\n", capture_output=True, text=True, errors="replace", timeout=timeout, env=env)
            rc, so, se = p.returncode, p.stdout, p.stderr
        except subprocess.TimeoutExpired as e:
            rc, so, se = "timeout", (e.stdout or b"").decode(errors="replace") if isinstance(e.stdout, bytes) else (e.stdout or ""), ""
        if rc == 3:
            vl.die("driver misused: " + se[-300:])
        n, steps = 0, []
        for l in so.splitlines():
            try:
                r = json.loads(l)
            except ValueError:
                break
            if "step" in r:
                steps.append(r)
                if not r["end"]:
                    continue
                r, steps = {"id": r["id"], "steps": steps}, []
            r["crash"] = False
            out[str(r["id"])] = r
            n += 1
        if n >= len(left):
            break
        i = left[n].split(" ")[0]
        out[i] = {"id": i, "steps": steps, "crash": True, "rc": rc, "stderr": se[:600]}
        left = left[n + 1:]
    return out


def replay(d, lines, jobs=vl.NCPU, timeout=120):
    exe = os.path.join(d, "prog")
    parts = [lines[i::jobs] for i in range(jobs)]
    res = {}
    with ThreadPoolExecutor(jobs) as ex:
        for r in ex.map(lambda p: _run(exe, p, timeout), [p for p in parts if p]):
            res.update(r)
    return res
