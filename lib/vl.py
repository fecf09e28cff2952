"""Shared machinery of the checks: building the harness from /repo, running TLC, running
the real engine on cases, recording evidence and reporting violations.

Nothing in here decides a property: verdicts come from the TLA+ modules in /verif/spec,
evaluated by TLC on records of what the real code did."""
import hashlib, json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
SPEC = os.path.join(VERIF, "spec")
WORK = os.path.join(VERIF, "work")
EVID = os.path.join(VERIF, "evidence")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
NCPU = os.cpu_count() or 4


def env():
    e = dict(os.environ)
    p = "/opt/vp/env.sh"
    if os.path.exists(p):
        out = subprocess.run(["bash", "-c", ". %s; env -0" % p], capture_output=True, env=e).stdout
        for kv in out.split(b"\0"):
            if b"=" in kv:
                k, v = kv.decode(errors="replace").split("=", 1)
                e[k] = v
    e.setdefault("CARGO_NET_OFFLINE", "true")
    for k in list(e):
        if k.startswith("AUTOCXX") or k == "OUT_DIR":
            e.pop(k)
    return e


ENV = env()


def die(msg):
    """A failure of the machinery itself (never a verdict)."""
    sys.stderr.write("CHECK-ERROR: %s\n" % msg)
    sys.exit(2)


def log(*a):
    print(*a, flush=True)


_built = {}


def cargo_build(crate_dir, args=(), what=None):
    """Builds a crate of /verif against /repo's current tree; returns its debug dir."""
    key = (crate_dir, tuple(args))
    if key in _built:
        return _built[key]
    t = time.time()
    p = subprocess.run(["cargo", "build", "--offline", "-q", *args], cwd=crate_dir, env=ENV,
                       capture_output=True, text=True)
    if p.returncode != 0:
        sys.stderr.write(p.stderr[-6000:])
        die("cargo build failed in %s" % crate_dir)
    log("# built %s in %.1fs" % (what or os.path.basename(crate_dir), time.time() - t))
    _built[key] = os.path.join(crate_dir, "target", "debug")
    return _built[key]


def axv():
    return os.path.join(cargo_build(os.path.join(VERIF, "harness")), "axv")


def run_axv(cases, sub="engine", jobs=NCPU, timeout=600):
    """Runs cases through the harness; returns {id: result}. A case during which the process
    dies or hangs is retried alone, and reported with status crash/hang if it does so again."""
    exe = axv()

    def go(cs, j, to):
        inp = "\n".join(json.dumps(c) for c in cs) + "\n"
        with tempfile.TemporaryDirectory(prefix="axv") as td:
            e = dict(ENV, TMPDIR=td)
            try:
                p = subprocess.run([exe, sub, str(j)], input=inp, text=True, capture_output=True,
                                   env=e, timeout=to, errors="replace")
                out, rc = p.stdout, p.returncode
            except subprocess.TimeoutExpired as x:
                out, rc = (x.stdout or b""), None
                if isinstance(out, bytes):
                    out = out.decode(errors="replace")
        r = {}
        for l in out.splitlines():
            try:
                v = json.loads(l)
                r[v["id"]] = v
            except ValueError:
                pass
        return r, rc

    res, rc = go(cases, jobs, timeout)
    missing = [c for c in cases if c["id"] not in res]
    if missing and rc == 0:
        die("harness lost cases")
    tries = 0
    bad = 0
    while missing and tries < 400:
        tries += 1
        c = missing.pop(0)
        r, rc = go([c], 1, 120)
        if c["id"] in r:
            res[c["id"]] = r[c["id"]]
        else:
            res[c["id"]] = {"id": c["id"], "status": "hang" if rc is None else "crash",
                            "error": "exit %s" % rc}
            bad += 1
        if bad >= 5:
            for c in missing:
                res[c["id"]] = {"id": c["id"], "status": "skipped", "error": ""}
            break
    return res


class Tlc:
    def __init__(self, out, rc, wall):
        self.out, self.rc, self.wall = out, rc, wall
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
        self.generated = int(m[-1][0]) if m else 0
        self.distinct = int(m[-1][1]) if m else 0
        m = re.findall(r"([\d,]+) states checked, ([\d,]+) traces generated", out)
        if m and not self.generated:
            self.generated = self.distinct = int(m[-1][0].replace(",", ""))

    def lines(self, tag):
        """JSON values printed by the specification as PrintT(<<tag, ToJson(v)>>) or
        PrintT(tag \\o ToJson(v))."""
        r = []
        pre = '"' + tag
        for l in self.out.splitlines():
            if l.startswith(pre):
                s = json.loads(l)
                r.append(json.loads(s[len(tag):]))
        return r


def tlc(module, cfg, workers=1, heap="6g", envv=None, extra=(), timeout=900, ok_rc=(0,), defs=None):
    """Runs TLC on spec/<module>.tla with a configuration given as text or as a file name.
    defs gives constants whose values a configuration file cannot express."""
    os.makedirs(WORK, exist_ok=True)
    md = tempfile.mkdtemp(prefix="tlc_", dir=WORK)
    try:
        for f in os.listdir(SPEC):
            if f.endswith(".tla"):
                os.symlink(os.path.join(SPEC, f), os.path.join(md, f))
        if "\n" in cfg or cfg.strip().startswith(("SPEC", "INIT", "CONST")):
            with open(os.path.join(md, "run.cfg"), "w") as f:
                f.write(cfg)
        else:
            shutil.copy(os.path.join(SPEC, cfg), os.path.join(md, "run.cfg"))
        if defs:
            with open(os.path.join(md, "MC.tla"), "w") as f:
                f.write("---- MODULE MC ----\nEXTENDS %s\n" % module)
                for k, v in defs.items():
                    f.write("mc_%s == %s\n" % (k, v))
                f.write("====\n")
            with open(os.path.join(md, "run.cfg"), "a") as f:
                f.write("CONSTANTS\n" + "".join(" %s <- mc_%s\n" % (k, k) for k in defs))
            module = "MC"
        e = dict(ENV)
        e.pop("JAVA_TOOL_OPTIONS", None)
        e.update(envv or {})
        cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m", "-cp",
               "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar",
               "tlc2.TLC", "-workers", str(workers), "-metadir", os.path.join(md, "meta"),
               "-noGenerateSpecTE", "-config", "run.cfg", *extra, module + ".tla"]
        t = time.time()
        try:
            p = subprocess.run(cmd, cwd=md, env=e, capture_output=True, text=True, timeout=timeout)
        except subprocess.TimeoutExpired:
            die("TLC timed out on %s" % module)
        r = Tlc(p.stdout, p.returncode, time.time() - t)
        if ok_rc is not None and p.returncode not in ok_rc:
            sys.stderr.write(p.stdout[-5000:] + p.stderr[-2000:])
            die("TLC failed on %s (exit %d)" % (module, p.returncode))
        return r
    finally:
        shutil.rmtree(md, ignore_errors=True)


def tlc_many(jobs):
    """Runs several TLC models side by side; jobs are argument tuples (module, cfg) or
    (module, cfg, keyword arguments)."""
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(max(1, NCPU - 2)) as ex:
        return list(ex.map(lambda j: tlc(j[0], j[1], **(j[2] if len(j) > 2 else {})), jobs))


def write_nd(path, recs):
    with open(path, "w") as f:
        for r in recs:
            f.write(json.dumps(r, sort_keys=True) + "\n")


def validate(module, records, consts="", chunk=20000, workers=1, envv=None, par=6):
    """Checks recorded observations against a trace specification. The trace specification
    prints "REJECT:"+json for each record that is not a behaviour of the specification and
    reads its records from $TRACE. Returns (list of rejections, states, transitions)."""
    from concurrent.futures import ThreadPoolExecutor
    os.makedirs(WORK, exist_ok=True)
    size = max(1, min(chunk, max(1500, -(-len(records) // par))))

    def one(part):
        fd, path = tempfile.mkstemp(suffix=".ndjson", dir=WORK)
        os.close(fd)
        try:
            write_nd(path, part)
            cfg = "SPECIFICATION TraceSpec\nPOSTCONDITION TraceAccepted\nCHECK_DEADLOCK FALSE\n" + consts
            r = tlc(module, cfg, workers=workers, envv=dict(envv or {}, TRACE=path), ok_rc=(0,))
            if r.distinct < len(part):
                die("trace validation of %s covered %d of %d records" % (module, r.distinct, len(part)))
            return r.lines("REJECT:"), r.distinct, r.generated
        finally:
            os.unlink(path)
    with ThreadPoolExecutor(max(1, par)) as ex:
        rs = list(ex.map(one, list(chunks(records, size))))
    return [x for r in rs for x in r[0]], sum(r[1] for r in rs), sum(r[2] for r in rs)


def known_findings(prop):
    """Listed findings of this property: [{"property","key","what"}]."""
    p = os.path.join(VERIF, "known-findings.txt")
    r = []
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("{"):
                d = json.loads(l)
                if d.get("property") == prop and d.get("status") == "known":
                    r.append(d)
    return r


class Check:
    def __init__(self, prop, level="model_checking"):
        self.prop, self.level = prop, level
        self.tier = os.environ.get("VERIF_TIER_ARG") or (sys.argv[1] if len(sys.argv) > 1 else
                                                         os.environ.get("VERIF_TIER", "quick"))
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        self.t0 = time.time()
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": []}
        self.assumptions = []
        self.viol = []
        self.known = {d["key"]: d for d in known_findings(prop)}
        self.known_hit = set()
        os.makedirs(EVID, exist_ok=True)
        os.makedirs(os.path.join(WORK, "replay"), exist_ok=True)

    @property
    def quick(self):
        return self.tier == "quick"

    def model(self, r, name=None):
        self.cov["states"] += r.distinct
        self.cov["transitions"] += r.generated
        if name:
            self.cov.setdefault("models", {})[name] = {"distinct": r.distinct, "generated": r.generated,
                                                      "wall_s": round(r.wall, 1)}
            log("# TLC %s: %d distinct states, %d generated, %.1fs" % (name, r.distinct, r.generated, r.wall))

    def sample(self, *s):
        for x in s:
            if len(self.cov["samples"]) < 6:
                self.cov["samples"].append(x)

    def add(self, key, n):
        self.cov[key] = self.cov.get(key, 0) + n

    def violation(self, key, what, replay):
        """key identifies the failing input; a key listed as a known finding is not reported."""
        if key in self.known:
            self.known_hit.add(key)
            return
        self.viol.append((key, what, replay))

    def finish(self):
        self.cov["known_findings_seen"] = sorted(self.known_hit)
        ev = {"property": self.prop, "tier": self.tier, "seed": SEED, "level": self.level,
              "coverage": self.cov, "assumptions": self.assumptions,
              "wall_s": round(time.time() - self.t0, 2), "violations": len(self.viol)}
        with open(os.path.join(EVID, self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, sort_keys=True)
            f.write("\n")
        for k in sorted(self.known):
            if k in self.known_hit:
                log("KNOWN-FINDING: property=%s %s" % (self.prop, self.known[k]["what"]))
        for i, (key, what, replay) in enumerate(self.viol[:20]):
            h = hashlib.sha1(key.encode()).hexdigest()[:10]
            path = os.path.join(WORK, "replay", "%s-%s.json" % (self.prop, h))
            with open(path, "w") as f:
                json.dump({"property": self.prop, "key": key, "what": what, "replay": replay}, f, indent=1,
                          default=str)
            log("# %s" % what)
            log("VIOLATION property=%s replay=%s" % (self.prop, path))
        if len(self.viol) > 20:
            log("# ... and %d more violations" % (len(self.viol) - 20))
        log("# %s %s: %s (%.1fs)" % (self.prop, self.tier, "VIOLATED" if self.viol else "held", time.time() - self.t0))
        sys.exit(1 if self.viol else 0)


def seeded_pick(items, n, keyf=lambda x: json.dumps(x, sort_keys=True), always=lambda x: False):
    """A deterministic (VERIF_SEED) selection of n items, keeping those marked always."""
    keep = [x for x in items if always(x)]
    rest = [x for x in items if not always(x)]
    rest.sort(key=lambda x: hashlib.sha1((str(SEED) + keyf(x)).encode()).hexdigest())
    return keep + rest[:max(0, n - len(keep))]


def chunks(l, n):
    for i in range(0, len(l), n):
        yield l[i:i + n]
