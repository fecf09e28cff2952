"""Rendering of spec/Bindings.tla cases as headers and directives, and observation of what the
real engine bound. Used by P05, P06 and P19."""
import json, os, shutil, tempfile
import vl, compile, exotics

SPACE = {0: "", 1: "a", 2: "ab", 3: "a::n"}
MODE = {"val": "%s", "cref": "const %s&", "mref": "%s&", "cptr": "const %s*", "mptr": "%s*", "rref": "%s&&", "uptr": "std::unique_ptr<%s>",
        "sptr": "std::shared_ptr<%s>", "vec": "const std::vector<%s>&", "rval": "%s", "rptr": "%s*", "ruptr": "std::unique_ptr<%s>"}


class Layout:
    """One way of writing a case down."""

    def __init__(self, case, style=0):
        self.c, self.style = case, style
        self.methods = {f["owner"] for f in case["funs"] if f["owner"]}
        self.aux = any(f["fate"][1] == ":" for f in case["funs"])
        self.stl = any(u["m"] in ("uptr", "sptr", "vec", "ruptr") for f in case["funs"] for u in f["uses"] + [f["ret"]])
        # with the standard library included, "everything" means everything of ours
        self.wrap = "q" if self.stl or style % 2 else ""

    def ns(self, n):
        s = SPACE[n]
        return "::".join(x for x in (self.wrap, s) if x)

    def tname(self, i, qual=True):
        t = self.c["types"][i - 1]
        n = "T%d%s" % (i, "__x" if t["k"] == "bad" else "")
        s = self.ns(t["ns"])
        return "%s::%s" % (s, n) if qual and s else n

    def fname(self, i, qual=True):
        f = self.c["funs"][i - 1]
        s = "" if f["owner"] else self.ns(f["ns"])
        return "%s::f%d" % (s, i) if qual and s else "f%d" % i

    def inns(self, n, text):
        s = self.ns(n)
        for x in reversed(s.split("::") if s else []):
            text = "namespace %s { %s }" % (x, text)
        return text + "\n"

    def use(self, u):
        return MODE[u["m"]] % ("::" + self.tname(u["t"]))

    def fun(self, i):
        f = self.c["funs"][i - 1]
        if f["fate"][1] == ":":
            own = f["owner"]
            return exotics.text(f["fate"][0], f["fate"][2:], i, self.tname(own, False) if own else "", self.other(own)) + "\n"
        ps = ["%s p%d" % (self.use(u), k) for k, u in enumerate(f["uses"])]
        ret = "void" if f["ret"]["m"] == "void" else self.use(f["ret"])
        pre = post = ""
        if f["fate"] == "variadic":
            ps += (["int z"] if not ps else []) + ["..."]
        elif f["fate"] == "private":
            pre, post = "private: ", " public:"
        elif f["fate"] == "rvret":
            ret = "int&&"
        elif f["fate"] == "ptrptr":
            ps.append("int** z")
        return "%s%s f%d(%s)%s;%s" % (pre, ret, i, ", ".join(ps), " = delete" if f["fate"] == "deleted" else "", post)

    def other(self, own):
        """Some complete class which can be mentioned here."""
        for i, t in enumerate(self.c["types"], 1):
            if t["k"] == "struct" and i not in self.methods and i != own and self.style % 4 != 3:
                return "::" + self.tname(i)
        return "::Aux"

    def header(self):
        c = self.c
        out = ["#pragma once\n"]
        if self.stl:
            out.append("#include <memory>\n#include <vector>\n")
        if self.aux:
            out.append("struct Aux { int aux; };\n")
        meths = {}
        for i, f in enumerate(c["funs"], 1):
            if f["owner"]:
                meths.setdefault(f["owner"], []).append(i)
        early, late = [], []
        # things which can come first
        for i, t in enumerate(c["types"], 1):
            n = self.tname(i, False)
            if t["k"] == "enum":
                early.append(self.inns(t["ns"], ("enum %s { %sA, %sB };" if (i + self.style) % 2 else "enum class %s : short { A%s, B%s };") % (n, n, n)))
            elif t["k"] == "alias":
                tgt = "::" + self.tname(t["to"])
                early.append(self.inns(t["ns"], ("typedef %s %s;" % (tgt, n)) if (i + self.style) % 2 else ("using %s = %s;" % (n, tgt))))
            else:
                body = "%s %s%s { public: int v%d; %s%s };" % ("class" if self.style % 3 == 2 else "struct", n, " : public ::" + self.tname(t["to"]) if t["k"] == "derives" else "", i,
                                                             "::%s m%d; " % (self.tname(t["to"]), i) if t["k"] == "holds" else "", " ".join(self.fun(k) for k in meths.get(i, [])))
                if t["k"] in ("holds", "derives") or t["k"] == "fwd" or t["k"] == "late" or i in meths or self.style % 4 == 3:
                    early.append(self.inns(t["ns"], "%s %s;" % ("class" if self.style % 3 == 2 else "struct", n)))
                    if t["k"] != "fwd":
                        late.append((t["k"] == "late", self.inns(t["ns"], body)))
                else:
                    early.append(self.inns(t["ns"], body))
        out += early
        out += [x for l, x in late if not l]
        out += [self.inns(f["ns"], self.fun(i)) for i, f in enumerate(c["funs"], 1) if not f["owner"]]
        out += [x for l, x in late if l]
        return "".join(out)

    def missing(self):
        return ["nosuch", "a::nosuch", "T99", "ab::T1x"][self.style % 4]

    def directives(self):
        r = self.c["req"]
        d = ["safety!(unsafe_ffi)"] if self.style % 2 else ["safety!(unsafe)"]
        if r["all"]:
            d.append('generate_ns!("q")' if self.wrap else "generate_all!()")
        d += ['generate!("%s")' % self.tname(t) for t in r["types"]]
        d += ['generate!("%s")' % self.fname(f) for f in r["funs"]]
        d += ['generate_ns!("%s")' % self.ns(n) for n in r["spaces"]]
        if r["missing"]:
            d.append('generate!("%s")' % self.missing())
        d += ['block!("%s")' % self.tname(t) for t in self.c["block"]]
        if self.style % 5 == 1:
            d.reverse()
        return "\n".join(d)

    def problems(self):
        r = self.c["req"]
        p = [self.missing()] if r["missing"] else []
        return p + [self.tname(t) for t in r["types"] if t in self.c["block"] or self.c["types"][t - 1]["k"] == "bad"]

    def observe(self, v):
        """(bound types, bound functions, constructible types) as indices."""
        m = v["mods"][0]
        kinds = {t["path"]: t["kind"] for t in m["types"]}
        T = [i for i in range(1, len(self.c["types"]) + 1) if kinds.get(self.tname(i), "placeholder") != "placeholder"]
        fns = {f.get("path") or f["name"] for f in m["fns"] if not f["placeholder"]}
        ms = {(x["type"], x["name"]) for x in m["methods"] if not x["placeholder"]}
        F = []
        for i, f in enumerate(self.c["funs"], 1):
            if f["owner"]:
                if (self.tname(f["owner"]), "f%d" % i) in ms:
                    F.append(i)
            elif self.fname(i) in fns:
                F.append(i)
        mk = {t["type"] for t in m["traits"] if t["trait"] in ("CopyNew", "MoveNew", "MakeCppStorage", "Drop")}
        mk |= {x["type"] for x in m["methods"] if "impl New" in x["ret"] and not x["placeholder"]}
        mk |= {x["type"] for x in m["containers"]}
        M = [i for i in range(1, len(self.c["types"]) + 1) if self.tname(i) in mk and self.c["types"][i - 1]["k"] != "alias"]
        return T, F, M


q = lambda s: "{" + ", ".join(('"%s"' % x) if isinstance(x, str) else str(x) for x in s) + "}"
INV = "INVARIANTS Closed BlockedGone Monotone IncompleteByRef Emit\nCHECK_DEADLOCK FALSE\n"


def consts(types=1, funs=1, kinds=("struct",), spaces=(0,), modes=("cref",), rets=(), uses=1, owners=("free",), fates=("ok",), reqs=("all",), maxreq=1, maxblock=0, exos=()):
    return """CONSTANTS MaxTypes = %d
 MaxFuns = %d
 TypeKinds = %s
 Spaces = %s
 Modes = %s
 RetModes = %s
 MaxUses = %d
 Owners = %s
 Fates = %s
 Exotics = %s
 MemberExotics = %s
 Requests = %s
 MaxReq = %d
 MaxBlock = %d
""" % (types, funs, q(kinds), q(spaces), q(modes), q(rets), uses, q(owners), q(tuple(fates) + tuple(exos)), q(exos), q([e for e in exos if e[0] == "m"]), q(reqs), maxreq, maxblock)


def exos(ck, without=()):
    """The unusual declarations; those which are known to be handled badly can be left out."""
    return [x for x in ["m:" + k for k in sorted(exotics.MEMBER)] + ["f:" + k for k in sorted(exotics.FREE)] if x not in without]


def model(name, n, spec="Spec", sim=None, **kw):
    """A model to explore: its name, how many of its cases to replay, its configuration."""
    ex = dict(extra=["-simulate", "num=%d" % sim, "-depth", "60", "-seed", str(vl.SEED)]) if sim else {}
    return name, n, "SPECIFICATION %s\n" % ("SimSpec" if sim else spec) + consts(**kw) + INV, ex


def explore(ck, models, keep=lambda c: True, always=lambda c: False):
    cases = []
    for (nm, n, cfg, ex), r in zip(models, vl.tlc_many([("Bindings", m[2], m[3]) for m in models])):
        ck.model(r, nm)
        cs = [c for c in r.lines("CASE:") if keep(c)]
        cases += vl.seeded_pick(cs, n, always=always)
    return cases


def run(ck, cases, do_compile=True, extra_key=None):
    td = tempfile.mkdtemp(prefix=ck.prop + "_", dir=vl.WORK)
    try:
        return _run(ck, cases, do_compile, td)
    finally:
        shutil.rmtree(td, ignore_errors=True)


def _run(ck, cases, do_compile, td):
    ls = [Layout(c, i) for i, c in enumerate(cases)]
    cs = []
    for i, l in enumerate(ls):
        d = {"id": str(i), "header": l.header(), "directives": l.directives()}
        if do_compile:
            d["outdir"] = os.path.join(td, str(i))
        cs.append(d)
    vl.log("# %d headers" % len(cs))
    res = vl.run_axv(cs)
    ok = [c["id"] for c in cs if res[c["id"]]["status"] == "ok"]
    errs = dict(zip(ok, compile.errors_many([os.path.join(td, i) for i in ok]))) if do_compile else {}
    recs = []
    for i, (c, l) in enumerate(zip(cases, ls)):
        v = res[str(i)]
        if v["status"] == "skipped":
            continue
        if v["status"] not in ("ok", "error"):
            # generation broke down later than it may
            v = dict(v, error="%s: %s" % (v["status"], v.get("error")))
        T, F, M = l.observe(v) if v["status"] == "ok" else ([], [], [])
        e = errs.get(str(i), {"cpp": [], "rust": []})
        recs.append({"id": str(i), "types": c["types"], "funs": c["funs"], "req": c["req"], "block": c["block"], "ok": v["status"] == "ok",
                     "named": v["status"] == "error" and any(p in v["error"] for p in l.problems()),
                     "compiles": not e["cpp"] and not e["rust"], "boundT": T, "boundF": F, "made": M})
    allx = sorted({f["fate"] for c in cases for f in c["funs"] if f["fate"][1] == ":"})
    rej, st, tr = vl.validate("BindingsTrace", recs, consts(exos=allx))
    ck.cov["traces_validated_against_impl"] += len(recs)
    ck.add("headers", len(cs))
    ck.add("compiled", len(errs))
    by = {r["id"]: r for r in recs}
    for r in recs[:1] + recs[-2:]:
        i = int(r["id"])
        ck.sample({"header": cs[i]["header"], "directives": cs[i]["directives"], "bound": r["boundT"] + r["boundF"]})
    for j in rej:
        r, i = by[j["id"]], int(j["id"])
        e = errs.get(j["id"], {"cpp": [], "rust": []})
        ex = sorted({f["fate"] for f in r["funs"] if f["fate"][1] == ":"})
        if len(ex) == 1 and len(r["funs"]) == 3:
            key = "exotic:%s %s" % (ex[0], " ".join(sorted({x[0] for x in j["reasons"]})))
        else:
            key = json.dumps([cs[i]["header"], cs[i]["directives"], sorted(map(tuple, j["reasons"]))])
        ck.violation(key,
                     "%s: %s -- %s %s" % (j["reasons"], cs[i]["header"], cs[i]["directives"].replace("\n", " "), (e["cpp"] + e["rust"] + [res[j["id"]].get("error", "")])[:2]),
                     {"case": cs[i], "record": r})
    return recs, rej
