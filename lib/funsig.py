"""Rendering functions of spec/FunSig.tla as C++, and observing how the engine presents them."""
import json, re, vl

CPPT = {"int": "int", "bool": "bool", "E": "E", "P": "P", "O": "O", "I": "I", "A": "A", "S": "std::string",
        "U": "std::unique_ptr<O>", "UI": "std::unique_ptr<I>", "V": "std::vector<O>", "VI": "std::vector<I>", "double": "double", "char": "char", "u64": "uint64_t", "none": "void"}
MODE = {"val": "%s", "cref": "const %s&", "mref": "%s&", "rref": "%s&&", "cptr": "const %s*", "mptr": "%s*", "void": "%s"}
PRE = """#include <string>
#include <memory>
#include <vector>
#include <cstdint>
namespace q {
enum E { E1, E2 };
struct P { int x; int y; };
class O { public: O(); ~O(); O(const O&); int x; };
class I;
class A { public: virtual void fa() const = 0; int y; };
"""
# operators: (member declaration, free declaration); %(k)s is the class
OPS = {"op+": ("%(k)s operator+(const %(k)s& a) const;", "%(k)s operator+(const %(k)s& a, const %(k)s& b);"),
       "op=": ("%(k)s& operator=(const %(k)s& a);", None), "op=m": ("%(k)s& operator=(%(k)s&& a);", None), "op=i": ("%(k)s& operator=(int a);", None),
       "op==": ("bool operator==(const %(k)s& a) const;", "bool operator==(const %(k)s& a, const %(k)s& b);"),
       "op()": ("int operator()(int a) const;", None), "op[]": ("int operator[](int a) const;", None),
       "op++": ("%(k)s& operator++();", "%(k)s& operator++(%(k)s& a);"), "op<": ("bool operator<(const %(k)s& a) const;", "bool operator<(const %(k)s& a, const %(k)s& b);"),
       "conv": ("operator int() const;", None), "convb": ("explicit operator bool() const;", None), "op->": ("%(k)s* operator->();", None),
       "op*": ("int operator*() const;", None), "op<<": ("%(k)s& operator<<(int a);", "%(k)s& operator<<(%(k)s& a, int b);"), "op!": ("bool operator!() const;", "bool operator!(const %(k)s& a);"),
       "op-": ("%(k)s operator-() const;", "%(k)s operator-(const %(k)s& a);"), "op+=": ("%(k)s& operator+=(int a);", "%(k)s& operator+=(%(k)s& a, int b);"),
       "op,": ("%(k)s& operator,(int a);", None), "op&&": ("bool operator&&(bool a) const;", None), "opdel": ("void operator delete(void* p);", None)}


def q(t, m):
    return MODE[m] % CPPT[t]


def render(i, c):
    """C++ for case number i."""
    k, fate = c["kind"], c["fate"]
    ps = ["%s a%d" % (q(*a), j) for j, a in enumerate(c["params"])]
    if fate == "variadic":
        ps.append("...")
    ret = q(*c["ret"])
    cls = "K%d" % i
    if k in ("free", "nsfree"):
        if fate in OPS:
            d = "class %s { public: %s(); int z; };\n%s" % (cls, cls, OPS[fate][1] % {"k": cls})
        elif fate == "template":
            d = "template<class X> %s f%d(%s);" % (ret, i, ", ".join(ps + ["X x"]))
        else:
            d = "%s f%d(%s)%s;" % (ret, i, ", ".join(ps), " = delete" if fate == "deleted" else "")
        return "namespace n%d { %s }" % (i, d) if k == "nsfree" else d
    acc = fate if fate in ("private", "protected") else "public"
    pre = {"static": "static ", "vconst": "virtual ", "vmut": "virtual ", "pconst": "virtual ", "pmut": "virtual "}.get(k, "")
    post = (" const" if k in ("const", "vconst", "pconst") else "") + (" = 0" if k in ("pconst", "pmut") else "") + (" = delete" if fate == "deleted" else "")
    if fate in OPS:
        d = OPS[fate][0] % {"k": cls}
    elif fate == "template":
        d = "template<class X> %s%s m(%s)%s;" % (pre, ret, ", ".join(ps + ["X x"]), post) if k != "ctor" else "template<class X> %s(%s);" % (cls, ", ".join(ps + ["X x"]))
    elif k == "ctor":
        d = "%s(%s)%s;" % (cls, ", ".join(ps), post)
    else:
        d = "%s%s m(%s)%s;" % (pre, ret, ", ".join(ps), post)
    return "class %s { public: int before(int x) const; %s: %s public: void after(); int z; };" % (cls, acc, d)


def shape(t):
    if re.match(r"(Pin<)?&mut ", t):
        return "exclusive"
    if t.startswith("&"):
        return "shared"
    if t.startswith("*const "):
        return "cptr"
    if t.startswith("*mut "):
        return "mptr"
    if t.startswith("impl RValueParam"):
        return "rref"
    if t == "()":
        return "void"
    return "val"


def observe(i, c, fns, methods):
    cls = "q::n%d::K%d" % (i, i) if c["kind"] == "nsfree" else "q::K%d" % i
    sib = True
    cand = []
    if c["kind"] in ("free", "nsfree"):
        if c["fate"] in OPS:
            cand = [f for f in fns if any(p.endswith("K%d" % i) or p.endswith("K%d>" % i) for p in f["params"])]
            cand += [f for f in methods.get(cls, []) if not f["name"].startswith("new")]
        else:
            p = "q::n%d::f%d" % (i, i) if c["kind"] == "nsfree" else "q::f%d" % i
            cand = [f for f in fns if f["path"] == p]
    else:
        for f in methods.get(cls, []):
            if f["name"] in ("before", "after"):
                continue
            isnew = f["name"].startswith("new")
            if c["kind"] == "ctor":
                if isnew:
                    cand.append(f)
            elif not isnew:
                cand.append(f)
        have = {f["name"] for f in methods.get(cls, []) if not f["placeholder"]}
        sib = {"before", "after"} <= have
    cand = [f for f in cand if not f["placeholder"] and f["pub"]]
    if not cand:
        return {"bound": False, "unsafe": False, "recv": "none", "params": [], "ret": "void", "ties": []}, sib
    f = cand[0]
    off = 0 if f["has_recv"] else 1
    return {"bound": True, "unsafe": f["unsafe"], "recv": f["recv"], "params": [shape(p) for p in f["params"]],
            "ret": shape(f["ret"]) if c["kind"] != "ctor" else "void", "ties": [t + off if t >= 0 else t for t in f["ties"]]}, sib


def q_set(s):
    return "{" + ", ".join(s) + "}"


def cfg(kinds, fates, patoms, ratoms, policies, n, extra=""):
    st = lambda s: q_set('"%s"' % x for x in s)
    at = lambda s: q_set('<<"%s", "%s">>' % x for x in s)
    return """SPECIFICATION Spec
CONSTANTS Kinds = %s
 Fates = %s
 Policies = %s
 MaxParams = %d
INVARIANTS Tied NoUpgrade PolicyMonotone Emit
CHECK_DEADLOCK FALSE
%s""" % (st(kinds), st(fates), st(policies), n, extra), {"ParamAtoms": at(patoms), "RetAtoms": at(ratoms)}


def enum(ck, name, *a):
    c, d = cfg(*a)
    r = vl.tlc("FunSig", c, defs=d)
    ck.model(r, name)
    return r.lines("CASE:")


KINDS = ["free", "nsfree", "static", "const", "mut", "ctor", "vconst", "vmut", "pconst", "pmut"]


def run(ck, prop, cases, G=150):
    """Replays the cases through the engine and validates what it presents. Complaints about
    other properties than prop are left to their own checks."""
    bypol = {}
    for c in cases:
        bypol.setdefault(c["policy"], []).append(c)
    groups, meta = [], {}
    for pol, cs in bypol.items():
        for ch in vl.chunks(cs, G):
            gid = "g%d" % len(groups)
            hdr = PRE + "\n".join(render(i, c) for i, c in enumerate(ch)) + "\n}\n"
            groups.append({"id": gid, "header": hdr, "directives": 'generate_ns!("q")\ngenerate_pod!("q::P")' + ('\nsafety!(unsafe_ffi)' if pol == "ffi" else "")})
            meta[gid] = ch
    vl.log("# %d headers, %d functions" % (len(groups), len(cases)))
    res = vl.run_axv(groups)
    recs = []
    for g in groups:
        v = res[g["id"]]
        if v["status"] != "ok":
            if v["status"] != "skipped":
                ck.violation("engine:%s" % vl.hashlib.sha1(g["header"].encode()).hexdigest(), "engine %s on valid header: %s" % (v["status"], v["error"][:300]), g)
            continue
        mod = v["mods"][0]
        ms, fs = {}, {}
        for f in mod["methods"]:
            ms.setdefault(f["type"], []).append(f)
        for f in mod["fns"]:
            for n in set(re.findall(r"[fK](\d+)\b", f["path"] + " " + " ".join(f["params"]))):
                fs.setdefault(n, []).append(f)
        for i, c in enumerate(meta[g["id"]]):
            o, sib = observe(i, c, fs.get(str(i), []), ms)
            recs.append(dict(c, id="%s.%d" % (g["id"], i), obs=o, siblings=sib))
    rej, st, tr = vl.validate("FunSigTrace", recs, """CONSTANTS Kinds = {}
 Fates = {}
 ParamAtoms = {}
 RetAtoms = {}
 Policies = {}
 MaxParams = 0
""")
    ck.cov["traces_validated_against_impl"] += len(recs)
    ck.add("functions_bound", sum(r["obs"]["bound"] for r in recs))
    ck.add("functions_refused", sum(not r["obs"]["bound"] for r in recs))
    by = {r["id"]: r for r in recs}
    for r in recs[:2] + recs[-2:]:
        ck.sample({"cpp": render(0, r), "policy": r["policy"], "observed": r["obs"]})
    for j in rej:
        mine = [c for c in j["complaints"] if c[0] == prop]
        if not mine:
            continue
        r = by[j["id"]]
        src = render(0, r)
        if r["fate"] == "variadic" and not r["params"] and "variadic-unnamed" in ck.known:
            ck.known_hit.add("variadic-unnamed")
            continue
        ck.violation(json.dumps([src, r["policy"], sorted(map(tuple, mine))]), "%s: %s [%s] presented as %s" % ([c[1] for c in mine], src, r["policy"], r["obs"]), {"header": src, "record": r})
