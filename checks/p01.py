"""P01: special members offered to Rust are those C++ really provides (spec/SpecialMembers.tla)."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vl, cxxprobe, json

SIG = {"dtor": "~{n}()", "dctor": "{n}()", "cctor": "{n}(const {n}&)", "mctor": "{n}({n}&&)",
       "cassign": "{n}& operator=(const {n}&)", "massign": "{n}& operator=({n}&&)"}
OTHER = {"public": "public: {n}(int a, int b);", "private": "private: {n}(int a, int b);", "protected": "protected: {n}(int a, int b);",
         "deleted": "public: {n}(int a, int b) = delete;", "template": "public: template<class X> {n}(int a, X b);", "variadic": "public: {n}(int a, ...);"}
EXTRA = {"ref": "int& e;", "cref": "const int& e;", "rref": "int&& e;", "constint": "const int e;", "uptr": "std::unique_ptr<int> e;", "uptrc": "std::unique_ptr<{n}> e;", "string": "std::string e;", "ptr": "int* e;",
         "enum": "enum {n}E {{ {n}A, {n}B }}; {n}E e;", "static": "static {n} e;", "init": "int e = 3;", "constinit": "const int e = 3;", "selfptr": "{n}* e;",
         "sptr": "std::shared_ptr<int> e;", "sptrc": "std::shared_ptr<{n}> e;", "wptrc": "std::weak_ptr<{n}> e;", "vec": "std::vector<int> e;", "vecs": "std::vector<std::string> e;", "bits": "int e : 3;", "arr": "int e[4];", "strs": "std::string e[2];",
         "double": "double e;", "bool": "bool e;", "mutable": "mutable int e;", "funptr": "void (*e)(int);", "constptr": "int* const e;", "toconst": "const int* e;", "union": "union {{ int e; float f; }};", "anon": "struct {{ int a; }} e;", "conststr": "const std::string e;", "eclass": "enum class {n}E : char {{ {n}A, {n}B }}; {n}E e;"}
PRE = "#include <memory>\n#include <string>\n#include <vector>\n"
ORDER = ["dctor", "cctor", "mctor", "cassign", "massign", "dtor"]


def render_class(name, c, names):
    bases = [names[s["cls"] - 1] for s in c["subs"] if s["as"] == "base"]
    mems = [(names[s["cls"] - 1], "[3]" if s["as"] == "array" else "") for s in c["subs"] if s["as"] in ("member", "array")]
    o = ["class %s%s {" % (name, (" : " + ", ".join("public " + b for b in bases)) if bases else "")]
    for m in ORDER:
        k = c["own"][m]
        if k == "none":
            continue
        acc = k if k in ("public", "protected", "private") else "public"
        tail = {"deleted": " = delete", "defaulted": " = default"}.get(k, "")
        o.append(" %s: %s%s;" % (acc, SIG[m].format(n=name), tail))
    if c["other"] != "none":
        o.append(" " + OTHER[c["other"]].format(n=name))
    for i, (m, a) in enumerate(mems):
        o.append(" public: %s m%d%s;" % (m, i, a))
    if c["extra"] != "none":
        o.append(" public: " + EXTRA[c["extra"]].format(n=name))
    o.append(" public: int x;")
    o.append("};")
    return " ".join(o)


# Special members are not to depend on how a class is spelled.
SPELL = ["", "", "_", "", "9", "_x", ""]


def names_of(i, classes):
    return ["n%dC%d%s" % (i, k, SPELL[(i + k) % len(SPELL)]) for k in range(len(classes))]


def render(i, classes):
    names = names_of(i, classes)
    return "\n".join(render_class(n, c, names) for n, c in zip(names, classes))


def offered(mod, ty):
    tr = {t["trait"] for t in mod["traits"] if t["type"] == ty}
    new = any(m["type"] == ty and m["name"].startswith("new") and not m["params"] and not m["placeholder"] and not m["has_recv"]
              and "impl New" in m["ret"] for m in mod["methods"])
    return {"default": new, "copy": "CopyNew" in tr, "move": "MoveNew" in tr, "destroy": "Drop" in tr}


def index(mod):
    """Per-type index of traits and methods, to avoid quadratic scans."""
    ix = {}
    for t in mod["traits"]:
        ix.setdefault(t["type"], {"traits": [], "methods": []})["traits"].append(t)
    for m in mod["methods"]:
        ix.setdefault(m["type"], {"traits": [], "methods": []})["methods"].append(m)
    return ix


def main():
    ck = vl.Check("P01")
    consts = lambda own, own2, n, subs, kinds, leaves=1, others=("none", "public"), extras=("none",): """CONSTANTS MaxOwn = %d
 MaxOwn2 = %d
 MaxClasses = %d
 MaxLeaves = %d
 MaxSubs = %d
 DeclKinds = {%s}
 OtherKinds = {%s}
 Extras = {%s}
""" % (own, own2, n, leaves, subs, *(", ".join('"%s"' % k for k in z) for z in (kinds, others, extras)))
    kinds = ["public", "protected", "private", "deleted", "defaulted"]
    inv = "INVARIANTS TypeOK Inherits MoveCoherent Satisfiable Emit\nCHECK_DEADLOCK FALSE\n"
    S = "SPECIFICATION Spec\n"
    allk = (["none"] + list(OTHER), ["none"] + list(EXTRA))
    jobs = [("two classes, all ways of declaring", S + consts(2, 1, 2, 1, kinds) + inv),
            ("three classes, several subobjects", S + consts(1, 0 if ck.quick else 1, 3, 2, ["private", "deleted"] if ck.quick else ["protected", "deleted"]) + inv),
            ("other constructors and members", S + consts(1, 0, 2, 1, ["public", "deleted"] if ck.quick else kinds, 1, *allk) + inv),
            ("two unrelated classes combined", S + consts(1, 0, 3 if ck.quick else 4, 2, ["private", "deleted"] if ck.quick else ["protected", "private", "deleted"], 2) + inv),
            ("simulation: up to five classes", "SPECIFICATION SimSpec\n" + consts(1, 1, 5, 3, kinds, 3, *allk) + inv,
             dict(extra=["-simulate", "num=%d" % (400 if ck.quick else 6000), "-depth", "6", "-seed", str(vl.SEED)]))]
    rs = vl.tlc_many([("SpecialMembers", *j[1:]) for j in jobs])
    for j, r in zip(jobs, rs):
        ck.model(r, j[0])
    cases, deep, ext, wide, sim = [r.lines("CASE:") for r in rs]
    deep = [c for c in deep if len(c) > 1]
    # unrelated classes as bases and members of one class
    wide = [c for c in wide if len(c) > 2]
    deep += vl.seeded_pick(wide, 1200 if ck.quick else 10000) + vl.seeded_pick([c for c in sim if len(c) > 3], 600 if ck.quick else 10000)
    if ck.quick:
        leaf = [c for c in cases if len(c) == 1]
        cases = leaf + vl.seeded_pick([c for c in cases if len(c) > 1], 2400) + vl.seeded_pick(deep, 3000)
    else:
        cases = cases + vl.seeded_pick(deep, 45000)
    cases += ext if not ck.quick else vl.seeded_pick(ext, 1500, always=lambda c: len(c) == 1 and sum(v != "none" for v in c[0]["own"].values()) == 0)
    run(ck, cases)


def run(ck, cases):
    groups, recs, probes = [], {}, []
    for gi, ch in enumerate(vl.chunks(cases, 150)):
        hdr = PRE + "\n".join(render(i, c) for i, c in enumerate(ch))
        groups.append({"id": "g%d" % gi, "header": hdr, "directives": "generate_all!()\nsafety!(unsafe_ffi)"})
        ex = []
        for i, c in enumerate(ch):
            t = names_of(i, c)[-1]
            ex += ["axvp::%s<%s>::value" % (p, t) for p in ("dflt", "copy", "move", "destroy")]
        probes.append((hdr, ex))
    vl.log("# %d headers, %d classes" % (len(groups), len(cases)))
    res = vl.run_axv(groups)
    pr = cxxprobe.probe_many(probes)
    records = []
    for gi, ch in enumerate(vl.chunks(cases, 150)):
        v = res["g%d" % gi]
        if v["status"] != "ok":
            if v["status"] != "skipped":
                ck.violation("engine:" + vl.hashlib.sha1(groups[gi]["header"].encode()).hexdigest(),
                             "engine %s on valid header: %s" % (v["status"], v["error"][:300]), groups[gi])
            continue
        mod = v["mods"][0]
        ix = index(mod)
        for i, c in enumerate(ch):
            t = names_of(i, c)[-1]
            e = ix.get(t, {"traits": [], "methods": []})
            b = pr[gi][4 * i:4 * i + 4]
            records.append({"id": "g%d.%d" % (gi, i), "classes": c, "offered": offered(e, t),
                            "gxx": dict(zip(("default", "copy", "move", "destroy"), b))})
    rej, st, tr = vl.validate("SpecialMembersTrace", records,
                              "CONSTANTS MaxOwn = 2\n MaxOwn2 = 1\n MaxClasses = 2\n MaxLeaves = 1\n MaxSubs = 1\n DeclKinds = {\"public\"}\n OtherKinds = {}\n Extras = {}\n")
    ck.cov["traces_validated_against_impl"] += len(records)
    ck.add("trace_states", st)
    byid = {r["id"]: r for r in records}
    if os.environ.get("AXV_DUMP"):
        json.dump([[j["reasons"], byid[j["id"]]] for j in rej], open(os.environ["AXV_DUMP"], "w"))
    for r in records[:2] + records[-2:]:
        ck.sample({"classes": render(0, r["classes"]), "offered": r["offered"]})
    for j in rej:
        r = byid[j["id"]]
        src = render(0, r["classes"])
        key = json.dumps([src, sorted(map(tuple, j["reasons"]))])
        if any(x[0] == "compiler-disagrees" for x in j["reasons"]):
            vl.log(src, r, j)
            vl.die("the specification of C++ disagrees with the compiler")
        if j["known"]:
            if all(("deviation:" + d) in ck.known for d in j["known"]):
                ck.known_hit.update("deviation:" + d for d in j["known"])
                ck.add("explained_by_known_findings", 1)
                continue
        ck.violation(key, "%s: %s" % (j["reasons"], src), {"classes": r["classes"], "offered": r["offered"], "header": src})
    ck.finish()


if __name__ == "__main__":
    main()
