"""Class graphs from spec/Upcasts.tla, bound and converted to their bases through real bindings."""
import json, os, shutil, subprocess
import vl, compile


def cname(g, i):
    # (types of one name in several namespaces are not supported)
    return "C%d_%d" % (g, i)


def cpp(g, i, scheme):
    return {"distinct": "g{0}::{1}", "namespaces": "g{0}::n{2}::{1}", "nested": "g{0}::O{0}_{2}::{1}"}[scheme].format(g, cname(g, i), i)


def rust(g, i, scheme):
    return {"distinct": "g{0}::{1}", "namespaces": "g{0}::n{2}::{1}", "nested": "g{0}::O{0}_{2}_{1}"}[scheme].format(g, cname(g, i), i)


def graph(k, c):
    """(C++, names to generate, Rust statements) for one graph."""
    cs, sch, t, gen, rs = c["classes"], c["scheme"], "", [], ""
    n = len(cs)
    name = lambda i: "::" + cpp(k, i, sch)
    for i, x in enumerate(cs, 1):
        bl, al = [], ""
        for j, b in enumerate(x["bases"]):
            base = name(b["c"])
            if b["alias"]:
                al += "typedef %s A%d_%d;\n" % (base, i, j)
                base = "::g%d::A%d_%d" % (k, i, j)
            bl.append(" ".join(w for w in (("virtual" if b["virt"] else ""), "" if b["acc"] == "default" else b["acc"], base) if w))
        anc = set()
        todo = [b["c"] for b in x["bases"]]
        while todo:
            a = todo.pop()
            if a not in anc:
                anc.add(a)
                todo += [b["c"] for b in cs[a - 1]["bases"]]
        body = "public:\n uint32_t f%d = %d;\n size_t id%d() const { return (size_t)this; }\n uint32_t get%d() const { return f%d; }\n" % (i, i * 100 + k % 100, i, i, i)
        if x["pure"]:
            body += " virtual int v%d() const = 0;\n virtual ~%s() {}\n" % (i, cname(k, i))
        else:
            for a in sorted(anc):
                if cs[a - 1]["pure"]:
                    body += " int v%d() const override { return %d; }\n" % (a, i)
        cl = "%s %s%s {\n%s};\n" % (x["kind"], cname(k, i), (" : " + ", ".join(bl)) if bl else "", body)
        t += al + {"distinct": cl, "namespaces": "namespace n%d {\n%s}\n" % (i, cl), "nested": "struct O%d_%d { int o;\n%s};\n" % (k, i, cl)}[sch]
        if x["bound"]:
            gen.append(rust(k, i, sch))
            if not x["pure"]:
                t += "inline std::unique_ptr<%s> mk%d() { return std::unique_ptr<%s>(new %s()); }\n" % (name(i), i, name(i), name(i))
                gen.append("g%d::mk%d" % (k, i))
    for m, s in enumerate(c["chains"]):
        # the conversions as C++ makes them; a chain which C++ does not allow gives nothing
        e = "d"
        for b in s[1:]:
            e = "up%d<%s>(%s)" % (k, name(b), e)
        t += "inline size_t at%d(const %s& d) { return (size_t)&%s; }\n" % (m, name(s[0]), e)
        gen.append("g%d::at%d" % (k, m))
    t = "template<class B, class D> const B& up%d(const D& d) { return d; }\nnamespace g%d {\n%s}\n" % (k, k, t)
    bound = [i for i in range(1, n + 1) if cs[i - 1]["bound"]]
    ty = lambda i: "ffi::" + rust(k, i, sch)
    rs += '    print!("{{\\"id\\":\\"%s\\",\\"offered\\":[");\n    let mut sep = "";\n' % c["id"]
    for d in bound:
        for b in bound:
            rs += '    if Probe::<%s, %s>::YES { print!("{sep}[%d,%d]"); sep = ","; }\n' % (ty(d), ty(b), d, b)
    rs += '    print!("],\\"steps\\":["); sep = "";\n'
    for m, s in enumerate(c["chains"]):
        rs += "    { let o = ffi::g%d::mk%d(); let x0: &%s = o.as_ref().unwrap(); let r = (|| -> Option<(usize, u32)> {\n" % (k, s[0], ty(s[0]))
        for q, (a, b) in enumerate(zip(s, s[1:])):
            rs += "        let x%d = Probe::<%s, %s>::to(x%d)?;\n" % (q + 1, ty(a), ty(b), q)
        q = len(s) - 1
        rs += "        Some((x%d.id%d(), x%d.get%d())) })();\n" % (q, s[-1], q, s[-1])
        rs += '        let e = ffi::g%d::at%d(x0); print!("{sep}{{\\"chain\\":%s,\\"same\\":{}}}", r == Some((e, %d))); sep = ","; }\n' % (k, m, json.dumps(s).replace(" ", ""), s[-1] * 100 + k % 100)
    rs += '    println!("]}}"); let _ = sep;\n'
    return t, gen, rs


PROBE = """
struct Probe<D, B>(std::marker::PhantomData<(D, B)>);
impl<D: AsRef<B>, B> Probe<D, B> { const YES: bool = true; fn to(d: &D) -> Option<&B> { Some(d.as_ref()) } }
trait Fallback<D, B> { const YES: bool = false; fn to<'a>(_: &'a D) -> Option<&'a B> where B: 'a { None } }
impl<D, B> Fallback<D, B> for Probe<D, B> {}
"""


def case(pid, cs, tmp):
    d = os.path.join(tmp, pid)
    os.makedirs(d, exist_ok=True)
    h, gens, fns, calls = "#pragma once\n#include <memory>\n#include <cstdint>\n#include <cstddef>\n", [], "", ""
    for k, c in enumerate(cs):
        t, g, r = graph(k, c)
        h += t
        gens += g
        fns += "#[allow(unused)]\nfn graph%d() {\n%s}\n" % (k, r)
        calls += "graph%d(); " % k
    rs = "use autocxx::prelude::*;\ninclude_cpp! {\n #include \"input.h\"\n safety!(unsafe)\n%s}\n%s%s\nfn main() { %s }\n" % (
        "".join(' generate!("%s")\n' % g for g in gens), PROBE, fns, calls)
    return {"id": pid, "header": h, "rs": rs, "outdir": d}


def conversions(cs, tmp, pid):
    """What C++ converts, asked of the compiler: {graph id: pairs}."""
    h, main = "#include <cstdio>\n#include <type_traits>\n#include <memory>\n#include <cstdint>\n#include <cstddef>\n", ""
    for k, c in enumerate(cs):
        h += graph(k, dict(c, chains=[]))[0]
        n = len(c["classes"])
        main += 'printf("%s", "{\\"id\\":\\"%s\\",\\"conv\\":[");\nbool s%d = false;\n' % ("%s", c["id"], k)
        for d in range(1, n + 1):
            for b in range(1, n + 1):
                if d != b:
                    main += 'if (std::is_convertible<const ::%s*, const ::%s*>::value) { printf("%%s[%d,%d]", s%d ? "," : ""); s%d = true; }\n' % (cpp(k, d, c["scheme"]), cpp(k, b, c["scheme"]), d, b, k, k)
        main += 'puts("]}");\n'
    p = os.path.join(tmp, pid + "_conv.cc")
    open(p, "w").write(h + "int main() {\n%s}\n" % main)
    exe = p[:-3]
    r = subprocess.run(["g++", "-std=c++14", "-w", "-o", exe, p], capture_output=True, text=True)
    if r.returncode:
        vl.die("a generated class graph is not valid C++: " + r.stderr[:2000])
    out = subprocess.run([exe], capture_output=True, text=True).stdout
    return {v["id"]: v["conv"] for v in map(json.loads, out.splitlines())}


def play(pid, cs, tmp, res):
    """Records of the graphs of one program, or an error."""
    d = os.path.join(tmp, pid)
    conv = conversions(cs, tmp, pid)
    if res["status"] != "ok":
        return None, "generation: %s" % res.get("error")
    e = compile.build_exe(d, "input.rs", jobs=1)
    if e:
        return None, e
    r = subprocess.run([os.path.join(d, "prog")], capture_output=True, text=True, errors="replace", timeout=120)
    got = {}
    for l in r.stdout.splitlines():
        v = json.loads(l)
        got[v["id"]] = v
    shutil.rmtree(d, ignore_errors=True)
    if r.returncode or len(got) < len(cs):
        return None, "the program stopped (%s): %s" % (r.returncode, r.stderr[-300:])
    return [dict(classes=c["classes"], scheme=c["scheme"], conv=conv[c["id"]], **got[c["id"]]) for c in cs], None
