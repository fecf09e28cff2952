"""Programs with a C++ superclass and Rust subclasses of it, generated from spec/Virtuals.tla: which
implementation of a virtual method runs, with what, and what its caller gets back."""
import json, os, shutil, subprocess, tempfile
from concurrent.futures import ThreadPoolExecutor
import vl, compile, wire
from wire import CPP, RS, HEAP, MODE, PRIM, WRAP

VIA = ("cpp", "ref", "super", "trait")
HOOKS = """void enter(int f); void self(int tag, const void* at); void arg(int j, int tag, const void* at, bool by_value); int ret(); int succ(int v); void born(int d);
void r_enter(int32_t f); void r_self(int32_t tag); void r_arg(int32_t j, int32_t tag, size_t at, bool by_value); int32_t r_ret();
void drive(%(sup)s& s, int32_t f, int32_t v0, int32_t v1, int32_t v2, int32_t v3); std::string driven(); int32_t who(); int32_t cstate(const %(sup)s& s);
"""
MORE = r"""
static int the_who = 0, got_tag = 0, got_same = 1; static std::vector<int> outs;
void r_enter(int32_t f) { enter(f); the_who = 2; } void r_self(int32_t tag) { recv = tag; } int32_t r_ret() { return ret(); }
void r_arg(int32_t j, int32_t tag, size_t at, bool by_value) { arg(j, tag, (const void*)at, by_value); }
int32_t who() { int w = the_who; the_who = 0; return w; }
std::string driven() { std::string s = "\"outs\":" + list(outs) + ",\"ret\":" + std::to_string(got_tag) + ",\"rsm\":" + std::to_string(got_same); return s; }
"""


def sup(p):
    return "n::Sup" if p["place"] == "n" else "Sup"


def header(p):
    decls = p["decls"]
    ctor = {"kind": "ctor", "params": p["ctor"], "ret": {"b": "-", "m": "void"}}
    used = wire.used_bases(decls + [ctor])
    hd, im = wire.base_cpp(used)
    S = sup(p)
    members, fns = [], []
    drive = []
    for i, d in enumerate(decls):
        ps = ", ".join(wire.MODE[x["m"]] % wire.CPP[x["b"]] + " a%d" % j for j, x in enumerate(d["params"]))
        post = " const" if d["kind"] == "vconst" else ""
        rt = wire.ret_cpp(d)
        members.append("%s: virtual %s %s(%s)%s%s;" % (d["vis"], rt, d["name"], ps, post, " = 0" if d["pure"] else ""))
        if not d["pure"]:
            fns.append("%s %s::%s(%s)%s { %s }" % (rt, S, d["name"], ps, post, wire.cpp_body(i, d)))
        pre, args, after = [], [], []
        for j, x in enumerate(d["params"]):
            b, m, a = x["b"], x["m"], "a%d" % j
            if m == "uptr":
                pre.append("std::unique_ptr<%s> %s(new %s(w::mk_%s(v%d))); w::expect(%d, size_t(%s.get()));" % (CPP[b], a, CPP[b], b, j, j, a))
            elif m == "sptr":
                pre.append("auto %s = std::make_shared<%s>(w::mk_%s(v%d)); w::expect(%d, size_t(%s.get()));" % (a, CPP[b], b, j, j, a))
                after.append("w::outs[%d] = w::tag_%s(*%s);" % (j, b, a))
            else:
                pre.append("%s %s = w::mk_%s(v%d); w::expect(%d, size_t(&%s));" % (CPP[b], a, b, j, j, a))
                if m not in ("val", "rref"):
                    after.append("w::outs[%d] = w::tag_%s(%s);" % (j, b, a))
            args.append({"val": "std::move(%s)", "uptr": "std::move(%s)", "rref": "std::move(%s)", "cptr": "&%s", "mptr": "&%s"}.get(m, "%s") % a)
        call = "%s.%s(%s)" % ("static_cast<const %s&>(s)" % S if d["kind"] == "vconst" else "s", d["name"], ", ".join(args))
        r = d["ret"]
        if r["m"] == "void":
            call += ";"
        elif r["m"] == "val":
            call = "%s r = %s; w::got_tag = w::tag_%s(r);" % (CPP[r["b"]], call, r["b"])
        elif r["m"] in ("uptr", "sptr"):
            call = "auto r = %s; w::got_tag = w::tag_%s(*r);" % (call, r["b"])
        else:
            amp = "&" if r["m"] in ("cref", "mref") else ""
            call = "auto r = %s%s; w::got_tag = w::tag_%s(*r); w::got_same = size_t(r) == w::slot_a;" % (amp, "(" + call + ")" if amp else call, r["b"])
        drive.append("case %d: { %s w::outs.assign(%d, 0); w::expect(-1, size_t(&s)); %s %s break; }" % (i, " ".join(pre), len(d["params"]), call, " ".join(after)))
    cp = ", ".join(wire.MODE[x["m"]] % wire.CPP[x["b"]] + " a%d" % j for j, x in enumerate(p["ctor"]))
    cbody = "".join(" w::ctor_args.push_back(w::tag_%s(%s));" % (x["b"], "a%d" % j if x["m"] in ("val", "cref", "mref", "rref") else "*a%d" % j) for j, x in enumerate(p["ctor"]))
    fns.append("%s::Sup(%s) { state = 1; w::born(1);%s } %s::~Sup() { w::born(-1); } int32_t %s::rd_state() const { return state; }" % (S, cp, cbody, S, S))
    hooks = HOOKS % {"sup": S} + "std::string ctor_taken(); struct Drv;\n" + "\n".join("%s mk_%s(int v); int tag_%s(const %s& x); void set_%s(%s& x, int v); %s& slot_%s(); %s* pslot_%s(); void chg_%s(%s& x, int32_t v);" % (
        CPP[k], k, k, CPP[k], k, CPP[k], CPP[k], k, CPP[k], k, k, CPP[k]) for k in sorted(used))
    fwd = "namespace n { class Sup; }" if p["place"] == "n" else "class Sup;"
    cvis = "protected" if p["cprot"] else "public"
    klass = "class Sup { %s public: int32_t rd_state() const; virtual ~Sup(); %s: Sup(%s); friend struct w::Drv; private: int state; };" % (" ".join(members), cvis, cp)
    text = fwd + "\n" + wire.HELP.replace("#pragma once\n", "") % {"decl": hd}
    text = "#pragma once\n#include <cstdint>\n#include <cstddef>\n#include <string>\n" + text + "namespace w {\n" + hooks + "\n}\n" + wire.nest("n" if p["place"] == "n" else "", klass) + "\n"
    im += "\n".join("%s* pslot_%s() { return &slot_%s(); } void chg_%s(%s& x, int32_t v) { set_%s(x, v); }" % (CPP[k], k, k, k, CPP[k], k) for k in sorted(used))
    im = MORE + "static std::vector<int> ctor_args; std::string ctor_taken() { auto s = list(ctor_args); ctor_args.clear(); return s; }\n" + im
    cc = wire.IMPL % {"impl": im, "fns": "\n".join(fns) + "\nnamespace w { struct Drv { static void go(%s& s, int f, int v0, int v1, int v2, int v3) { got_tag = 0; got_same = 1; switch (f) { %s } } };\n" % (S, "\n".join(drive)) +
                      "void drive(%s& s, int32_t f, int32_t v0, int32_t v1, int32_t v2, int32_t v3) { Drv::go(s, f, v0, v1, v2, v3); } int32_t cstate(const %s& s) { return s.rd_state(); } }" % (S, S)}
    return text, cc.replace("void enter(int f) { entered++;", "void enter(int f); static void was(int); void enter(int f) { was(1); entered++;").replace(MORE, MORE + "static void was(int w) { the_who = w; }\n")


def rs_type(x, ret=False):
    t, m, b = RS[x["b"]], x["m"], x["b"]
    heap = b in HEAP
    return {"val": "cxx::UniquePtr<%s>" % t if heap else t, "cref": "&%s" % t, "mref": "std::pin::Pin<&mut %s>" % t, "cptr": "*const %s" % t, "mptr": "*mut %s" % t,
            "uptr": "cxx::UniquePtr<%s>" % t, "sptr": "cxx::SharedPtr<%s>" % t, "rref": "*mut %s" % t}[m]


def override(i, d):
    b = ["ffi::w::r_enter(%d); ffi::w::r_self(self.st);" % (i + 1)]
    for j, x in enumerate(d["params"]):
        a, k, m = "a%d" % j, x["b"], x["m"]
        byval = m == "val"
        place = a if m == "val" and k not in HEAP else "(*%s)" % a
        b.append("let mut %s = %s; let t%d = %s;" % (a, a, j, wire.rs_tag(k, place)))
        b.append("ffi::w::r_arg(%d, t%d, %s, %s);" % (j, j, "0" if byval else "&%s as *const _ as *const u8 as usize" % place, "true" if byval else "false"))
        if m in ("mref", "mptr", "sptr"):
            n = "sc_%s(t%d)" % ("b" if k == "bool" else "n", j)
            raw = {"mref": "std::pin::Pin::get_unchecked_mut(%s.as_mut()) as *mut _" % a, "mptr": a, "sptr": "&*%s as *const _ as *mut _" % a}[m]
            b.append("{ let p: *mut %s = %s; %s }" % (RS[k], raw, "ffi::w::chg_%s(std::pin::Pin::new_unchecked(&mut *p), %s);" % (k, n) if k in HEAP else "*p = %s;" % wire.rs_value(k, n)))
    if d["kind"] == "vmut":
        b.append("self.st = sc_n(self.st);")
    k, m = d["ret"]["b"], d["ret"]["m"]
    b.append("let r = ffi::w::r_ret();")
    if m == "val" and k not in HEAP:
        b.append(wire.rs_value(k, "r"))
    elif m in ("val", "uptr"):
        b.append("ffi::w::new_%s(r)" % k)
    elif m == "sptr":
        b.append("ffi::w::shared_%s(r)" % k)
    elif m != "void":
        b.append({"cref": "&*ffi::w::pslot_%s()", "mref": "std::pin::Pin::new_unchecked(&mut *ffi::w::pslot_%s())", "cptr": "ffi::w::pslot_%s() as *const _", "mptr": "ffi::w::pslot_%s()"}[m] % k)
    lt = "<'a>" if m in ("cref", "mref") else ""
    def ty(x):
        return rs_type(x)
    uns = "unsafe " if any(x["m"] in ("cptr", "mptr") for x in d["params"]) else ""
    sig = "%sfn %s(%s%s)%s" % (uns, d["rust"], "&self" if d["kind"] == "vconst" else "&mut self", "".join(", a%d: %s" % (j, ty(x)) for j, x in enumerate(d["params"])), "" if m == "void" else " -> " + ty(d["ret"]))
    return sig + " { unsafe { " + " ".join(b) + " } }"


def caller(i, d, o, via):
    """Rust calling method i of object o: through the superclass type, the superclass's version, or the trait."""
    pre, args, post = wire.rs_args(d)
    c = d["kind"] == "vconst"
    A = ", ".join(args)
    ob = "st.%s" % "ab"[o]
    n = d["rust"]
    if via == "ref":
        pre.append("let p: *const %s = { let x = %s.borrow(); let y: &%s = (*x).as_ref(); y as *const _ };" % ("SUP", ob, "SUP"))
        call = "(*p).%s(%s)" % (n, A) if c else "std::pin::Pin::new_unchecked(&mut *(p as *mut SUP)).%s(%s)" % (n, A)
    elif via == "super":
        pre.append("let p: *const %sCpp = { let x = %s.borrow(); x.peer() as *const _ };" % ("ffi::My" + "AB"[o], ob))
        sn = n + "super_" if n.endswith("_") else n + "_super"
        call = "(*p).%s(%s)" % (sn, A) if c else "std::pin::Pin::new_unchecked(&mut *(p as *mut ffi::My%sCpp)).%s(%s)" % ("AB"[o], sn, A)
    else:
        call = "METHODS::%s(&%s*g%s)" % (n, "" if c else "mut ", ", " + A if A else "")
        pre.append("let %sg = %s.borrow%s();" % ("" if c else "mut ", ob, "" if c else "_mut"))
    pre.append("ffi::w::expect(-1, { let z = addr(&*st, %d); z });" % o if via != "trait" else "ffi::w::expect(-1, { let y: &SUP = (*g).as_ref(); y as *const _ as usize });")
    rec = ["let mut outs = vec![0i32; %d]; let mut ret = 0i32; let mut rsm = true;" % len(d["params"])]
    b, m = d["ret"]["b"], d["ret"]["m"]
    if m == "void":
        rec.append(call + ";")
    elif m == "val" and b in "OM" and via == "ref":
        rec.append("let r = %s.within_unique_ptr(); ret = %s;" % (call, wire.rs_tag(b, "(*r)")))
    elif m == "val" and b in HEAP or m in ("uptr", "sptr"):
        rec.append("let r = %s; ret = %s;" % (call, wire.rs_tag(b, "(*r)")))
    elif m == "val":
        rec.append("let r: %s = %s; ret = %s;" % (RS[b], call, wire.rs_tag(b, "r")))
    else:
        rec.append("{ let r = %s; ret = %s; rsm = &*r as *const _ as *const u8 as usize == ffi::w::slot_addr(); }" % (call, wire.rs_tag(b, "(*r)")))
    for j, e in post:
        rec.append("outs[%d] = %s;" % (j, e))
    return "fn c%d_%d_%s(v: &[i32], st: &mut St) -> (Vec<i32>, i32, bool) { unsafe { %s %s (outs, ret, rsm) } }" % (i, o, via, " ".join(pre), " ".join(rec))


RSMAIN = r"""
#![allow(unused_unsafe, unused_mut, unused_assignments, unused_variables, dead_code, unused_imports, invalid_reference_casting)]
use autocxx::prelude::*;
use autocxx::subclass::prelude::*;
use std::io::{BufRead, Write};
use std::os::raw::c_char;
include_cpp! { #include "input.h"
 safety!(unsafe_ffi)
 %(gen)s
}
trait Bits: Sized { fn eqb(&self, o: &Self) -> bool; }
macro_rules! bits { ($($t:ty)*) => { $(impl Bits for $t { fn eqb(&self, o: &Self) -> bool { let n = std::mem::size_of::<$t>(); unsafe { std::slice::from_raw_parts(self as *const _ as *const u8, n) == std::slice::from_raw_parts(o as *const _ as *const u8, n) } } })* } }
bits!(i8 u8 i16 u16 i32 u32 i64 u64 f32 f64 usize);
%(enums)s
fn tag<T: Bits>(x: &T, vs: &[T]) -> i32 { vs.iter().position(|v| v.eqb(x)).map(|i| i as i32 + 1).unwrap_or(0) }
fn tagb(x: &bool) -> i32 { match unsafe { *(x as *const bool as *const u8) } { 1 => 1, 0 => 2, _ => 0 } }
fn sc_n(v: i32) -> i32 { v %% 3 + 1 }
fn sc_b(v: i32) -> i32 { 3 - v }
%(pod)s
%(subs)s
struct St { a: std::rc::Rc<std::cell::RefCell<MyA>>, b: std::rc::Rc<std::cell::RefCell<MyB>> }
fn addr(st: &St, o: i32) -> usize { if o == 0 { let x = st.a.borrow(); let y: &%(SUP)s = (*x).as_ref(); y as *const _ as usize } else { let x = st.b.borrow(); let y: &%(SUP)s = (*x).as_ref(); y as *const _ as usize } }
fn sup(st: &St, o: i32) -> std::pin::Pin<&mut %(SUP)s> { unsafe { std::pin::Pin::new_unchecked(&mut *(addr(st, o) as *mut %(SUP)s)) } }
%(fns)s
fn main() {
    let out = std::io::stdout();
    for l in std::io::stdin().lock().lines() {
        let l = l.unwrap();
        let mut w = l.split(' ');
        let id = w.next().unwrap();
        let calls: Vec<Vec<i32>> = w.next().unwrap().split(';').map(|c| c.split(',').map(|x| x.parse().unwrap()).collect()).collect();
        let live0 = ffi::w::live();
        let mut made = Vec::new();
        let mut st = %(new)s;
        for (n, c) in calls.iter().enumerate() {
            let live = ffi::w::live();
            ffi::w::start(c[3]);
            ffi::w::who();
            let r = match (c[0], c[1], c[2]) {
                (o, f, 0) => { let mut v = c[4..].to_vec(); v.resize(4, 1); ffi::w::drive(sup(&st, o), f, v[0], v[1], v[2], v[3]); None }
                %(tab)s
                _ => panic!("no such call"),
            };
            let now = ffi::w::live();
            let (took, who) = (ffi::w::taken(), ffi::w::who());
            let res = match r { None => ffi::w::driven().as_ref().unwrap().to_str().unwrap().to_string(), Some((outs, ret, rsm)) => format!("\"outs\":{:?},\"ret\":{},\"rsm\":{}", outs, ret, rsm as i32) };
            writeln!(out.lock(), "{{\"id\":\"{}\",\"step\":{},\"who\":{},{},{},\"live\":{},\"cs\":[{},{}],\"rs\":[{},{}]}}", id, n, who, took.as_ref().unwrap().to_str().unwrap(), res, now - live,
                ffi::w::cstate(&*sup(&st, 0)), ffi::w::cstate(&*sup(&st, 1)), st.a.borrow().st, st.b.borrow().st).unwrap();
        }
        drop(st);
        writeln!(out.lock(), "{{\"id\":\"{}\",\"step\":-1,\"made\":[{}],\"left\":{}}}", id, made.join(","), ffi::w::live() - live0).unwrap();
    }
}
"""


def rust_main(p):
    decls = p["decls"]
    S = "ffi::" + sup(p)
    M = ("ffi::n::" if p["place"] == "n" else "ffi::") + "Sup_methods"
    used = wire.used_bases(decls + [{"params": p["ctor"], "ret": {"m": "void", "b": "-"}}])
    gen = 'generate_ns!("w") generate!("%s")' % sup(p)
    if "P" in used:
        gen += ' generate_pod!("w::P")'
    gen += ' subclass!("%s", MyA) subclass!("%s", MyB)' % (sup(p), sup(p))
    enums = " ".join("impl Bits for %s { fn eqb(&self, o: &Self) -> bool { unsafe { let n = std::mem::size_of::<Self>(); std::slice::from_raw_parts(self as *const _ as *const u8, n) == std::slice::from_raw_parts(o as *const _ as *const u8, n) } } }" % RS[e] for e in ("E", "EC") if e in used)
    pod = "fn mkp(v: i32) -> ffi::w::P { ffi::w::P { a: (-40 * v) as i8, b: v as f64 * 0.1, c: (65530 + v) as u16 } } fn tagp(p: &ffi::w::P) -> i32 { for v in 1..4 { let q = mkp(v); if q.a == p.a && q.b == p.b && q.c == p.c { return v; } } 0 }" if "P" in used else ""
    subs, fns, tab = [], [], []
    cpre, cargs, _ = wire.rs_args({"params": p["ctor"]})
    for o in (0, 1):
        N = "My" + "AB"[o]
        subs.append("#[subclass]\npub struct %s { st: i32, cv: Vec<i32> }" % N)
        subs.append("impl %s for %s { %s }" % (M, N, "\n".join(override(i, d) for i, d in enumerate(decls) if i + 1 in p["over"][o])))
        if p["ctor"]:
            subs.append("impl CppPeerConstructor<ffi::%sCpp> for %s { fn make_peer(&mut self, h: CppSubclassRustPeerHolder<Self>) -> cxx::UniquePtr<ffi::%sCpp> { unsafe { let v = self.cv.clone(); %s use autocxx::moveit::Emplace; ffi::%sCpp::new(h, %s).within_unique_ptr() } } }" % (
                N, N, N, " ".join(cpre), N, ", ".join(cargs)))
        for i, d in enumerate(decls):
            for via in ("ref", "super", "trait"):
                if via == "super" and d["pure"] or via == "ref" and d["vis"] == "protected":
                    continue
                fns.append(caller(i, d, o, via).replace("SUP", S).replace("METHODS", M))
                tab.append("(%d, %d, %d) => Some(c%d_%d_%s(&c[4..], &mut st))," % (o, i, VIA.index(via), i, o, via))
    new = "{ let a = MyA::new_rust_owned(MyA { st: 1, cv: vec!%(a)s, cpp_peer: Default::default() }); made.push(ffi::w::ctor_taken().as_ref().unwrap().to_str().unwrap().to_string()); let b = MyB::new_rust_owned(MyB { st: 1, cv: vec!%(b)s, cpp_peer: Default::default() }); made.push(ffi::w::ctor_taken().as_ref().unwrap().to_str().unwrap().to_string()); St { a, b } }" % {"a": p["cargs"][0], "b": p["cargs"][1]}
    return RSMAIN % {"gen": gen, "enums": enums, "pod": pod, "subs": "\n".join(subs), "fns": "\n".join(fns), "tab": "\n".join(tab), "SUP": S, "new": new}


def case(p, tmp):
    d = os.path.join(tmp, p["id"])
    os.makedirs(d, exist_ok=True)
    h, cc = header(p)
    open(os.path.join(d, "impl.cc"), "w").write(cc)
    return {"id": p["id"], "header": h, "rs": rust_main(p), "outdir": d, "auto_allowlist": False}


def play(p, tmp, res):
    d = os.path.join(tmp, p["id"])
    rec = {"id": p["id"], "decls": p["decls"], "names": p["names"], "over": p["over"], "ctor": p["ctor"], "cargs": p["cargs"], "calls": p["calls"], "steps": [], "made": [], "left": 99}
    if res["status"] != "ok":
        return rec, "generation: %s" % res.get("error")
    e = compile.build_exe(d, "input.rs", jobs=1)
    if e:
        return rec, e
    line = p["id"] + " " + ";".join(",".join(str(x) for x in [c["o"] - 1, c["f"] - 1, VIA.index(c["via"]), c["r"]] + c["v"]) for c in p["calls"])
    try:
        r = subprocess.run([os.path.join(d, "prog")], input=line + "\n", capture_output=True, text=True, errors="replace", timeout=60, env=dict(os.environ, RUST_BACKTRACE="0"))
    except subprocess.TimeoutExpired:
        return rec, "hung"
    for l in r.stdout.splitlines():
        try:
            v = json.loads(l)
        except ValueError:
            break
        if v["step"] < 0:
            rec["made"], rec["left"] = v["made"], v["left"]
        else:
            s = {k: v[k] for k in ("n", "f", "recv", "tags", "outs", "ret", "live", "cs", "rs")}
            s.update(who={1: "cpp", 2: "rust"}.get(v["who"], "nobody"), same=[x == 1 for x in v["same"]], rsame=v["rsame"] == 1, rsm=v["rsm"] == 1)
            rec["steps"].append(s)
    shutil.rmtree(d, ignore_errors=True)
    return rec, None if r.returncode == 0 else "the program stopped (%s): %s" % (r.returncode, r.stderr[-300:])


BIG = 10 ** 9
q = lambda s: "{" + ", ".join('"%s"' % x for x in s) + "}"


def consts(bases=tuple(wire.CPP), md=6, mc=24, mp=3, names=("f", "g", "h"), ctor=2, places=("root", "n"), ways=("cpp", "cpp", "ref", "super", "trait")):
    return "CONSTANTS Bases = %s\n MaxDecls = %d\n MaxCalls = %d\n MaxParams = %d\n Names = %s\n Owners = {\"V\"}\n Kinds = {\"vconst\", \"vmut\"}\n Dresses = {\"\"}\n MaxCtor = %d\n Places = %s\n Ways = %s\n Keywords = %s\n" % (
        q(bases), md, mc, mp, q(names), ctor, q(places), q(ways), q(wire.KEYWORDS))


def odd(d):
    """What autocxx is known not to cope with in an overridable method (a program of its own each)."""
    if d["ret"]["m"] in ("cref", "mref"):
        return "reference result"
    if any(x["m"] == "rref" for x in d["params"]):
        return "rvalue reference parameter"
    return ""


def pack(cases, size):
    """Programs made of the one-method cases, `size` methods each."""
    progs = []
    for cs in vl.chunks(cases, size):
        p = dict(cs[0], decls=[], names=[], calls=[], over=[list(range(1, len(cs) + 1)), []] if len(progs) % 2 == 0 else [[], list(range(1, len(cs) + 1))])
        for i, c in enumerate(cs):
            n = "f%d" % i
            p["decls"].append(dict(c["decls"][0], name=n))
            p["names"].append(n)
            p["calls"] += [dict(x, f=i + 1) for x in c["calls"]]
        progs.append(p)
    return progs


def show(d):
    return "%s%s %s(%s) -> %s %s" % ("pure " if d["pure"] else "", d["kind"], d["name"], ", ".join("%s %s" % (p["b"], p["m"]) for p in d["params"]), d["ret"]["b"], d["ret"]["m"])


def run(ck):
    Q = ck.quick
    inv = "INVARIANTS VCallsOk VSetupOk VStatesOk PureIsRust Apart2 VEmitSim\nCHECK_DEADLOCK FALSE\n"
    each = ("Virtuals", "SPECIFICATION EachVSpec\n" + consts() + "INVARIANTS VCallsOk VEmitEach\nCHECK_DEADLOCK FALSE\n", {})
    shapes = [dict(md=6, mc=30, mp=3), dict(md=4, mc=24, mp=4, names=("f",)), dict(md=9, mc=40, mp=2, names=("f", "g"), ctor=4), dict(md=3, mc=20, mp=1, ctor=3), dict(md=7, mc=30, mp=2, names=("type", "f_", "Sup1", "drop"))]
    sims = [("Virtuals", "SPECIFICATION VSimSpec\n" + consts(**s) + inv,
             dict(extra=["-simulate", "num=%d" % (6 if Q else 60), "-depth", "400", "-seed", str(vl.SEED + k)])) for k, s in enumerate(shapes)]
    rs = vl.tlc_many([each] + sims)
    ck.model(rs[0], "overridable methods of every type in every mode")
    ones = rs[0].lines("CASE:")
    plain = vl.seeded_pick([c for c in ones if not odd(c["decls"][0])], 160 if Q else BIG)
    strange = [c for c in ones if odd(c["decls"][0])]
    kinds = {}
    for c in vl.seeded_pick(strange, BIG):
        kinds.setdefault((odd(c["decls"][0]), c["decls"][0]["kind"]), []).append(c)
    progs = pack(plain, 8)
    for v in kinds.values():
        for p in pack(v[:1 if Q else 6], 1):
            if odd(p["decls"][0]).startswith("rvalue"):
                p["over"] = [[], []]
            progs.append(p)
    for r, s in zip(rs[1:], shapes):
        ck.model(r, "random superclasses of %d methods" % s["md"])
        progs += r.lines("CASE:")
    tmp = tempfile.mkdtemp(prefix="virtuals_", dir=vl.WORK)
    try:
        for i, p in enumerate(progs):
            p["id"] = "v%d" % i
            for d, n in zip(p["decls"], p["names"]):
                d["rust"] = n
        cases = [case(p, tmp) for p in progs]
        res = vl.run_axv(cases)
        compile.rt()
        with ThreadPoolExecutor(vl.NCPU) as ex:
            out = list(ex.map(lambda p: play(p, tmp, res[p["id"]]), progs))
        recs = []
        for p, (rec, err), cs in zip(progs, out, cases):
            if err and not rec["steps"]:
                o = {odd(d) for d in p["decls"]} - {""}
                known = {"reference result": "E0515", "rvalue reference parameter": "pointer argument requires that the function be marked unsafe"}
                key = "build: " + ", ".join([k for k in o if known[k] in err] or [err[:80]])
                ck.violation(key, "a program with a superclass and Rust subclasses of it does not build or run: " + "; ".join(show(d) for d in p["decls"])[:300] + ": " + err[:500], {"header": cs["header"], "rs": cs["rs"], "error": err})
            else:
                recs.append(rec)
        ck.cov["traces_validated_against_impl"] += len(recs)
        rej, st, tr = vl.validate("VirtualsTrace", recs, consts(), chunk=10, par=8)
        byid = {p["id"]: (p, cs) for p, cs in zip(progs, cases)}
        for j in rej:
            p, cs = byid[j["id"]]
            rec = next(r for r in recs if r["id"] == j["id"])
            if set(j["why"]) & {"wrong-construction", "not-freed"}:
                ck.violation("ends " + ",".join(sorted(j["why"])), "superclass constructor %s with %s: %s: recorded %s, %s" % (p["ctor"], p["cargs"], j["why"], rec["made"], rec["left"]), {"header": cs["header"], "rs": cs["rs"]})
                continue
            c = p["calls"][j["at"] - 1]
            d = p["decls"][c["f"] - 1]
            got = rec["steps"][j["at"] - 1] if j["at"] <= len(rec["steps"]) else "nothing"
            ck.violation(show(d) + " via " + c["via"] + " " + ",".join(sorted(j["why"])), "calling %s as %s (overridden by %s): %s: recorded %s" % (show(d), c, p["over"], sorted(j["why"]), json.dumps(got)),
                         {"decls": p["decls"], "call": c, "step": got, "header": cs["header"], "rs": cs["rs"]})
        ck.add("superclass_programs", len(progs))
        ck.add("virtual_methods", sum(len(p["decls"]) for p in progs))
        ck.add("virtual_calls", sum(len(r["steps"]) for r in recs))
        ck.sample({"method": show(progs[-1]["decls"][0]), "overridden": progs[-1]["over"], "call": progs[-1]["calls"][0]})
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
