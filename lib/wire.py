"""Programs of C++ functions, generated from spec/Calls.tla, called through real bindings: what each
C++ function is called with and what Rust gets back is recorded."""
import json, os, shutil, subprocess
from concurrent.futures import ThreadPoolExecutor
import vl, compile

# base type: (C++, Rust, the three values in C++, the three values in Rust)
SAME = {"sh": "i16", "ush": "u16", "int": "i32", "uint": "u32", "long": "i64", "ulong": "u64", "usize": "u64"}
PRIM = {
    "i8": ("int8_t", "i8", ("-128", "127", "3"), ("-128i8", "127i8", "3i8")),
    "u8": ("uint8_t", "u8", ("255", "0", "130"), ("255u8", "0u8", "130u8")),
    "i16": ("int16_t", "i16", ("-32768", "32767", "258"), ("-32768i16", "32767i16", "258i16")),
    "u16": ("uint16_t", "u16", ("65535", "0", "32770"), ("65535u16", "0u16", "32770u16")),
    "i32": ("int32_t", "i32", ("(-2147483647-1)", "2147483647", "65537"), ("i32::MIN", "i32::MAX", "65537i32")),
    "u32": ("uint32_t", "u32", ("4294967295u", "0", "2147483650u"), ("u32::MAX", "0u32", "2147483650u32")),
    "i64": ("int64_t", "i64", ("INT64_MIN", "INT64_MAX", "4294967297"), ("i64::MIN", "i64::MAX", "4294967297i64")),
    "u64": ("uint64_t", "u64", ("UINT64_MAX", "0", "9223372036854775810u"), ("u64::MAX", "0u64", "9223372036854775810u64")),
    "sh": ("short", "autocxx::c_short", ("-32768", "32767", "258"), ("-32768", "32767", "258")),
    "ush": ("unsigned short", "autocxx::c_ushort", ("65535", "0", "32770"), ("65535", "0", "32770")),
    "int": ("int", "autocxx::c_int", ("(-2147483647-1)", "2147483647", "65537"), ("i32::MIN", "i32::MAX", "65537")),
    "uint": ("unsigned int", "autocxx::c_uint", ("4294967295u", "0", "2147483650u"), ("u32::MAX", "0", "2147483650")),
    "long": ("long", "autocxx::c_long", ("LONG_MIN", "LONG_MAX", "4294967297"), ("i64::MIN", "i64::MAX", "4294967297")),
    "ulong": ("unsigned long", "autocxx::c_ulong", ("ULONG_MAX", "0", "9223372036854775810u"), ("u64::MAX", "0", "9223372036854775810")),
    "ll": ("long long", "autocxx::c_longlong", ("LLONG_MIN", "LLONG_MAX", "4294967297"), ("i64::MIN", "i64::MAX", "4294967297")),
    "ull": ("unsigned long long", "autocxx::c_ulonglong", ("ULLONG_MAX", "0", "9223372036854775810u"), ("u64::MAX", "0", "9223372036854775810")),
    "bool": ("bool", "bool", ("true", "false"), ("true", "false")),
    "f32": ("float", "f32", ("1.0e-42f", "-INFINITY", "16777216.0f"), ("1.0e-42f32", "f32::NEG_INFINITY", "16777216.0f32")),
    "f64": ("double", "f64", ("4.9e-324", "-INFINITY", "9007199254740993.0"), ("4.9e-324f64", "f64::NEG_INFINITY", "9007199254740993.0f64")),
    "char": ("char", "c_char", ("'a'", "'\\x80'", "'\\0'"), ("b'a' as c_char", "0x80u8 as c_char", "0 as c_char")),
    "usize": ("size_t", "usize", ("SIZE_MAX", "0", "4294967298u"), ("usize::MAX", "0usize", "4294967298usize")),
    "E": ("w::E", "ffi::w::E", ("w::E1", "w::E2", "w::E3"), ("ffi::w::E::E1", "ffi::w::E::E2", "ffi::w::E::E3")),
    "EC": ("w::EC", "ffi::w::EC", ("w::EC::X", "w::EC::Y", "w::EC::Z"), ("ffi::w::EC::X", "ffi::w::EC::Y", "ffi::w::EC::Z")),
    "P": ("w::P", "ffi::w::P", ("w::mkP(1)", "w::mkP(2)", "w::mkP(3)"), ("mkp(1)", "mkp(2)", "mkp(3)")),
}
WRAP = ("sh", "ush", "int", "uint", "long", "ulong", "ll", "ull")
HEAP = {"S": ("std::string", "cxx::CxxString"), "O": ("w::O", "ffi::w::O"), "M": ("w::M", "ffi::w::M"), "Vi": ("std::vector<int32_t>", "cxx::CxxVector<i32>"), "VO": ("std::vector<w::O>", "cxx::CxxVector<ffi::w::O>"),
        "Vd": ("std::vector<double>", "cxx::CxxVector<f64>"), "VS": ("std::vector<std::string>", "cxx::CxxVector<cxx::CxxString>")}
CPP = dict([(k, v[0]) for k, v in PRIM.items()] + [(k, v[0]) for k, v in HEAP.items()])
RS = dict([(k, v[1]) for k, v in PRIM.items()] + [(k, v[1]) for k, v in HEAP.items()])
MODE = {"val": "%s", "cref": "const %s&", "mref": "%s&", "rref": "%s&&", "cptr": "const %s*", "mptr": "%s*", "uptr": "std::unique_ptr<%s>", "sptr": "std::shared_ptr<%s>"}
OWN = {"root": ("", ""), "n": ("n", ""), "n::m": ("n::m", ""), "C": ("", "C"), "C2": ("n", "C2"), "In": ("n", "C2::In"), "C3": ("n::m", "C3")}
RSOWN = {"root": "ffi", "n": "ffi::n", "n::m": "ffi::n::m", "C": "ffi::C", "C2": "ffi::n::C2", "In": "ffi::n::C2_In", "C3": "ffi::n::m::C3"}
CLASSES = ("C", "C2", "In", "C3")

# Names which mean something in Rust, or to the tool.
KEYWORDS = ("as", "type", "move", "match", "Self", "impl")
WORDS = KEYWORDS + ("f", "as_", "f_", "C1", "C31", "In1", "C2_", "clone", "u8")
PNAMES = ("self", "type", "Self", "match", "in", "arg0", "impl")

HELP = r"""#pragma once
#include <cstdint>
#include <climits>
#include <cmath>
#include <memory>
#include <string>
#include <vector>
namespace w {
enum E { E1 = 5, E2 = -7, E3 = 1000000 };
enum class EC : uint8_t { X = 200, Y = 0, Z = 7 };
struct P { int8_t a; double b; uint16_t c; };
class O { public: explicit O(int v); ~O(); O(const O& o); O& operator=(const O& o); O(O&& o); private: O* self; int v; std::string s; friend int tagO(const O& o); friend void setO(O& o, int v); };
class M { public: explicit M(int v); M(M&& m); M(const M&) = delete; M& operator=(const M&) = delete; ~M(); private: O o; friend int tagM(const M& m); friend void setM(M& m, int v); };
struct Key;
// expectations and what happened
void expect(int32_t j, size_t addr);
std::string taken();
void start(int32_t ret);
int32_t live();
size_t slot_addr();
%(decl)s
}
"""
IMPL = r"""#include "input.h"
#include <cstring>
#include <map>
namespace w {
struct Key { int v; };
static int n_live = 0, the_ret = 1, entered = 0, the_fn = 0, recv = 0, recv_same = 0;
static std::vector<int> tags, same;
static std::map<int, size_t> wanted;
static size_t slot_a = 0;
P mkP(int v) { P p; memset(&p, 0, sizeof p); p.a = int8_t(-40 * v); p.b = v * 0.1; p.c = uint16_t(65530 + v); return p; }
O::O(int v) : self(this), v(v), s(40, char('a' + v)) { n_live++; }
O::~O() { if (self != this) n_live += 1000; self = nullptr; n_live--; }
O::O(const O& o) : self(this), v(o.self == &o ? o.v : -100), s(o.s) { n_live++; }
O::O(O&& o) : self(this), v(o.self == &o ? o.v : -100), s(std::move(o.s)) { o.v = 0; n_live++; }
O& O::operator=(const O& o) { v = o.v; s = o.s; return *this; }
int tagO(const O& o) { return o.self == &o && o.s == std::string(40, char('a' + o.v)) ? o.v : 0; }
void setO(O& o, int v) { o.v = v; o.s = std::string(40, char('a' + v)); }
M::M(int v) : o(v) {} M::M(M&& m) : o(std::move(m.o)) {} M::~M() {} int tagM(const M& m) { return tagO(m.o); } void setM(M& m, int v) { setO(m.o, v); }
void expect(int32_t j, size_t addr) { wanted[j] = addr; }
void start(int32_t ret) { the_ret = ret; entered = 0; the_fn = -1; recv = 0; recv_same = 1; tags.clear(); same.clear(); slot_a = 0; }
void born(int d) { n_live += d; }
int32_t live() { return n_live; }
size_t slot_addr() { return slot_a; }
void enter(int f) { entered++; the_fn = f; }
void self(int tag, const void* at) { recv = tag; recv_same = wanted.count(-1) && wanted[-1] == size_t(at); }
void arg(int j, int tag, const void* at, bool by_value) { tags.push_back(tag); same.push_back(by_value || (wanted.count(j) && wanted[j] == size_t(at))); }
int ret() { return the_ret; }
int succ(int v) { return v %% 3 + 1; }
std::string list(const std::vector<int>& v) { std::string s = "["; for (size_t i = 0; i < v.size(); i++) s += (i ? "," : "") + std::to_string(v[i]); return s + "]"; }
std::string taken() {
  wanted.clear();
  return "\"n\":" + std::to_string(entered) + ",\"f\":" + std::to_string(the_fn) + ",\"recv\":" + std::to_string(recv) + ",\"rsame\":" + std::to_string(recv_same) + ",\"tags\":" + list(tags) + ",\"same\":" + list(same); }
template<class T> int find(const T& x, const std::vector<T>& vs) { for (size_t i = 0; i < vs.size(); i++) if (!memcmp(&x, &vs[i], sizeof x)) return int(i) + 1; return 0; }
%(impl)s
}
%(fns)s
"""


def base_cpp(used):
    """For each base type: mk_K(v), tag_K(x), set_K(x, v), and a place slot_K which references refer to."""
    out, decl = [], []
    for k in sorted(used):
        t = CPP[k]
        if k == "P":
            out.append("P mk_P(int v) { return mkP(v); } int tag_P(const P& p) { for (int v = 1; v <= 3; v++) { P q = mkP(v); if (q.a == p.a && q.b == p.b && q.c == p.c) return v; } return 0; }")
        elif k == "bool":
            out.append("bool mk_bool(int v) { return v != 2; } int tag_bool(const bool& x) { unsigned char c; memcpy(&c, &x, 1); return c == 1 ? 1 : c == 0 ? 2 : 0; }")
        elif k in PRIM:
            out.append("static const std::vector<%s> vs_%s = { %s }; %s mk_%s(int v) { return vs_%s[v - 1]; } int tag_%s(const %s& x) { return find(x, vs_%s); }" % (
                t, k, ", ".join("(%s)%s" % (t, x) for x in PRIM[k][2]), t, k, k, k, t, k))
        elif k == "S":
            out.append("std::string mk_S(int v) { return v == 1 ? std::string() : v == 2 ? std::string(\"a\\0b\\xce\\xb1\", 5) : std::string(100, 'z'); } int tag_S(const std::string& s) { for (int v = 1; v <= 3; v++) if (s == mk_S(v)) return v; return 0; }")
        elif k in "OM":
            out.append("K mk_K(int v) { return K(v); } int tag_K(const K& o) { return tagK(o); }".replace("K", k))
        else:
            el = {"Vi": "int32_t(-7 * v + i)", "Vd": "v * 0.1 + i", "VO": "O((v + i) % 3 + 1)", "VS": "std::string(30 * i, char('p' + v))"}[k]
            eq = "tagO(x[i]) == (v + i) % 3 + 1" if k == "VO" else "x[i] == %s" % el
            out.append("%s mk_%s(int v) { %s r; for (int i = 0; i < 2 * v - 2; i++) r.push_back(%s); return r; } int tag_%s(const %s& x) { for (int v = 1; v <= 3; v++) { bool ok = int(x.size()) == 2 * v - 2; for (int i = 0; ok && i < int(x.size()); i++) ok = %s; if (ok) return v; } return 0; }" % (
                t, k, t, el, k, t, eq))
        if k in "OM":
            out.append("void set_K(K& x, int v) { setK(x, v); }".replace("K", k))
        else:
            out.append("void set_%s(%s& x, int v) { x = mk_%s(v); }" % (k, t, k))
        out.append("%s& slot_%s() { static std::unique_ptr<%s> p; int before = n_live; if (!p) p.reset(new %s(mk_%s(1))); set_%s(*p, the_ret); slot_a = size_t(p.get()); n_live = before; return *p; }" % (t, k, t, t, k, k))
        # for Rust
        if k in HEAP:
            decl.append("std::unique_ptr<%s> new_%s(int32_t v); int32_t rd_%s(const %s& x);" % (t, k, k, t))
            out.append("std::unique_ptr<%s> new_%s(int32_t v) { return std::unique_ptr<%s>(new %s(mk_%s(v))); } int32_t rd_%s(const %s& x) { return tag_%s(x); }" % (t, k, t, t, k, k, t, k))
        if k in "OM":
            decl.append("std::shared_ptr<K> shared_K(int32_t v);".replace("K", k))
            out.append("std::shared_ptr<K> shared_K(int32_t v) { return std::make_shared<K>(v); }".replace("K", k))
        if k == "P":
            decl.append("std::unique_ptr<P> new_P(int32_t v); std::shared_ptr<P> shared_P(int32_t v);")
            out.append("std::unique_ptr<P> new_P(int32_t v) { return std::unique_ptr<P>(new P(mkP(v))); } std::shared_ptr<P> shared_P(int32_t v) { return std::make_shared<P>(mkP(v)); }")
        if k == "S":
            decl.append("std::shared_ptr<std::string> shared_S(int32_t v);")
            out.append("std::shared_ptr<std::string> shared_S(int32_t v) { return std::make_shared<std::string>(mk_S(v)); }")
    return "\n".join(decl), "\n".join(out)


def pname(d, j):
    return PNAMES[j] if d["dress"] == "words" else "a%d" % j


def cpp_param(d, j):
    p = d["params"][j]
    return "%s %s" % (MODE[p["m"]] % CPP[p["b"]], pname(d, j))


def cpp_body(i, d):
    s = ["w::enter(%d);" % (i + 1)]
    if d["kind"] in ("const", "mut", "vconst", "vmut"):
        s.append("w::self(state, this);")
    for j, p in enumerate(d["params"]):
        b, m = p["b"], p["m"]
        a = pname(d, j)
        x = a if m in ("val", "cref", "mref", "rref") else "*" + a
        at = "nullptr" if m == "val" else a + ".get()" if m in ("uptr", "sptr") else "&" + a if m in ("cref", "mref", "rref") else a
        s.append("w::arg(%d, w::tag_%s(%s), %s, %s);" % (j, b, x, at, "true" if m == "val" else "false"))
        if m in ("mref", "mptr", "sptr"):
            s.append("w::set_%s(%s, w::succ(w::tag_%s(%s)));" % (b, x, b, x))
    if d["kind"] in ("mut", "vmut"):
        s.append("state = w::succ(state);")
    if d["kind"] == "ctor":
        s.append("state = w::ret(); w::born(1);")
    else:
        b, m = d["ret"]["b"], d["ret"]["m"]
        if m == "val":
            s.append("return w::mk_%s(w::ret());" % b)
        elif m in ("cref", "mref"):
            s.append("return w::slot_%s();" % b)
        elif m in ("cptr", "mptr"):
            s.append("return &w::slot_%s();" % b)
        elif m == "uptr":
            s.append("return std::unique_ptr<%s>(new %s(w::mk_%s(w::ret())));" % (CPP[b], CPP[b], b))
        elif m == "sptr":
            s.append("return std::make_shared<%s>(w::mk_%s(w::ret()));" % (CPP[b], b))
    return " ".join(s)


def ret_cpp(d):
    r = d["ret"]
    return "void" if r["m"] == "void" else MODE[r["m"]] % CPP[r["b"]]


def nest(ns, s):
    for n in reversed([x for x in ns.split("::") if x]):
        s = "namespace %s { %s }" % (n, s)
    return s


def used_bases(decls):
    return {p["b"] for d in decls for p in d["params"]} | {d["ret"]["b"] for d in decls if d["ret"]["m"] != "void"} | {"O"}


def header(decls):
    """The header and the C++ file behind it."""
    used = used_bases(decls)
    hd, im = base_cpp(used)
    hdr, fns = [], []
    inner = {c: [] for c in CLASSES}
    free = []
    for i, d in enumerate(decls):
        ps = ", ".join(cpp_param(d, j) for j in range(len(d["params"])))
        ns, cls = OWN[d["owner"]]
        body = cpp_body(i, d)
        inline = d["dress"] == "inline"
        attr = " noexcept" if d["dress"] == "noexcept" else ""
        if cls == "":
            rt = ret_cpp(d)
            pre = "[[gnu::warn_unused_result]] " if d["dress"] == "attr" else ""
            free.append((ns, "%s%s%s %s(%s)%s%s" % (pre, "inline " if inline else "", rt, d["name"], ps, attr, ";")))
            if inline:
                hdr.append(nest(ns, "inline %s %s(%s) { %s }" % (rt, d["name"], ps, body)))
            else:
                fns.append(nest(ns, "%s %s(%s)%s { %s }" % (rt, d["name"], ps, attr, body)))
        else:
            k = d["kind"]
            base = cls.split("::")[-1]
            post = (" const" if k in ("const", "vconst") else "") + attr
            if k == "ctor":
                inner[d["owner"]].append("%s(%s)%s%s" % (base, ps, attr, ";"))
                df = "%s::%s(%s)%s { %s }" % (cls, base, ps, attr, body)
            else:
                pre = {"static": "static ", "vconst": "virtual ", "vmut": "virtual "}.get(k, "")
                inner[d["owner"]].append("%s%s %s(%s)%s;" % (pre, ret_cpp(d), d["name"], ps, post))
                df = "%s %s::%s(%s)%s { %s }" % (ret_cpp(d), cls, d["name"], ps, post, body)
            (hdr if inline else fns).append(nest(ns, ("inline " if inline else "") + df))
    # what methods need from the helpers when they are in the header
    hooks = "namespace w { void enter(int f); void self(int tag, const void* at); void arg(int j, int tag, const void* at, bool by_value); int ret(); int succ(int v); void born(int d);\n" + \
        "\n".join("%s mk_%s(int v); int tag_%s(const %s& x); void set_%s(%s& x, int v); %s& slot_%s();" % (CPP[k], k, k, CPP[k], k, CPP[k], CPP[k], k) for k in sorted(used)) + " }\n"

    def klass(c, extra=""):
        base = OWN[c][1].split("::")[-1]
        return "class %s { public: %s %s int32_t rd_state() const; void set_state(int32_t v); virtual ~%s(); private: int state; public: explicit %s(w::Key* k); };" % (base, extra, " ".join(inner[c]), base, base)
    for c in CLASSES:
        ns, cls = OWN[c]
        b = cls.split("::")[-1]
        fns.append(nest(ns, "int32_t %s::rd_state() const { return state; } void %s::set_state(int32_t v) { state = v; } %s::~%s() { w::born(-1); } %s::%s(w::Key* k) { state = k->v; w::born(1); }" % (cls, cls, cls, b, cls, b)))
    hdr0 = HELP % {"decl": hd}
    hdr0 += klass("C") + "\n" + nest("n", klass("C2", klass("In"))) + "\n" + nest("n::m", klass("C3")) + "\n"
    # (in the order of the specification)
    hdr0 += "\n".join(nest(ns, s) for ns, s in free) + "\n"
    mk = []
    for c in CLASSES:
        ns, cls = OWN[c]
        q = (ns + "::" if ns else "") + cls
        hdr0 += "namespace w { std::unique_ptr<%s> make_%s(int32_t v); }\n" % (q, c)
        mk.append("std::unique_ptr<%s> make_%s(int32_t v) { Key k{v}; return std::unique_ptr<%s>(new %s(&k)); }" % (q, c, q, q))
    text = hdr0
    if hdr:
        text += hooks + "\n".join(hdr) + "\n"
    return text, IMPL % {"impl": im + "\n" + "\n".join(mk), "fns": "\n".join(fns)}


# ---------------------------------------------------------------- Rust
def rs_value(b, v):
    if b in WRAP:
        return "%s([%s][%s as usize - 1])" % (PRIM[b][1], ", ".join(PRIM[b][3]), v)
    if b == "bool":
        return "(%s != 2)" % v
    if b in ("E", "EC"):
        return "match %s { 1 => %s, 2 => %s, _ => %s }" % (v, *PRIM[b][3])
    return "[%s][%s as usize - 1]" % (", ".join(PRIM[b][3]), v) if b != "P" else "mkp(%s)" % v


def rs_tag(b, x):
    """The tag of a Rust value or reference expression x of this type (already a place)."""
    if b in HEAP:
        return "ffi::w::rd_%s(&%s)" % (b, x)
    if b == "P":
        return "tagp(&%s)" % x
    if b in WRAP:
        return "tag(&%s.0, &[%s])" % (x, ", ".join(PRIM[b][3]))
    if b == "bool":
        return "tagb(&%s)" % x
    return "tag(&%s, &[%s])" % (x, ", ".join(PRIM[b][3]))


def rs_args(d):
    """Rust code: making the arguments, passing them, and looking at them again."""
    pre, args, post = [], [], []
    for j, p in enumerate(d["params"]):
        b, m, a, v = p["b"], p["m"], "a%d" % j, "v[%d]" % j
        heap = b in HEAP
        at = None
        if m in ("uptr", "sptr"):
            mk = ("ffi::w::new_%s(%s)" if m == "uptr" else "ffi::w::shared_%s(%s)") % (b, v)
            pre.append("let %s = %s;" % (a, mk))
            at = "&*%s as *const _ as *const u8 as usize" % a
            args.append(a if m == "uptr" else a + ".clone()")
            if m == "sptr":
                post.append((j, rs_tag(b, "(*%s)" % a)))
        elif m == "rref":
            pre.append("let %s = ffi::w::new_%s(%s);" % (a, b, v))
            at = "&*%s as *const _ as *const u8 as usize" % a
            args.append(a)
        elif heap:
            pre.append("let mut %s = ffi::w::new_%s(%s);" % (a, b, v))
            at = "&*%s as *const _ as *const u8 as usize" % a
            if m == "val":
                if b == "O" and p["how"] == "copy":
                    args.append("&*" + a)
                    post.append((j, rs_tag(b, "(*%s)" % a)))
                elif b == "S" and p["how"] == "copy":
                    args.append("&*%s.to_string_lossy()" % a)
                    post.append((j, rs_tag(b, "(*%s)" % a)))
                else:
                    args.append(a)
            else:
                args.append({"cref": "&*%s" % a, "mref": "%s.pin_mut()" % a, "cptr": "&*%s as *const _" % a, "mptr": "{ let p: *mut _ = %s.as_mut_ptr(); p }" % a}[m])
                post.append((j, rs_tag(b, "(*%s)" % a)))
        else:
            pre.append("let mut %s: %s = %s;" % (a, RS[b], rs_value(b, v)))
            if m == "val":
                args.append(a)
            else:
                at = "&%s as *const _ as *const u8 as usize" % a
                args.append({"cref": "&%s" % a, "mref": "std::pin::Pin::new(&mut %s)" % a, "cptr": "&%s as *const _" % a, "mptr": "&mut %s as *mut _" % a}[m])
                post.append((j, rs_tag(b, a)))
        if at:
            pre.append("ffi::w::expect(%d, %s);" % (j, at))
    return pre, args, post


def rs_call(i, d):
    pre, args, post = rs_args(d)
    k, own = d["kind"], d["owner"]
    A = ", ".join(args)
    rec = ["let mut outs = vec![0i32; %d]; let mut ret = 0i32; let mut rsm = true;" % len(d["params"])]
    o = "st.%s" % own.lower()
    if k in ("const", "mut", "vconst", "vmut"):
        pre.append("ffi::w::expect(-1, &*%s as *const _ as *const u8 as usize);" % o)
    if k in ("free", "static"):
        call = "%s::%s(%s)" % (RSOWN[own], d["rust"], A)
    elif k == "ctor":
        call = "%s::%s(%s)" % (RSOWN[own], d["rust"], A)
    elif k in ("const", "vconst"):
        call = "%s.%s(%s)" % (o, d["rust"], A)
    else:
        call = "%s.pin_mut().%s(%s)" % (o, d["rust"], A)
    if k == "ctor":
        rec.append("%s = %s.within_unique_ptr(); ret = %s.rd_state();" % (o, call, o))
    else:
        b, m = d["ret"]["b"], d["ret"]["m"]
        if m == "void":
            rec.append(call + ";")
        elif m == "val" and b in "OM":
            rec.append("let r = %s.within_unique_ptr(); ret = %s;" % (call, rs_tag(b, "(*r)")))
        elif m == "val" and b in HEAP or m in ("uptr", "sptr"):
            rec.append("let r = %s; ret = %s;" % (call, rs_tag(b, "(*r)")))
        elif m == "val":
            rec.append("let r: %s = %s; ret = %s;" % (RS[b], call, rs_tag(b, "r")))
        else:
            rec.append("{ let r = %s; ret = %s; rsm = &*r as *const _ as *const u8 as usize == ffi::w::slot_addr(); }" % (call, rs_tag(b, "(*r)")))
    for j, e in post:
        rec.append("outs[%d] = %s;" % (j, e))
    return "fn c%d(v: &[i32], st: &mut St) -> (Vec<i32>, i32, bool) { unsafe { %s %s (outs, ret, rsm) } }" % (i, " ".join(pre), " ".join(rec))


RSMAIN = r"""
#![allow(unused_unsafe, unused_mut, unused_assignments, unused_variables, dead_code)]
use autocxx::prelude::*;
use std::io::{BufRead, Write};
use std::os::raw::c_char;
include_cpp! { #include "input.h"
 safety!(unsafe_ffi)
 %(gen)s
}
trait Bits: Sized { fn eqb(&self, o: &Self) -> bool; }
macro_rules! bits { ($($t:ty)*) => { $(impl Bits for $t { fn eqb(&self, o: &Self) -> bool { let n = std::mem::size_of::<$t>(); unsafe { std::slice::from_raw_parts(self as *const _ as *const u8, n) == std::slice::from_raw_parts(o as *const _ as *const u8, n) } } })* } }
bits!(i8 u8 i16 u16 i32 u32 i64 u64 f32 f64 usize);
%(enums)s
fn tag<T: Bits>(x: &T, vs: &[T]) -> i32 { vs.iter().position(|v| v.eqb(x)).map(|i| i as i32 + 1).unwrap_or(0) }
fn tagb(x: &bool) -> i32 { match unsafe { *(x as *const bool as *const u8) } { 1 => 1, 0 => 2, _ => 0 } }
%(pod)s
struct St { c: UniquePtr<ffi::C>, c2: UniquePtr<ffi::n::C2>, in_: UniquePtr<ffi::n::C2_In>, c3: UniquePtr<ffi::n::m::C3> }
%(fns)s
static FNS: &[fn(&[i32], &mut St) -> (Vec<i32>, i32, bool)] = &[%(tab)s];
fn main() {
    let out = std::io::stdout();
    for l in std::io::stdin().lock().lines() {
        let l = l.unwrap();
        let mut w = l.split(' ');
        let id = w.next().unwrap();
        let mut st = St { c: ffi::w::make_C(1), c2: ffi::w::make_C2(1), in_: ffi::w::make_In(1), c3: ffi::w::make_C3(1) };
        let calls: Vec<Vec<i32>> = w.next().unwrap().split(';').map(|c| c.split(',').map(|x| x.parse().unwrap()).collect()).collect();
        let mut live = ffi::w::live();
        for (n, c) in calls.iter().enumerate() {
            ffi::w::start(c[1]);
            let (outs, ret, rsm) = FNS[c[0] as usize](&c[2..], &mut st);
            let now = ffi::w::live();
            writeln!(out.lock(), "{{\"id\":\"{}\",\"step\":{},\"end\":{},{},\"outs\":{:?},\"ret\":{},\"rsm\":{},\"live\":{},\"st\":[{},{},{},{}]}}", id, n, n + 1 == calls.len(), ffi::w::taken().as_ref().unwrap().to_str().unwrap(),
                outs, ret, rsm, now - live, st.c.rd_state(), st.c2.rd_state(), st.in_.rd_state(), st.c3.rd_state()).unwrap();
            live = now;
        }
    }
}
"""


def rust_main(decls, discover):
    used = used_bases(decls)
    if discover and "P" not in used:
        gen = ""
    else:
        gen = "generate_ns!(\"w\") generate!(\"C\") generate!(\"n::C2\") generate!(\"n::C2_In\") generate!(\"n::m::C3\") " + \
            " ".join('generate!("%s")' % ((OWN[d["owner"]][0] + "::" if OWN[d["owner"]][0] else "") + d["rust"]) for d in decls if d["kind"] == "free")
    if any(d["name"] in WORDS and d["name"] != "f" for d in decls):
        gen = 'generate_ns!("w") generate_ns!("n") generate!("C")'
    if "P" in used:
        gen += " generate_pod!(\"w::P\")"
    enums = " ".join("impl Bits for %s { fn eqb(&self, o: &Self) -> bool { unsafe { let n = std::mem::size_of::<Self>(); std::slice::from_raw_parts(self as *const _ as *const u8, n) == std::slice::from_raw_parts(o as *const _ as *const u8, n) } } }" % RS[e] for e in ("E", "EC") if e in used)
    pod = "fn mkp(v: i32) -> ffi::w::P { ffi::w::P { a: (-40 * v) as i8, b: v as f64 * 0.1, c: (65530 + v) as u16 } } fn tagp(p: &ffi::w::P) -> i32 { for v in 1..4 { let q = mkp(v); if q.a == p.a && q.b == p.b && q.c == p.c { return v; } } 0 }" if "P" in used else ""
    fns = [rs_call(i, d).replace("st.in.", "st.in_.").replace("*st.in ", "*st.in_ ").replace("st.in =", "st.in_ =") for i, d in enumerate(decls)]
    return RSMAIN % {"gen": gen, "enums": enums, "pod": pod, "fns": "\n".join(fns), "tab": ", ".join("c%d" % i for i in range(len(decls)))}


def case(pid, decls, discover, tmp):
    """Writes the C++ side; what the harness is to do."""
    d = os.path.join(tmp, pid)
    os.makedirs(d, exist_ok=True)
    h, cc = header(decls)
    open(os.path.join(d, "impl.cc"), "w").write(cc)
    return {"id": pid, "header": h, "rs": rust_main(decls, discover), "outdir": d, "auto_allowlist": discover}


def line(pid, decls, calls):
    return pid + " " + ";".join(",".join(str(x) for x in [c["f"] - 1, c["r"]] + c["v"]) for c in calls)


def play(p, tmp, res):
    """Compiles and runs one program; returns its record."""
    d = os.path.join(tmp, p["id"])
    rec = {"id": p["id"], "decls": p["decls"], "names": p["names"], "calls": p["calls"], "steps": []}
    if res["status"] != "ok":
        return rec, "generation: %s" % res.get("error")
    e = compile.build_exe(d, "input.rs", jobs=1)
    if e:
        return rec, e
    try:
        r = subprocess.run([os.path.join(d, "prog")], input=line(p["id"], p["decls"], p["calls"]) + "\n", capture_output=True, text=True, errors="replace", timeout=60, env=dict(os.environ, RUST_BACKTRACE="0"))
    except subprocess.TimeoutExpired:
        return rec, "hung"
    for l in r.stdout.splitlines():
        try:
            v = json.loads(l)
        except ValueError:
            break
        rec["steps"].append({k: v[k] for k in ("n", "f", "recv", "rsame", "tags", "same", "outs", "ret", "rsm", "live", "st")})
        rec["steps"][-1]["same"] = [x == 1 for x in v["same"]]
        rec["steps"][-1]["rsame"] = v["rsame"] == 1
    shutil.rmtree(d, ignore_errors=True)
    return rec, None if r.returncode == 0 else "the program stopped (%s): %s" % (r.returncode, r.stderr[-300:])


def pack(decls, cap, ncalls=3):
    """Puts functions declared one at a time together into programs: functions get names of their own,
    constructors go where they do not clash."""
    progs = []
    for d in decls:
        key = (d["owner"], json.dumps([(SAME.get(p["b"], p["b"]), p["m"] if p["m"] in ("cptr", "mptr", "uptr", "sptr") else "direct") for p in d["params"]]))
        for p in progs:
            if len(p["decls"]) < cap and not (d["kind"] == "ctor" and key in p["keys"]):
                break
        else:
            p = {"decls": [], "names": [], "keys": set(), "ctors": {}, "calls": []}
            progs.append(p)
        d = dict(d)
        if d["kind"] == "ctor":
            p["keys"].add(key)
            k = p["ctors"].get(d["owner"], 0)
            p["ctors"][d["owner"]] = k + 1
            p["names"].append("new" + (str(k) if k else ""))
        else:
            d["name"] = "f%d" % len(p["decls"])
            p["names"].append(d["name"])
        p["decls"].append(d)
        f = len(p["decls"])
        n = 2 if any(x["b"] == "bool" for x in d["params"]) else 3
        nr = 1 if d["kind"] != "ctor" and d["ret"]["m"] == "void" else 2 if d["ret"]["b"] == "bool" else 3
        for j in range(ncalls):
            p["calls"].append({"f": f, "v": [(j + x) % n + 1 for x in range(len(d["params"]))], "r": (j + 1) % nr + 1})
    for p in progs:
        del p["keys"], p["ctors"]
    return progs
