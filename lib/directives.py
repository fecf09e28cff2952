"""Directives of include_cpp! as records for Config.tla, and as text for the real parser."""
import random

S = lambda v: {"t": "str", "v": v}
I = lambda v: {"t": "id", "v": v}
P = lambda v: {"t": "path", "v": v}
G = lambda v: {"t": "sig", "v": v}
C = {"t": "comma", "v": ","}
D = lambda d, *a: {"d": d, "args": list(a)}

VOCAB = [
    D("#include", S("a.h")), D("#include", S("b.h")),
    D("generate", S("A")), D("generate", S("B")), D("generate", S("n::A")), D("generate", S("AB")), D("generate_pod", S("A")), D("generate_pod", S("P")),
    D("generate_ns", S("n")), D("generate_ns", S("n::m")), D("generate_all"),
    D("pod", S("A")), D("pod", S("P")), D("block", S("A")), D("block", S("n::A")), D("opaque", S("A")), D("opaque", S("O")),
    D("block_constructors", S("A")), D("block_constructors", S("B")), D("instantiable", S("A")), D("instantiable", S("B")),
    D("parse_only"), D("exclude_impls"), D("exclude_utilities"), D("name", I("ffi2")), D("name", I("other")),
    D("rust_type", I("R")), D("extern_rust_type", I("Q")), D("extern_rust_type", P("m::R")), D("rust_type", P("a::b::T")),
    D("concrete", S("T<int>"), C, I("TI")), D("concrete", S("T<int>"), C, I("TJ")), D("concrete", S("T<A>"), C, I("TA")),
    D("subclass", S("Base"), C, I("Sub")), D("subclass", S("Base"), C, I("Sub2")), D("subclass", S("n::Base"), C, I("Sub3")),
    D("extern_cpp_type", S("E"), C, P("crate::E")), D("extern_cpp_opaque_type", S("E"), C, P("crate::E")), D("extern_cpp_type", S("n::E"), C, I("E")),
    D("extern_rust_function", I("f"), C, G("fnf()")), D("extern_rust_function", P("m::f"), C, G("fng(&self)")), D("extern_rust_function", I("h"), C, G("fnh(self:&R)")),
    D("extern_rust_function", I("k"), C, G("fnk(a:i32)->u8")),
    D("safety"), D("safety", {"t": "unsafe", "v": "unsafe"}), D("safety", {"t": "policy", "v": "unsafe_ffi"}), D("safety", {"t": "policy", "v": "unsafe_references_wrapped"}),
]
PROBES = ["A", "B", "P", "AB", "O", "n", "n::A", "n::m::B", "n::mm::A", "nx::A", "nA", "m::A", "R", "Q", "T", "m::R", "TI", "TJ", "TA", "T<int>", "Base", "n::Base", "Sub", "SubCpp", "SubHolder",
          "Sub2", "Sub2Cpp", "Sub3Holder", "Cpp", "Holder", "SubX", "BaseCpp", "E", "n::E", "f", "g", "h", "k", "m::f", "x"]


def tla(v):
    if isinstance(v, bool):
        return "TRUE" if v else "FALSE"
    if isinstance(v, str):
        return '"%s"' % v
    if isinstance(v, (int, float)):
        return str(v)
    if isinstance(v, dict):
        return "[" + ", ".join("%s |-> %s" % (k, tla(x)) for k, x in v.items()) + "]"
    if isinstance(v, (set, frozenset)):
        return "{" + ", ".join(sorted(tla(x) for x in v)) + "}"
    return "<<" + ", ".join(tla(x) for x in v) + ">>"


def tok(a, style):
    t, v = a["t"], a["v"]
    if t == "str":
        return ['"%s"', '"%s"', 'r"%s"', 'r#"%s"#'][style % 4] % v
    if t == "sig":
        return v[:2] + " " + v[2:]
    if t == "path" and style % 4 == 1:
        return v.replace("::", " ::\n ")
    return v


def render(ds, style=0):
    """The text of a list of directives; the style only changes its formatting."""
    r = random.Random(style * 7919 + len(ds))
    gap = {0: lambda: "\n", 1: lambda: r.choice([" ", "\n\n", "\t\n  "]), 2: lambda: r.choice([" /* generate!(\"Z\") */ ", "\n// block!(\"Z\")\n", "\n"]), 3: lambda: " "}[style % 4]
    sp = {0: "", 1: " ", 2: " /* , */ ", 3: "\n"}[style % 4]
    out = []
    for x in ds:
        if x["d"] == "#include":
            out.append("#" + sp + "include" + (sp or " ") + " ".join(tok(a, style) for a in x["args"]))
        else:
            o, c = ["()", "()", "()", "()"][style % 4]
            out.append(x["d"] + sp + "!" + sp + o + sp + (sp or " ").join(tok(a, style) for a in x["args"]) + sp + c)
    return gap() + gap().join(o + gap() for o in out)
