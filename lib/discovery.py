"""Rust files which mention the bindings, from spec/Discovery.tla."""
import json
import vl

# production: (kind it makes, text, kind of its hole)
PRODS = {
    # items
    "fn body": ("item", "fn n@N() { @ }", "stmt"), "fn param": ("item", "fn n@N(a: @) {}", "type"), "fn return": ("item", "fn n@N() -> @ { todo!() }", "type"),
    "fn pattern": ("item", "fn n@N(@: u8) {}", "pat"), "fn bound": ("item", "fn n@N<T: @>() {}", "bound"), "fn where": ("item", "fn n@N() where @: Sized {}", "type"),
    "fn where bound": ("item", "fn n@N<T>() where T: @ {}", "bound"), "async fn": ("item", "async fn n@N() { @ }", "stmt"), "const fn param": ("item", "const unsafe fn n@N(x: u8, a: @) {}", "type"),
    "module": ("item", "mod m@N { @ }", "item"),
    "method body": ("item", "impl X@N { fn g(&self) { @ } }", "stmt"), "method param": ("item", "impl X@N { fn g(&self, a: @) {} }", "type"),
    "method return": ("item", "impl X@N { pub fn g(&self) -> @ { todo!() } }", "type"), "impl const type": ("item", "impl X@N { const C: @ = 0; }", "type"),
    "impl const value": ("item", "impl X@N { const C: u8 = @; }", "expr"), "trait impl body": ("item", "impl T for X@N { fn g() { @ } }", "stmt"),
    "trait impl param": ("item", "impl T for X@N { fn g(a: @) {} }", "type"), "associated type": ("item", "impl T for X@N { type O = @; }", "type"),
    "impl self": ("item", "impl T for @ {}", "type"), "impl argument": ("item", "impl From<@> for X@N {}", "type"), "impl bound": ("item", "impl<T: @> X@N<T> {}", "bound"),
    "impl where": ("item", "impl T for X@N where @: Copy {}", "type"),
    "trait body": ("item", "trait T@N { fn g() { @ } }", "stmt"), "trait param": ("item", "trait T@N { fn g(&self, a: @); }", "type"), "trait return": ("item", "trait T@N { fn g(&self) -> @; }", "type"),
    "trait const": ("item", "trait T@N { const C: @; }", "type"), "supertrait": ("item", "trait T@N: @ {}", "bound"), "associated bound": ("item", "trait T@N { type O: @; }", "bound"),
    "field": ("item", "struct S@N { a: u8, pub b: @ }", "type"), "tuple field": ("item", "struct S@N(u8, @);", "type"), "enum field": ("item", "enum E@N { A, B(@) }", "type"),
    "enum named field": ("item", "enum E@N { A { a: @ }, B }", "type"), "discriminant": ("item", "enum E@N { A = @ }", "expr"), "union field": ("item", "union U@N { a: u8, b: @ }", "type"),
    "struct default": ("item", "struct S@N<T = @>(T);", "type"), "struct bound": ("item", "struct S@N<T: @>(T);", "bound"), "const type": ("item", "const C@N: @ = 0;", "type"),
    "const value": ("item", "const C@N: u8 = @;", "expr"), "static type": ("item", "static C@N: @ = 0;", "type"), "static value": ("item", "pub static mut C@N: u8 = @;", "expr"),
    "type alias": ("item", "type A@N = @;", "type"), "foreign fn": ("item", "extern \"C\" { fn n@N(a: @); }", "type"),
    # statements
    "let init": ("stmt", "let x = @;", "expr"), "let type": ("stmt", "let x: @ = todo!();", "type"), "let else": ("stmt", "let Some(x) = y else { @ };", "stmt"), "let pattern": ("stmt", "let @ = y;", "pat"),
    "local item": ("stmt", "@", "item"), "statement": ("stmt", "(@);", "expr"), "tail": ("stmt", "let z = 1; (@)", "expr"),
    # expressions
    "argument": ("expr", "g(1, @)", "expr"), "callee": ("expr", "(@)(1)", "expr"), "array": ("expr", "[1, @]", "expr"), "left": ("expr", "(@) + 1", "expr"), "right": ("expr", "1 && (@)", "expr"),
    "negated": ("expr", "-(@)", "expr"), "assigned": ("expr", "x = (@)", "expr"), "assigned to": ("expr", "*(@) = x", "expr"), "added": ("expr", "x += (@)", "expr"), "field of": ("expr", "(@).f", "expr"), "index": ("expr", "x[@]", "expr"),
    "indexed": ("expr", "(@)[0]", "expr"), "if": ("expr", "if (@) { 1 } else { 2 }", "expr"), "then": ("expr", "if c { @ } else { 2 }", "stmt"), "else": ("expr", "if c { 1 } else { @ }", "stmt"),
    "else if": ("expr", "if c { 1 } else if (@) { 2 } else { 3 }", "expr"), "if let": ("expr", "if let Some(y) = (@) { 1 } else { 2 }", "expr"), "if let pattern": ("expr", "if let @ = y { 1 } else { 2 }", "pat"),
    "let chain": ("expr", "if c && let @ = y { 1 } else { 2 }", "pat"), "while": ("expr", "while (@) { }", "expr"), "while body": ("expr", "while c { @ }", "stmt"), "while let": ("expr", "while let @ = y { }", "pat"), "loop": ("expr", "loop { @ }", "stmt"),
    "for": ("expr", "for y in (@) { }", "expr"), "for body": ("expr", "for y in z { @ }", "stmt"), "for pattern": ("expr", "for @ in z { }", "pat"), "match": ("expr", "match (@) { _ => 1 }", "expr"),
    "arm": ("expr", "match x { 1 => 2, _ => @ }", "expr"), "guard": ("expr", "match x { y if (@) => 1, _ => 2 }", "expr"), "arm pattern": ("expr", "match x { @ => 1, _ => 2 }", "pat"),
    "return": ("expr", "{ return (@) }", "expr"), "break": ("expr", "loop { break (@) }", "expr"), "closure": ("expr", "move |x| (@)", "expr"), "closure param": ("expr", "|x: @| 1", "type"), "closure pattern": ("expr", "|@| 1", "pat"),
    "closure return": ("expr", "|| -> @ { 1 }", "type"), "block": ("expr", "{ @ }", "stmt"), "labelled": ("expr", "'l: { @ }", "stmt"), "unsafe": ("expr", "unsafe { @ }", "stmt"), "async": ("expr", "async move { @ }", "stmt"), "const block": ("expr", "const { @ }", "stmt"),
    "await": ("expr", "(@).await", "expr"), "try": ("expr", "(@)?", "expr"), "tuple": ("expr", "(1, @)", "expr"), "range start": ("expr", "(@)..3", "expr"), "range end": ("expr", "1..=(@)", "expr"),
    "repeat": ("expr", "[@; 3]", "expr"), "repeat length": ("expr", "[0; @]", "expr"), "reference": ("expr", "&mut (@)", "expr"), "raw reference": ("expr", "&raw const (@)", "expr"), "cast": ("expr", "(@) as u8", "expr"), "cast type": ("expr", "(x as @)", "type"), "receiver": ("expr", "(@).g()", "expr"),
    "method argument": ("expr", "x.g(1, @)", "expr"), "method turbofish": ("expr", "x.g::<@>()", "type"), "turbofish": ("expr", "g::<@>()", "type"), "literal field": ("expr", "S { f: @ }", "expr"),
    "literal rest": ("expr", "S { f: 1, ..(@) }", "expr"), "literal argument": ("expr", "S::<@> { f: 1 }", "type"), "self type": ("expr", "<@>::g()", "type"), "self type as": ("expr", "<@ as T>::g()", "type"), "path argument": ("expr", "Vec::<@>::new()", "type"), "trait argument": ("expr", "<u8 as From<@>>::from(1)", "type"),
    # types
    "to ref": ("type", "&'static mut @", "type"), "to ptr": ("type", "*mut @", "type"), "array of": ("type", "[@; 3]", "type"), "array length": ("type", "[u8; @]", "expr"), "slice of": ("type", "&[@]", "type"), "tuple of": ("type", "(u8, @)", "type"),
    "fn pointer": ("type", "fn(u8, @) -> u8", "type"), "fn pointer return": ("type", "fn() -> @", "type"), "generic": ("type", "Vec<@>", "type"), "second generic": ("type", "Result<u8, @>", "type"), "const generic": ("type", "Arr<{ @ }>", "expr"),
    "path generic": ("type", "a::B<@>::C", "type"), "impl": ("type", "(impl @)", "bound"), "dyn": ("type", "Box<dyn Send + @>", "bound"), "parenthesised": ("type", "(@)", "type"), "projection": ("type", "<@ as T>::O", "type"), "projection argument": ("type", "<u8 as T<@>>::O", "type"),
    # patterns
    "tuple pattern": ("pat", "(x, @)", "pat"), "slice pattern": ("pat", "[x, @, ..]", "pat"), "reference pattern": ("pat", "&(@)", "pat"), "variant pattern": ("pat", "Some(@)", "pat"), "field pattern": ("pat", "S { f: @ }", "pat"),
    "either": ("pat", "(1 | @)", "pat"), "bound pattern": ("pat", "x \x01 (@)", "pat"), "variant argument": ("pat", "S::<@>(x)", "type"),
    # bounds
    "bound argument": ("bound", "AsRef<@>", "type"), "Fn argument": ("bound", "Fn(@)", "type"), "Fn return": ("bound", "FnOnce() -> @", "type"), "bound type": ("bound", "Iterator<Item = @>", "type"), "bound bound": ("bound", "Iterator<Item: @>", "bound"), "higher bound": ("bound", "for<'a> Fn(&'a @)", "type"),
}
# leaf: (kind, text with K for the name, whether the item is mentioned: "yes", "no", "free")
LEAVES = {
    "type": ("type", "ffi::K", "yes"), "type in namespace": ("type", "ffi::ns::K", "yes"),
    "function": ("expr", "ffi::K", "yes"), "call": ("expr", "ffi::K(1)", "yes"), "call in namespace": ("expr", "ffi::ns::K()", "yes"), "literal": ("expr", "(ffi::K { a: 1 })", "yes"), "pattern": ("pat", "ffi::K { a }", "yes"),
    "other module": ("type", "other::K", "no"), "unqualified": ("type", "K", "no"), "similar module": ("type", "ffi2::K", "no"), "unqualified call": ("expr", "K()", "no"), "similar call": ("expr", "my_ffi::K()", "no"), "method": ("expr", "x.K()", "no"),
    "string": ("expr", "\"ffi::K\"", "no"), "field named so": ("expr", "ffi.K", "no"), "label": ("expr", "x::K", "no"), "binding": ("pat", "K", "no"), "other pattern": ("pat", "other::K { a }", "no"),
    "macro": ("expr", "format!(\"{}\", ffi::K())", "free"), "type macro": ("type", "m!(ffi::K)", "free"),
}
# what the leaf needs the C++ item to be
FUNS = {"function", "call", "call in namespace", "similar call", "unqualified call", "method", "macro", "string", "field named so", "label"}
INNS = {"type in namespace", "call in namespace"}


def tla():
    rec = lambda n, *kv: "[n |-> %s, %s]" % (json.dumps(n), ", ".join("%s |-> %s" % (k, json.dumps(v)) for k, v in kv))
    return ("Prods == {%s}\nLeaves == {%s}\n" % (", ".join(rec(n, ("makes", f), ("hole", t)) for n, (f, x, t) in PRODS.items()),
                                                ", ".join(rec(n, ("makes", f), ("says", s)) for n, (f, x, s) in LEAVES.items())))


def render(spot, k):
    """The item which is the chain of productions of the spot, ending in a leaf which names item k."""
    nm = ("f%d" if spot["leaf"] in FUNS else "K%d") % k
    t = LEAVES[spot["leaf"]][1].replace("K", nm)
    for d, p in reversed(list(enumerate(spot["chain"]))):
        t = PRODS[p][1].replace("@N", "%d_%d" % (k, d)).replace("@", t)
    return t.replace("\x01", "@")


def header(spots):
    t = "#pragma once\n"
    for k, s in enumerate(spots):
        d = "inline int f%d() { return 0; }" % k if s["leaf"] in FUNS else "struct K%d { int a; };" % k
        t += "namespace ns { %s }\n" % d if s["leaf"] in INNS else d + "\n"
    return t + "inline void always() {}\n"


def case(cid, spots):
    rs = "use autocxx::prelude::*;\ninclude_cpp! {\n #include \"input.h\"\n safety!(unsafe)\n}\nfn main() { ffi::always(); }\n"
    return {"id": cid, "header": header(spots), "rs": rs + "".join(render(s, k) + "\n" for k, s in enumerate(spots)), "auto_allowlist": True}


def found(res, spots):
    """Which of the spots' items have been bound."""
    names = set()
    for m in res["mods"]:
        def walk(v):
            if isinstance(v, dict):
                for x in v.values():
                    walk(x)
            elif isinstance(v, list):
                for x in v:
                    walk(x)
            elif isinstance(v, str):
                names.add(v.split("::")[-1])
        walk(m)
    return [("f%d" if s["leaf"] in FUNS else "K%d") % k in names for k, s in enumerate(spots)]


def file_case(cid, c):
    """A whole file of spec/Discovery.tla, second part."""
    h = "#pragma once\ninline void always() {}\n"
    rs, n = "use autocxx::prelude::*;\n", 0
    for k, x in enumerate(c["file"]):
        t = x["t"]
        if t == "include":
            s = "include_cpp! {\n #include \"input.h\"\n name!(%s)\n safety!(unsafe)\n %s\n}" % (x["name"], "generate_all!()" if x["all"] else 'generate!("always")')
        elif t == "mention":
            h += "inline void f%d() {}\n" % k
            s = "fn u%d() { ffi::f%d(); }" % (k, k)
        elif t in ("subclass", "attribute"):
            h += "struct Obs%d { virtual void go() const = 0; virtual ~Obs%d() {} };\n" % (k, k)
            s = "#[subclass%s]\npub struct Sub%d { x: u32 }" % ("(superclass(\"Obs%d\"))" % k if t == "subclass" else "", k)
        elif t in ("type", "enum"):
            s = "#[extern_rust_type]\npub %s Ty%d { %s }" % ({"type": "struct"}.get(t, t), k, "a: u32" if t == "type" else "A, B")
        elif t == "fn":
            s = "#[autocxx::extern_rust::extern_rust_function]\npub fn ex%d(a: u32) -> u32 { a }" % k
        else:
            recv = {"method by value": "self", "method without self": ""}.get(t, "&self, a: u32")
            s = "impl %s%s { #[extern_rust_function]\n pub fn me%d(%s) {} }" % ("T for " if t == "method in trait impl" else "", ("a::Re%d" if t == "method on path" else "Re%d") % k, k, recv)
        for d in range(x["depth"]):
            s = "mod m%d_%d { %s }" % (k, x["depth"] - 1 - d, s)
        rs += s + "\n"
    return {"id": cid, "header": h, "rs": rs, "auto_allowlist": c["auto"], "code": True, "cpp": True}


def file_bound(res, c):
    code = " ".join(res["code"])
    out = []
    for k, x in enumerate(c["file"]):
        t = x["t"]
        path = "".join("m%d_%d :: " % (k, d) for d in range(x["depth"]))
        if t == "include":
            continue
        if t == "mention":
            ok = '"f%d"' % k in json.dumps(res["mods"])
        elif t in ("subclass", "attribute"):
            ok = "struct Sub%dHolder" % k in code
        elif t in ("type", "enum"):
            ok = "use super :: %sTy%d ;" % (path, k) in code and "type Ty%d ;" % k in code
        elif t == "fn":
            ok = "use super :: %sex%d ;" % (path, k) in code and "fn ex%d (a : u32) -> u32" % k in code
        else:
            ok = "fn me%d (self" % k in code and "use super :: %sRe%d ;" % (path, k) in code
        if ok:
            out.append(k + 1)
    return out
