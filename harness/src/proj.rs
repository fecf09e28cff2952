//! Projects generated Rust bindings onto the observations the specifications talk about:
//! what a user of the module can name, call, construct, copy, move and drop.
use proc_macro2::TokenTree;
use quote::ToTokens;
use serde_json::{json, Value};
use std::collections::BTreeMap;
use syn::*;

const STRIP: &[&str] = &[
    "output", "super", "self", "crate", "cxxbridge", "bindgen", "root", "autocxx", "cxx", "core",
    "std", "pin", "mem", "moveit", "new", "ffi", "os", "raw", "alloc", "cell",
];

pub struct Ctx {
    pub bridge_types: BTreeMap<String, String>, // bridge ident -> full path in the module
    pub keep_lifetimes: bool,
}

fn doc_of(attrs: &[Attribute]) -> String {
    let mut s = String::new();
    for a in attrs {
        if let Meta::NameValue(nv) = &a.meta {
            if nv.path.is_ident("doc") {
                if let Expr::Lit(ExprLit { lit: Lit::Str(l), .. }) = &nv.value {
                    s.push_str(&l.value());
                    s.push('\n');
                }
            }
        }
    }
    s
}

impl Ctx {
    pub fn path(&self, p: &Path, in_bridge: bool) -> String {
        let n = p.segments.len();
        let mut out: Vec<String> = Vec::new();
        let mut started = false;
        for (i, s) in p.segments.iter().enumerate() {
            let id = s.ident.to_string();
            if !started && i + 1 < n && STRIP.contains(&id.as_str()) {
                continue;
            }
            started = true;
            let args = match &s.arguments {
                PathArguments::None => String::new(),
                PathArguments::AngleBracketed(a) => {
                    let v: Vec<String> = a
                        .args
                        .iter()
                        .filter_map(|a| match a {
                            GenericArgument::Type(t) => Some(self.ty(t, in_bridge)),
                            GenericArgument::Lifetime(l) => {
                                self.keep_lifetimes.then(|| l.to_string())
                            }
                            GenericArgument::AssocType(a) => {
                                Some(format!("{}={}", a.ident, self.ty(&a.ty, in_bridge)))
                            }
                            o => Some(o.to_token_stream().to_string()),
                        })
                        .collect();
                    if v.is_empty() {
                        String::new()
                    } else {
                        format!("<{}>", v.join(","))
                    }
                }
                PathArguments::Parenthesized(a) => a.to_token_stream().to_string(),
            };
            let id = if in_bridge && n == 1 {
                self.bridge_types.get(&id).cloned().unwrap_or(id)
            } else {
                id
            };
            out.push(format!("{id}{args}"));
        }
        out.join("::")
    }
    pub fn ty(&self, t: &Type, in_bridge: bool) -> String {
        match t {
            Type::Reference(r) => format!(
                "&{}{}{}",
                match (&r.lifetime, self.keep_lifetimes) {
                    (Some(l), true) => format!("{l} "),
                    _ => String::new(),
                },
                if r.mutability.is_some() { "mut " } else { "" },
                self.ty(&r.elem, in_bridge)
            ),
            Type::Ptr(p) => format!(
                "*{} {}",
                if p.mutability.is_some() { "mut" } else { "const" },
                self.ty(&p.elem, in_bridge)
            ),
            Type::Path(p) => self.path(&p.path, in_bridge),
            Type::Array(a) => format!(
                "[{};{}]",
                self.ty(&a.elem, in_bridge),
                a.len.to_token_stream()
            ),
            Type::Slice(a) => format!("[{}]", self.ty(&a.elem, in_bridge)),
            Type::Paren(p) => self.ty(&p.elem, in_bridge),
            Type::Group(p) => self.ty(&p.elem, in_bridge),
            Type::Tuple(t) if t.elems.is_empty() => "()".into(),
            Type::ImplTrait(it) => format!(
                "impl {}",
                it.bounds
                    .iter()
                    .filter_map(|b| match b {
                        TypeParamBound::Trait(t) => Some(self.path(&t.path, in_bridge)),
                        TypeParamBound::Lifetime(l) => self.keep_lifetimes.then(|| l.to_string()),
                        _ => None,
                    })
                    .collect::<Vec<_>>()
                    .join("+")
            ),
            o => o.to_token_stream().to_string(),
        }
    }
}

/// Lifetimes mentioned in a type, None standing for an elided one.
fn lifetimes(t: &Type, out: &mut Vec<Option<String>>) {
    match t {
        Type::Reference(r) => {
            out.push(r.lifetime.as_ref().map(|l| l.to_string()));
            lifetimes(&r.elem, out);
        }
        Type::Ptr(p) => lifetimes(&p.elem, out),
        Type::Array(a) => lifetimes(&a.elem, out),
        Type::Paren(p) => lifetimes(&p.elem, out),
        Type::Group(p) => lifetimes(&p.elem, out),
        Type::ImplTrait(it) => {
            for b in &it.bounds {
                match b {
                    TypeParamBound::Lifetime(l) => out.push(Some(l.to_string())),
                    TypeParamBound::Trait(t) => path_lifetimes(&t.path, out),
                    _ => {}
                }
            }
        }
        Type::Path(p) => path_lifetimes(&p.path, out),
        _ => {}
    }
}
fn path_lifetimes(p: &Path, out: &mut Vec<Option<String>>) {
    for s in &p.segments {
        if let PathArguments::AngleBracketed(a) = &s.arguments {
            for a in &a.args {
                match a {
                    GenericArgument::Lifetime(l) => out.push(Some(l.to_string())),
                    GenericArgument::Type(t) => lifetimes(t, out),
                    GenericArgument::AssocType(t) => lifetimes(&t.ty, out),
                    _ => {}
                }
            }
        }
    }
}

pub fn sig_json(c: &Ctx, sig: &Signature, in_bridge: bool, self_ty: Option<&str>) -> Value {
    let mut params = vec![];
    let mut recv = "none".to_string();
    let mut recv_ty = Value::Null;
    let mut names = vec![];
    let mut lts: Vec<Vec<Option<String>>> = vec![];
    let mut has_recv = false;
    let mut placeholder = false;
    let mut recv_is_ref = false;
    for i in &sig.inputs {
        match i {
            FnArg::Receiver(r) => {
                let t = c.ty(&r.ty, in_bridge);
                recv = if t.contains("&mut ") || r.ty.to_token_stream().to_string().contains("& mut") {
                    "mut".into()
                } else if matches!(&*r.ty, Type::Reference(_)) {
                    "const".into()
                } else {
                    "value".into()
                };
                recv_is_ref = matches!(&*r.ty, Type::Reference(_));
                recv_ty = json!(t.replace("Self", self_ty.unwrap_or("Self")));
                has_recv = true;
                let mut v = vec![];
                lifetimes(&r.ty, &mut v);
                if v.is_empty() && r.reference.is_some() {
                    v.push(r.reference.as_ref().unwrap().1.as_ref().map(|l| l.to_string()));
                }
                lts.push(v);
            }
            FnArg::Typed(p) => {
                let n = p.pat.to_token_stream().to_string();
                let t = c.ty(&p.ty, in_bridge);
                if t.contains("BindingGenerationFailure") {
                    placeholder = true;
                }
                names.push(n);
                params.push(t.replace("Self", self_ty.unwrap_or("Self")));
                let mut v = vec![];
                lifetimes(&p.ty, &mut v);
                lts.push(v);
            }
        }
    }
    let (ret, ret_lts) = match &sig.output {
        ReturnType::Default => ("()".to_string(), vec![]),
        ReturnType::Type(_, t) => {
            let mut v = vec![];
            lifetimes(t, &mut v);
            (c.ty(t, in_bridge).replace("Self", self_ty.unwrap_or("Self")), v)
        }
    };
    // Which inputs is the (first) lifetime of the result tied to?  Index -1: cannot be resolved.
    let mut ties: Vec<i64> = vec![];
    if let Some(l) = ret_lts.first() {
        match l {
            Some(name) if name == "'static" => ties.push(-2),
            Some(name) => {
                for (i, v) in lts.iter().enumerate() {
                    if v.iter().any(|x| x.as_deref() == Some(name)) {
                        ties.push(i as i64);
                    }
                }
            }
            None => {
                if has_recv && (recv_is_ref || !lts[0].is_empty()) {
                    ties.push(0)
                } else {
                    let all: Vec<usize> = lts
                        .iter()
                        .enumerate()
                        .flat_map(|(i, v)| v.iter().map(move |_| i))
                        .collect();
                    if all.len() == 1 {
                        ties.push(all[0] as i64)
                    } else {
                        ties.push(-1)
                    }
                }
            }
        }
    }
    json!({"name": sig.ident.to_string(), "unsafe": sig.unsafety.is_some(), "recv": recv,
        "recv_ty": recv_ty, "params": params, "pnames": names, "ret": ret,
        "ties": ties, "has_recv": has_recv, "placeholder": placeholder})
}

fn last(p: &Path) -> String {
    p.segments.last().map(|s| s.ident.to_string()).unwrap_or_default()
}

#[derive(Default)]
struct Bridge {
    types: Vec<(String, Option<String>, Vec<(String, String)>)>,
    fns: Vec<(Signature, Vec<Attribute>)>,
    rust_types: Vec<String>,
    rust_fns: Vec<Signature>,
    containers: Vec<(String, String)>,
    includes: Vec<String>,
}

fn parse_bridge(items: &[Item]) -> Result<Bridge> {
    let mut b = Bridge::default();
    for it in items {
        match it {
            Item::Impl(i) => {
                if let Type::Path(p) = &*i.self_ty {
                    let s = p.path.segments.last().unwrap();
                    if let PathArguments::AngleBracketed(a) = &s.arguments {
                        if let Some(GenericArgument::Type(t)) = a.args.first() {
                            b.containers
                                .push((s.ident.to_string(), t.to_token_stream().to_string()));
                        }
                    }
                }
            }
            Item::ForeignMod(fm) => {
                let abi = fm.abi.name.as_ref().map(|n| n.value()).unwrap_or_default();
                for fi in &fm.items {
                    match fi {
                        ForeignItem::Fn(f) => {
                            if abi == "Rust" {
                                b.rust_fns.push(f.sig.clone())
                            } else {
                                b.fns.push((f.sig.clone(), f.attrs.clone()))
                            }
                        }
                        ForeignItem::Type(t) => {
                            if abi == "Rust" {
                                b.rust_types.push(t.ident.to_string())
                            } else {
                                b.types.push((t.ident.to_string(), None, vec![]))
                            }
                        }
                        ForeignItem::Macro(m) => {
                            b.includes.push(m.mac.tokens.to_string());
                        }
                        ForeignItem::Verbatim(ts) => {
                            // `type X = super::N::X;` with attributes
                            let it: ItemType = syn::parse2(ts.clone())?;
                            let at = it
                                .attrs
                                .iter()
                                .filter_map(|a| match &a.meta {
                                    Meta::NameValue(nv) => Some((
                                        last(&nv.path),
                                        match &nv.value {
                                            Expr::Lit(ExprLit { lit: Lit::Str(s), .. }) => s.value(),
                                            o => o.to_token_stream().to_string(),
                                        },
                                    )),
                                    _ => None,
                                })
                                .collect();
                            let target = match &*it.ty {
                                Type::Path(p) => Some(
                                    p.path
                                        .segments
                                        .iter()
                                        .map(|s| s.ident.to_string())
                                        .collect::<Vec<_>>()
                                        .join("::"),
                                ),
                                o => Some(o.to_token_stream().to_string()),
                            };
                            b.types.push((it.ident.to_string(), target, at));
                        }
                        _ => {}
                    }
                }
            }
            _ => {}
        }
    }
    Ok(b)
}

struct Walk {
    ctx: Ctx,
    types: Vec<Value>,
    fns: Vec<Value>,
    methods: Vec<Value>,
    traits: Vec<Value>,
    consts: Vec<Value>,
    traitdefs: Vec<Value>,
    uses: Vec<Value>,
}

fn join(ns: &[String], n: &str) -> String {
    let mut v = ns.to_vec();
    v.push(n.to_string());
    v.join("::")
}

fn use_leaf(t: &UseTree, pre: &mut Vec<String>, out: &mut Vec<(Vec<String>, String)>) {
    match t {
        UseTree::Path(p) => {
            pre.push(p.ident.to_string());
            use_leaf(&p.tree, pre, out);
            pre.pop();
        }
        UseTree::Name(n) => {
            let mut v = pre.clone();
            v.push(n.ident.to_string());
            out.push((v, n.ident.to_string()))
        }
        UseTree::Rename(n) => {
            let mut v = pre.clone();
            v.push(n.ident.to_string());
            out.push((v, n.rename.to_string()))
        }
        UseTree::Glob(_) => out.push((pre.clone(), "*".into())),
        UseTree::Group(g) => {
            for t in &g.items {
                use_leaf(t, pre, out)
            }
        }
    }
}

fn is_pub(v: &Visibility) -> bool {
    matches!(v, Visibility::Public(_))
}

fn find_bindgen<'a>(items: &'a [Item], path: &[String]) -> Option<&'a Item> {
    let (h, t) = path.split_first()?;
    for i in items {
        let id = match i {
            Item::Mod(m) => {
                if &m.ident.to_string() == h && !t.is_empty() {
                    if let Some((_, its)) = &m.content {
                        if let Some(r) = find_bindgen(its, t) {
                            return Some(r);
                        }
                    }
                }
                continue;
            }
            Item::Struct(s) => s.ident.to_string(),
            Item::Enum(s) => s.ident.to_string(),
            Item::Union(s) => s.ident.to_string(),
            Item::Type(s) => s.ident.to_string(),
            Item::Const(s) => s.ident.to_string(),
            Item::Static(s) => s.ident.to_string(),
            Item::Use(u) => {
                let mut v = vec![];
                use_leaf(&u.tree, &mut vec![], &mut v);
                if t.is_empty() && v.iter().any(|(_, n)| n == h) {
                    return Some(i);
                }
                continue;
            }
            _ => continue,
        };
        if t.is_empty() && &id == h {
            return Some(i);
        }
    }
    None
}

impl Walk {
    fn fields(&self, f: &Fields) -> Vec<Value> {
        f.iter()
            .map(|f| {
                json!({"name": f.ident.as_ref().map(|i| i.to_string()).unwrap_or_default(),
                 "pub": is_pub(&f.vis), "ty": self.ctx.ty(&f.ty, false)})
            })
            .collect()
    }
    fn resolve_self(&self, ns: &[String], t: &Type) -> String {
        let s = self.ctx.ty(t, false);
        // `impl A {` inside module ns means ns::A; trait impls use output::N::A (full path)
        if let Type::Path(p) = t {
            if p.path.segments.len() == 1 {
                return join(ns, &s);
            }
        }
        s
    }
    fn items(&mut self, items: &[Item], ns: &[String], bindgen: &[Item], bridge: &Bridge) {
        for it in items {
            match it {
                Item::Mod(m) => {
                    let id = m.ident.to_string();
                    if ns.is_empty() && (id == "bindgen" || id == "cxxbridge") {
                        continue;
                    }
                    if let Some((_, its)) = &m.content {
                        let mut n2 = ns.to_vec();
                        n2.push(id);
                        self.items(its, &n2, bindgen, bridge);
                    }
                }
                Item::Struct(s) => {
                    let doc = doc_of(&s.attrs);
                    let ph = doc.contains("couldn't be generated");
                    self.types.push(json!({"path": join(ns, &s.ident.to_string()),
                        "kind": if ph {"placeholder"} else {"opaque"}, "pub": is_pub(&s.vis),
                        "fields": self.fields(&s.fields), "generics": s.generics.params.len(),
                        "doc": doc}));
                }
                Item::Enum(s) => {
                    self.types.push(json!({"path": join(ns, &s.ident.to_string()), "kind": "enum", "pub": is_pub(&s.vis), "fields": [], "doc": doc_of(&s.attrs)}));
                }
                Item::Type(s) => {
                    self.types.push(json!({"path": join(ns, &s.ident.to_string()), "kind": "alias", "pub": is_pub(&s.vis), "fields": [], "doc": doc_of(&s.attrs), "target": self.ctx.ty(&s.ty, false)}));
                }
                Item::Fn(f) => {
                    let mut j = sig_json(&self.ctx, &f.sig, false, None);
                    j["path"] = json!(join(ns, &f.sig.ident.to_string()));
                    j["pub"] = json!(is_pub(&f.vis));
                    j["via"] = json!("wrapper");
                    j["doc"] = json!(doc_of(&f.attrs));
                    self.fns.push(j);
                }
                Item::Trait(t) => {
                    let ms: Vec<Value> = t
                        .items
                        .iter()
                        .filter_map(|i| match i {
                            TraitItem::Fn(f) => {
                                let mut j = sig_json(&self.ctx, &f.sig, false, None);
                                j["has_default"] = json!(f.default.is_some());
                                Some(j)
                            }
                            _ => None,
                        })
                        .collect();
                    self.traitdefs.push(json!({"path": join(ns, &t.ident.to_string()), "methods": ms,
                        "supers": t.supertraits.iter().map(|s| s.to_token_stream().to_string()).collect::<Vec<_>>()}));
                }
                Item::Impl(i) => {
                    let ty = self.resolve_self(ns, &i.self_ty);
                    match &i.trait_ {
                        None => {
                            for ii in &i.items {
                                if let ImplItem::Fn(f) = ii {
                                    let mut j = sig_json(&self.ctx, &f.sig, false, Some(&ty));
                                    j["type"] = json!(ty);
                                    j["pub"] = json!(is_pub(&f.vis));
                                    j["via"] = json!("wrapper");
                                    j["doc"] = json!(doc_of(&f.attrs));
                                    self.methods.push(j);
                                }
                            }
                        }
                        Some((_, p, _)) => {
                            let seg = p.segments.last().unwrap();
                            let args: Vec<String> = match &seg.arguments {
                                PathArguments::AngleBracketed(a) => a
                                    .args
                                    .iter()
                                    .map(|a| match a {
                                        GenericArgument::Type(t) => self.ctx.ty(t, false),
                                        o => o.to_token_stream().to_string(),
                                    })
                                    .collect(),
                                _ => vec![],
                            };
                            let assoc: BTreeMap<String, String> = i
                                .items
                                .iter()
                                .filter_map(|x| match x {
                                    ImplItem::Type(t) => {
                                        Some((t.ident.to_string(), self.ctx.ty(&t.ty, false)))
                                    }
                                    _ => None,
                                })
                                .collect();
                            self.traits.push(json!({"trait": seg.ident.to_string(), "args": args, "type": ty, "unsafe": i.unsafety.is_some(), "assoc": assoc}));
                        }
                    }
                }
                Item::Use(u) => {
                    let mut v = vec![];
                    use_leaf(&u.tree, &mut vec![], &mut v);
                    for (p, alias) in v {
                        let mut q: Vec<String> = p.clone();
                        while q.first().map(|s| s == "super" || s == "self" || s == "output").unwrap_or(false) {
                            q.remove(0);
                        }
                        if !is_pub(&u.vis) {
                            continue;
                        }
                        let full = join(ns, &alias);
                        if q.first().map(|s| s == "cxxbridge").unwrap_or(false) {
                            let id = q.last().unwrap().clone();
                            let mut found = false;
                            for (sig, at) in &bridge.fns {
                                let is_method = matches!(sig.inputs.first(), Some(FnArg::Receiver(_)));
                                if sig.ident == id && !is_method {
                                    let mut j = sig_json(&self.ctx, sig, true, None);
                                    j["path"] = json!(full);
                                    j["name"] = json!(alias);
                                    j["pub"] = json!(true);
                                    j["via"] = json!("bridge");
                                    j["doc"] = json!(doc_of(at));
                                    self.fns.push(j);
                                    found = true;
                                }
                            }
                            for (t, _, _) in &bridge.types {
                                if *t == id {
                                    self.types.push(json!({"path": full, "kind":"bridge", "pub":true, "fields":[], "doc":""}));
                                    found = true;
                                }
                            }
                            if !found {
                                self.uses.push(json!({"path": full, "target": p.join("::"), "dangling": true}));
                            }
                        } else if q.first().map(|s| s == "bindgen").unwrap_or(false) {
                            let tail: Vec<String> = q[1..].to_vec();
                            match find_bindgen(bindgen, &tail) {
                                Some(Item::Struct(s)) => {
                                    self.types.push(json!({"path": full, "kind":"pod", "pub":true, "fields": self.fields(&s.fields), "generics": s.generics.params.len(), "doc": doc_of(&s.attrs)}));
                                }
                                Some(Item::Enum(e)) => {
                                    let variants: Vec<String> = e.variants.iter().map(|v| v.ident.to_string()).collect();
                                    self.types.push(json!({"path": full, "kind":"enum", "pub":true, "fields": [], "variants": variants, "doc": doc_of(&e.attrs)}));
                                }
                                Some(Item::Union(_)) => self.types.push(json!({"path": full, "kind":"union", "pub":true, "fields":[], "doc":""})),
                                Some(Item::Type(t)) => self.types.push(json!({"path": full, "kind":"alias", "pub":true, "fields":[], "target": self.ctx.ty(&t.ty, false), "doc":""})),
                                Some(Item::Use(u)) => {
                                    let mut v = vec![];
                                    use_leaf(&u.tree, &mut vec![], &mut v);
                                    let tgt = v.iter().find(|(_, n)| Some(n) == tail.last()).map(|(p, _)| p.join("::")).unwrap_or_default();
                                    self.types.push(json!({"path": full, "kind":"alias", "pub":true, "fields":[], "target": tgt, "doc":""}))
                                }
                                Some(Item::Const(cst)) => self.consts.push(json!({"path": full, "ty": self.ctx.ty(&cst.ty, false), "value": cst.expr.to_token_stream().to_string()})),
                                Some(Item::Static(_)) => self.consts.push(json!({"path": full})),
                                _ => self.uses.push(json!({"path": full, "target": p.join("::"), "dangling": true})),
                            }
                        } else {
                            self.uses.push(json!({"path": full, "target": p.join("::"), "dangling": false}));
                        }
                    }
                }
                Item::Const(cst) => self.consts.push(json!({"path": join(ns, &cst.ident.to_string())})),
                _ => {}
            }
        }
    }
}

/// Project one generated file (which holds `mod <name> { ... }`).
pub fn project(code: &str) -> std::result::Result<Value, String> {
    let f: File = syn::parse_file(code).map_err(|e| format!("generated Rust does not parse: {e}"))?;
    let mut mods = vec![];
    for it in &f.items {
        let m = match it {
            Item::Mod(m) => m,
            _ => continue,
        };
        let items = match &m.content {
            Some((_, i)) => i,
            None => continue,
        };
        let mut bindgen: Vec<Item> = vec![];
        let mut bridge_items: Vec<Item> = vec![];
        for i in items {
            if let Item::Mod(mm) = i {
                if mm.ident == "bindgen" {
                    bindgen = mm.content.as_ref().map(|c| c.1.clone()).unwrap_or_default();
                } else if mm.ident == "cxxbridge" {
                    bridge_items = mm.content.as_ref().map(|c| c.1.clone()).unwrap_or_default();
                }
            }
        }
        let bridge = parse_bridge(&bridge_items).map_err(|e| format!("bridge: {e}"))?;
        let mut bt = BTreeMap::new();
        for (id, target, at) in &bridge.types {
            let full = match target {
                Some(t) => {
                    let mut segs: Vec<&str> = t.split("::").collect();
                    while segs.len() > 1
                        && ["super", "autocxx", "crate", "self"].contains(&segs[0])
                    {
                        segs.remove(0);
                    }
                    segs.join("::")
                }
                None => {
                    // opaque: lives in the module matching its namespace (possibly through nesting)
                    let ns = at.iter().find(|(k, _)| k == "namespace").map(|(_, v)| v.clone());
                    match ns {
                        Some(ns) if !ns.is_empty() => format!("{ns}::{id}"),
                        _ => id.clone(),
                    }
                }
            };
            bt.insert(id.clone(), full);
        }
        let mut w = Walk {
            ctx: Ctx { bridge_types: bt.clone(), keep_lifetimes: false },
            types: vec![],
            fns: vec![],
            methods: vec![],
            traits: vec![],
            consts: vec![],
            traitdefs: vec![],
            uses: vec![],
        };
        w.items(items, &[], &bindgen, &bridge);
        // where was each bridge type re-exported (opaque types carry a nested-class namespace)?
        let mut by_leaf: BTreeMap<String, Vec<String>> = BTreeMap::new();
        for t in &w.types {
            let p = t["path"].as_str().unwrap().to_string();
            if t["kind"] == "bridge" {
                by_leaf.entry(p.rsplit("::").next().unwrap().to_string()).or_default().push(p);
            }
        }
        for (id, target, _) in &bridge.types {
            if target.is_none() {
                if let Some(v) = by_leaf.get(id) {
                    if v.len() == 1 {
                        w.ctx.bridge_types.insert(id.clone(), v[0].clone());
                    }
                }
            }
        }
        let c = &w.ctx;
        let mut methods = w.methods.clone();
        for (sig, at) in &bridge.fns {
            if let Some(FnArg::Receiver(r)) = sig.inputs.first() {
                let mut inner = &*r.ty;
                loop {
                    match inner {
                        Type::Reference(x) => inner = &x.elem,
                        Type::Path(p) => {
                            if let PathArguments::AngleBracketed(a) = &p.path.segments.last().unwrap().arguments {
                                if let Some(GenericArgument::Type(t)) = a.args.first() {
                                    inner = t;
                                    continue;
                                }
                            }
                            break;
                        }
                        _ => break,
                    }
                }
                let ty = c.ty(inner, true);
                let mut j = sig_json(c, sig, true, Some(&ty));
                j["type"] = json!(ty);
                j["pub"] = json!(true);
                j["via"] = json!("bridge");
                j["doc"] = json!(doc_of(at));
                methods.push(j);
            }
        }
        let containers: Vec<Value> = bridge
            .containers
            .iter()
            .map(|(k, t)| json!({"kind": k, "type": c.bridge_types.get(t).cloned().unwrap_or(t.clone())}))
            .collect();
        let bfns: Vec<Value> = bridge.fns.iter().map(|(s, _)| sig_json(c, s, true, None)).collect();
        let rfns: Vec<Value> = bridge.rust_fns.iter().map(|s| sig_json(c, s, true, None)).collect();
        mods.push(json!({"name": m.ident.to_string(), "types": w.types, "fns": w.fns, "methods": methods,
            "traits": w.traits, "consts": w.consts, "traitdefs": w.traitdefs, "uses": w.uses,
            "containers": containers,
            "bridge_types": c.bridge_types, "bridge_fns": bfns, "rust_types": bridge.rust_types, "rust_fns": rfns, "includes": bridge.includes}));
    }
    Ok(json!(mods))
}

#[allow(dead_code)]
fn _unused(_: TokenTree) {}
