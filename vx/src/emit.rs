//! Item emission.
use crate::rewrite::{Rw, State};
use crate::{is_test, type_key, Ctx, FileSrc, FnInfo, FnReport};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};
use syn::spanned::Spanned;
use syn::*;

const EXTERNAL_ROOTS: &[&str] = &["std", "core", "alloc", "thiserror", "wyhash", "statrs", "anyhow", "clap", "rand", "pyo3"];
const DROP_TRAITS: &[&str] = &["Display", "Debug", "Hash", "Eq", "Error", "Write"];
const INHERENT_TRAITS: &[&str] = &["Iterator", "PartialEq", "PartialOrd", "Ord"];

pub fn impl_key(types: &BTreeSet<String>, im: &ItemImpl) -> String {
    let t = type_key(types, &im.self_ty);
    match &im.trait_ {
        None => t,
        Some((_, p, _)) => format!("<{t} as {}>", p.segments.last().unwrap().ident),
    }
}

fn flatten(t: &UseTree, pre: &str, out: &mut Vec<(String, String)>) {
    match t {
        UseTree::Path(p) => flatten(&p.tree, &format!("{pre}{}::", p.ident), out),
        UseTree::Name(n) => out.push((format!("{pre}{}", n.ident), n.ident.to_string())),
        UseTree::Rename(n) => out.push((format!("{pre}{} as {}", n.ident, n.rename), n.ident.to_string())),
        UseTree::Glob(_) => out.push((format!("{pre}*"), "*".into())),
        UseTree::Group(g) => g.items.iter().for_each(|t| flatten(t, pre, out)),
    }
}

pub struct Em<'a> {
    cx: &'a Ctx,
    out: String,
    reports: Vec<FnReport>,
    dropped: Vec<String>,
    shapes: Vec<String>,
}

fn toks<T: quote::ToTokens>(t: &T) -> String {
    quote::ToTokens::to_token_stream(t).to_string()
}

fn derives(attrs: &[Attribute]) -> Vec<String> {
    let mut v = vec![];
    for a in attrs {
        if a.path().is_ident("derive") {
            let s = toks(&a.meta);
            let inner = s.trim_start_matches("derive").trim().trim_start_matches('(').trim_end_matches(')');
            for p in inner.split(',') {
                v.push(p.trim().rsplit("::").next().unwrap().trim().to_string());
            }
        }
    }
    v
}

pub fn emit_crate(cx: &Ctx, prelude: &str) -> (String, Vec<FnReport>, Vec<String>, Vec<String>) {
    let mut e = Em { cx, out: String::new(), reports: vec![], dropped: vec![], shapes: vec![] };
    e.out.push_str(prelude);
    e.out.push_str("\nverus! {\nglobal size_of usize == 8;\n");
    e.module(0, &cx.files[0].ast.items, &[]);
    for r in &cx.roots {
        let fi = cx.files.iter().position(|f| f.modpath == [r.clone()]).expect("root file");
        e.out.push_str(&format!("pub mod {r} {{\n#[allow(unused_imports)] use crate as poppy;\n"));
        e.module(fi, &cx.files[fi].ast.items, &[r.clone()]);
        e.out.push_str("}\n");
    }
    e.out.push_str("\nfn main() {}\n} // verus!\n");
    (e.out, e.reports, e.dropped, e.shapes)
}

impl<'a> Em<'a> {
    fn module(&mut self, fi: usize, items: &[Item], mp: &[String]) {
        let cx = self.cx;
        self.out.push_str("#[allow(unused_imports)] use vstd::prelude::*;\n");
        let lib = if !mp.is_empty() && cx.roots.contains(&mp[0]) { "vx2" } else { "vx" };
        self.out.push_str(&format!("#[allow(unused_imports)] use crate::{lib}::*;\n"));
        for it in items {
            self.item(fi, it, mp);
        }
        let key = if mp.is_empty() { "crate".to_string() } else { mp.join("::") };
        if let Some(t) = cx.specs.mods.get(&key) {
            self.out.push_str(&format!("// vx-spec-begin {key}\n{t}\n// vx-spec-end\n"));
        }
        let _ = cx;
    }

    fn item(&mut self, fi: usize, it: &Item, mp: &[String]) {
        let cx = self.cx;
        let f = &cx.files[fi];
        let pre = if mp.is_empty() { String::new() } else { format!("{}::", mp.join("::")) };
        match it {
            Item::Mod(m) => {
                if is_test(&m.attrs) {
                    return;
                }
                let mut p2 = mp.to_vec();
                p2.push(m.ident.to_string());
                self.out.push_str(&format!("pub mod {} {{\n", m.ident));
                if let Some((_, c)) = &m.content {
                    self.module(fi, c, &p2);
                } else {
                    let sub = cx.files.iter().position(|f| f.modpath == p2).expect("module file");
                    self.module(sub, &cx.files[sub].ast.items, &p2);
                }
                self.out.push_str("}\n");
            }
            Item::Use(u) => {
                if is_test(&u.attrs) {
                    return;
                }
                let root = match &u.tree {
                    UseTree::Path(p) => p.ident.to_string(),
                    UseTree::Name(n) => n.ident.to_string(),
                    _ => String::new(),
                };
                if EXTERNAL_ROOTS.contains(&root.as_str()) {
                    return;
                }
                if !mp.is_empty() && cx.roots.contains(&mp[0]) {
                    // only names that the extraction keeps
                    if matches!(&u.tree, UseTree::Rename(_)) {
                        return;
                    }
                    let mut leaves = vec![];
                    flatten(&u.tree, "", &mut leaves);
                    for (path, last) in leaves {
                        if last == "*" || cx.names.contains(&last) {
                            self.out.push_str(&format!("#[allow(unused_imports)] use {path};\n"));
                        }
                    }
                    return;
                }
                let vis = if matches!(u.vis, Visibility::Inherited) { "" } else { "pub " };
                self.out.push_str(&format!("#[allow(unused_imports)] {vis}use {};\n", f.src(&u.tree)));
            }
            Item::Const(c) => {
                if is_test(&c.attrs) {
                    return;
                }
                if toks(&c.ty).replace(' ', "") == "f64" {
                    self.dropped.push(format!("{pre}{}", c.ident));
                    return;
                }
                let v = crate::rewrite::literal(&c.expr).map(|v| v.to_string()).unwrap_or_else(|| f.src(&c.expr).to_string());
                self.out.push_str(&format!("pub const {}: {} = {v};\n", c.ident, f.src(&c.ty)));
            }
            Item::Type(t) => {
                self.out.push_str(&format!("pub type {}{} = {};\n", t.ident, toks(&t.generics), f.src(&t.ty)));
            }
            Item::Struct(s) => {
                if !is_test(&s.attrs) {
                    self.strukt(f, s, &pre)
                }
            }
            Item::Enum(s) => {
                if !is_test(&s.attrs) {
                    self.enm(f, s, &pre)
                }
            }
            Item::Trait(t) => self.trait_(fi, t, &pre),
            Item::Impl(im) => {
                if !is_test(&im.attrs) {
                    self.impl_(fi, im, &pre)
                }
            }
            Item::Fn(func) => {
                if is_test(&func.attrs) {
                    return;
                }
                let info = FnInfo {
                    path: format!("{pre}{}", func.sig.ident),
                    name: func.sig.ident.to_string(),
                    sig: func.sig.clone(),
                    block: Some((*func.block).clone()),
                    file: fi,
                };
                let sp: Vec<_> = self.cx.specs.splits.iter().filter(|s| s.0 == info.path).cloned().collect();
                for s in &sp {
                    let mut i = info.clone();
                    i.path = format!("{}{}", info.path.strip_suffix(&info.name).unwrap(), s.1);
                    i.sig.ident = Ident::new(&s.1, info.sig.ident.span());
                    self.func(&i, "pub ", None, None);
                }
                if sp.is_empty() {
                    self.func(&info, "pub ", None, None);
                }
            }
            Item::Macro(m) => {
                self.dropped.push(format!("{pre}macro {}", toks(&m.mac.path)));
            }
            other => {
                self.dropped.push(format!("{pre}item `{}`", &f.src(other)[..f.src(other).len().min(40)]));
            }
        }
    }

    fn clone_eq(&mut self, name: &str, gp: &str, gu: &str, ds: &[String], wh: &str, has_float: bool) {
        let full = format!("{name}{gu}");
        if ds.iter().any(|d| d == "Debug") {
            self.out.push_str(&format!(
                "#[verifier::external] impl{gp} core::fmt::Debug for {full} {wh} {{ fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {{ Ok(()) }} }}\n"
            ));
        }
        if ds.iter().any(|d| d == "Clone") && !ds.iter().any(|d| d == "Copy") {
            self.out.push_str(&format!(
                "impl{gp} Clone for {full} {wh} {{ #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self {{ unimplemented!() }} }}\n"
            ));
        }
        if ds.iter().any(|d| d == "PartialEq") && !has_float {
            self.out.push_str(&format!(
                "impl{gp} vstd::std_specs::cmp::PartialEqSpecImpl for {full} {wh} {{ open spec fn obeys_eq_spec() -> bool {{ true }} open spec fn eq_spec(&self, o: &Self) -> bool {{ *self == *o }} }}\nimpl{gp} PartialEq for {full} {wh} {{ #[verifier::external_body] fn eq(&self, o: &Self) -> (r: bool) ensures r == (*self == *o) {{ unimplemented!() }} }}\n"
            ));
        }
    }

    fn generics(&self, f: &FileSrc, g: &Generics) -> (String, String, String) {
        let lib = match f.modpath.first() {
            Some(m) if self.cx.roots.contains(m) => "vx2",
            _ => "vx",
        };
        // std modules that the prelude replaces
        let std = |s: &str| {
            let mut s = s.to_string();
            for m in ["io", "fs", "path", "hash", "fmt"] {
                for r in ["std", "core"] {
                    s = s.replace(&format!("{r}::{m}::"), &format!("crate::{}::{m}::", if m == "hash" || m == "fmt" { "vx::std_" } else { lib }));
                }
            }
            s
        };
        let gp = if g.params.is_empty() { String::new() } else { format!("<{}>", std(f.src(&g.params))) };
        let names: Vec<String> = g
            .params
            .iter()
            .map(|p| match p {
                GenericParam::Type(t) => t.ident.to_string(),
                GenericParam::Const(c) => c.ident.to_string(),
                GenericParam::Lifetime(l) => l.lifetime.to_string(),
            })
            .collect();
        let gu = if names.is_empty() { String::new() } else { format!("<{}>", names.join(", ")) };
        let wh = g.where_clause.as_ref().map(|w| std(f.src(w))).unwrap_or_default();
        (gp, gu, wh)
    }

    fn strukt(&mut self, f: &FileSrc, s: &ItemStruct, pre: &str) {
        if self.cx.specs.drop.contains(&format!("{pre}{}", s.ident)) {
            self.dropped.push(format!("{pre}{}", s.ident));
            return;
        }
        let ds = derives(&s.attrs);
        let (gp, gu, wh) = self.generics(f, &s.generics);
        let mut has_float = false;
        if ds.iter().any(|d| d == "Copy") {
            self.out.push_str("#[derive(Clone, Copy)]\n");
        }
        let mut fields = vec![];
        for fl in &s.fields {
            if crate::is_f64(&fl.ty) {
                has_float = true;
            }
            match &fl.ident {
                Some(i) => fields.push(format!("pub {i}: {}", f.src(&fl.ty))),
                None => fields.push(format!("pub {}", f.src(&fl.ty))),
            }
        }
        let shape: Vec<String> = s.fields.iter().map(|x| format!("{}:{}", x.ident.as_ref().map(|i| i.to_string()).unwrap_or_default(), toks(&x.ty).replace(' ', ""))).collect();
        self.shapes.push(format!("{pre}{} {}", s.ident, shape.join(" ")));
        match &s.fields {
            Fields::Named(_) => {
                self.out.push_str(&format!("pub struct {}{gp} {wh} {{ {} }}\n", s.ident, fields.join(", ")))
            }
            Fields::Unnamed(_) => {
                self.out.push_str(&format!("pub struct {}{gp} ({}) {wh};\n", s.ident, fields.join(", ")))
            }
            Fields::Unit => self.out.push_str(&format!("pub struct {};\n", s.ident)),
        }
        self.clone_eq(&s.ident.to_string(), &gp, &gu, &ds, &wh, has_float);
        if ds.iter().any(|d| d == "Default") {
            let mut sp = vec![];
            let mut ex = vec![];
            for fl in &s.fields {
                let n = fl.ident.as_ref().unwrap();
                let t = f.src(&fl.ty);
                sp.push(format!("{n}: <{t} as Default>::default_spec()"));
                ex.push(format!("{n}: Default::default()"));
            }
            self.out.push_str(&format!(
                "impl{gp} Default for {}{gu} {wh} {{ open spec fn default_spec() -> Self {{ {id} {{ {} }} }} fn default() -> (r: Self) {{ {id} {{ {} }} }} }}\n",
                s.ident, sp.join(", "), ex.join(", "), id = s.ident
            ));
        }
    }

    fn enm(&mut self, f: &FileSrc, s: &ItemEnum, pre: &str) {
        if self.cx.specs.drop.contains(&format!("{pre}{}", s.ident)) {
            self.dropped.push(format!("{pre}{}", s.ident));
            return;
        }
        let ds = derives(&s.attrs);
        let (gp, gu, wh) = self.generics(f, &s.generics);
        if ds.iter().any(|d| d == "Copy") {
            self.out.push_str("#[derive(Clone, Copy)]\n");
        }
        for a in &s.attrs {
            if a.path().is_ident("repr") {
                self.out.push_str(&format!("{}\n", f.src(a)));
            }
        }
        let mut vs = vec![];
        let mut froms = vec![];
        let mut has_float = false;
        for v in &s.variants {
            let n = &v.ident;
            let disc = v.discriminant.as_ref().map(|d| format!(" = {}", f.src(&d.1))).unwrap_or_default();
            match &v.fields {
                Fields::Unit => vs.push(format!("{n}{disc}")),
                Fields::Unnamed(u) => {
                    let tys: Vec<&str> = u.unnamed.iter().map(|x| f.src(&x.ty)).collect();
                    for x in &u.unnamed {
                        has_float |= crate::is_f64(&x.ty);
                        if x.attrs.iter().any(|a| a.path().is_ident("from")) {
                            froms.push((n.to_string(), f.src(&x.ty).to_string()));
                        }
                    }
                    vs.push(format!("{n}({})", tys.join(", ")))
                }
                Fields::Named(u) => {
                    let tys: Vec<String> = u
                        .named
                        .iter()
                        .map(|x| format!("{}: {}", x.ident.as_ref().unwrap(), f.src(&x.ty)))
                        .collect();
                    vs.push(format!("{n} {{ {} }}", tys.join(", ")))
                }
            }
        }
        self.out.push_str(&format!("pub enum {}{gp} {wh} {{ {} }}\n", s.ident, vs.join(", ")));
        self.clone_eq(&s.ident.to_string(), &gp, &gu, &ds, &wh, has_float);
        for (v, t) in froms {
            let id = &s.ident;
            self.out.push_str(&format!(
                "impl vstd::std_specs::convert::FromSpecImpl<{t}> for {id} {{ open spec fn obeys_from_spec() -> bool {{ true }} open spec fn from_spec(e: {t}) -> Self {{ {id}::{v}(e) }} }}\nimpl From<{t}> for {id} {{ fn from(e: {t}) -> (r: Self) ensures r == {id}::{v}(e) {{ {id}::{v}(e) }} }}\n"
            ));
        }
    }

    fn trait_(&mut self, fi: usize, t: &ItemTrait, pre: &str) {
        let f = &self.cx.files[fi];
        let (gp, _, wh) = self.generics(f, &t.generics);
        let sup = if t.supertraits.is_empty() { String::new() } else { format!(": {}", f.src(&t.supertraits)) };
        self.out.push_str(&format!("pub trait {}{gp}{sup} {wh} {{\n", t.ident));
        if let Some(x) = self.cx.specs.traititems.get(&format!("{pre}{}", t.ident)) {
            self.out.push_str(x);
        }
        for ti in &t.items {
            match ti {
                TraitItem::Fn(func) => {
                    let info = FnInfo {
                        path: format!("{pre}{}::{}", t.ident, func.sig.ident),
                        name: func.sig.ident.to_string(),
                        sig: func.sig.clone(),
                        block: None,
                        file: fi,
                    };
                    self.func(&info, "", None, None);
                }
                other => self.out.push_str(&format!("{}\n", f.src(other))),
            }
        }
        self.out.push_str("}\n");
    }

    fn impl_(&mut self, fi: usize, im: &ItemImpl, pre: &str) {
        let cx = self.cx;
        let f = &cx.files[fi];
        let key = impl_key(&cx.local_types, im);
        let kp = format!("{pre}{key}");
        let tk = type_key(&cx.local_types, &im.self_ty);
        if cx.specs.drop.contains(&format!("{pre}{tk}")) || cx.specs.drop.contains(&kp) {
            self.dropped.push(kp);
            return;
        }
        let (gp, _, wh) = self.generics(f, &im.generics);
        let ty = f.src(&im.self_ty);
        let mut item_sub = None;
        let mut inherent = im.trait_.is_none();
        let mut tname = String::new();
        if let Some((_, p, _)) = &im.trait_ {
            tname = p.segments.last().unwrap().ident.to_string();
            if DROP_TRAITS.contains(&tname.as_str()) && !cx.specs.implitems.contains_key(&kp) {
                self.dropped.push(kp);
                return;
            }
            if tname == "Copy" {
                self.out.push_str(&format!("impl{gp} Copy for {ty} {wh} {{}}\n"));
                return;
            }
            if INHERENT_TRAITS.contains(&tname.as_str()) {
                inherent = true;
            }
            for ii in &im.items {
                if let ImplItem::Type(t) = ii {
                    if t.ident == "Item" {
                        item_sub = Some(f.src(&t.ty).to_string());
                    }
                }
            }
            if !inherent {
                // the trait as written, last segment plus arguments
                let seg = p.segments.last().unwrap();
                self.out.push_str(&format!("impl{gp} {} for {ty} {wh} {{\n", f.src(seg)));
            }
        }
        if inherent {
            self.out.push_str(&format!("impl{gp} {ty} {wh} {{\n"));
        }
        if let Some(x) = cx.specs.implitems.get(&kp) {
            self.out.push_str(x);
        }
        let mut have = BTreeSet::new();
        for ii in &im.items {
            match ii {
                ImplItem::Fn(func) => {
                    if is_test(&func.attrs) {
                        continue;
                    }
                    have.insert(func.sig.ident.to_string());
                    let info = FnInfo {
                        path: format!("{kp}::{}", func.sig.ident),
                        name: func.sig.ident.to_string(),
                        sig: func.sig.clone(),
                        block: Some(func.block.clone()),
                        file: fi,
                    };
                    self.func(&info, if inherent { "pub " } else { "" }, item_sub.clone(), None);
                }
                ImplItem::Type(_) if inherent => {}
                ImplItem::Const(c) => {
                    self.out.push_str(&format!("pub const {}: {} = {};\n", c.ident, f.src(&c.ty), f.src(&c.expr)))
                }
                other => self.out.push_str(&format!("{}\n", f.src(other))),
            }
        }
        // default methods of crate traits are copied into the impl
        if !inherent {
            if let Some(defs) = cx.trait_defaults.get(&tname) {
                for d in defs.clone() {
                    if !have.contains(&d.name) {
                        let info = FnInfo { path: format!("{kp}::{}", d.name), ..d.clone() };
                        self.func(&info, "", None, Some(d.path.clone()));
                    }
                }
            }
        }
        self.out.push_str("}\n");
    }

    /// `copied_from`: path of the trait default this body is a copy of
    fn func(&mut self, info: &FnInfo, vis: &str, item_sub: Option<String>, copied_from: Option<String>) {
        let cx = self.cx;
        let f = &cx.files[info.file];
        let mut rep = FnReport {
            path: info.path.clone(),
            file: f.rel.clone(),
            src_line: info.sig.span().start().line,
            ..Default::default()
        };
        if cx.specs.drop.contains(&info.path) {
            rep.status = "dropped".into();
            self.reports.push(rep);
            return;
        }
        let spec = cx.specs.fns.get(&info.path);
        // un-contracted helpers that can be inlined everywhere are still emitted,
        // their own obligations are not counted
        let st = RefCell::new(State::default());
        let (gp, _, wh) = self.generics(f, &info.sig.generics);
        // `mut self` / `mut x` parameters become immutable parameters moved into
        // a mutable local of the body
        let mut_self = info.block.is_some()
            && info.sig.receiver().map(|r| r.reference.is_none() && r.mutability.is_some()).unwrap_or(false);
        let mut moved = String::new();
        if mut_self {
            moved.push_str("let mut vx_this = self; ");
        }
        let rw = Rw {
            cx,
            file: f,
            fnpath: info.path.clone(),
            spec,
            floats: RefCell::new(BTreeSet::new()),
            vecs: RefCell::new(BTreeSet::new()),
            st: &st,
            self_sub: if mut_self { Some("vx_this".into()) } else { None },
            item_sub,
            tails: RefCell::new(BTreeSet::new()),
            muts: RefCell::new(BTreeSet::new()),
            bools: RefCell::new(BTreeSet::new()),
            refs: RefCell::new(BTreeSet::new()),
            breaks: RefCell::new(BTreeMap::new()),
            flags: RefCell::new(BTreeMap::new()),
            world: RefCell::new(spec.filter(|s| s.world).map(|_| "&mut *vx_w".to_string())),
            thread: RefCell::new(None),
        };
        let mut params = vec![];
        for a in &info.sig.inputs {
            match a {
                FnArg::Receiver(_) if mut_self => params.push("self".into()),
                FnArg::Receiver(r) => params.push(f.src(r).to_string()),
                FnArg::Typed(t) => {
                    if let Pat::Ident(i) = &*t.pat {
                        if crate::is_f64(&t.ty) {
                            rw.floats.borrow_mut().insert(i.ident.to_string());
                        }
                        if toks(&t.ty).starts_with("Vec") {
                            rw.vecs.borrow_mut().insert(i.ident.to_string());
                        }
                    }
                    match &*t.pat {
                        Pat::Ident(i) if i.mutability.is_some() && info.block.is_some() => {
                            moved.push_str(&format!("let mut {0} = {0}; ", i.ident));
                            params.push(format!("{}: {}", i.ident, rw.ty(&t.ty)));
                        }
                        _ => params.push(format!("{}: {}", f.src(&t.pat), rw.ty(&t.ty))),
                    }
                }
            }
        }
        if spec.map(|s| s.world).unwrap_or(false) {
            params.push("Tracked(vx_w): Tracked<&mut crate::vx2::World>".into());
        }
        let ret = match &info.sig.output {
            ReturnType::Default => String::new(),
            ReturnType::Type(_, t) => {
                let n = spec.map(|s| s.ret.clone()).filter(|s| !s.is_empty()).unwrap_or("vx_r".into());
                format!(" -> ({n}: {})", rw.ty(t))
            }
        };
        let marked = cx.external.contains(&info.path);
        // functions without a contract are never verified on their own: callers
        // see their inlined body, or an opaque result
        let external = marked || (spec.is_none() && copied_from.is_none() && info.block.is_some());
        rep.status = if spec.is_some() || copied_from.is_some() {
            "contract".into()
        } else {
            "uncontracted".into()
        };
        let body = match &info.block {
            None => {
                rep.status = "trait-decl".into();
                None
            }
            Some(b) => {
                rw.mark_tail_block(b);
                rw.mark_breaks(b);
                st.borrow_mut().stack.push(info.path.clone());
                let t = rw.block(b);
                Some(t)
            }
        };
        {
            let s = st.borrow();
            rep.loops = s.rep.loops;
            rep.float = s.rep.float;
            rep.inlined = s.rep.inlined.clone();
            rep.calls_uncontracted = s.rep.calls_uncontracted.clone();
            rep.notes = s.rep.notes.clone();
        }
        let mut attrs = String::new();
        if rep.loops > 0 && !external {
            attrs.push_str("#[verifier::loop_isolation(false)] ");
            if st.borrow().no_decreases {
                attrs.push_str("#[verifier::exec_allows_no_decreases_clause] ");
            }
        }
        if let Some(s) = spec {
            attrs.push_str(&s.attrs);
            let want = s.n_loops.unwrap_or_else(|| s.loops.keys().max().map(|m| m + 1).unwrap_or(0));
            if st.borrow().closures > s.closures.len() {
                rep.notes.push("unsupported: a thread body without contract".into());
            }
            if info.block.is_some() && want != rep.loops && rep.loops == 0 {
                rep.notes.push(format!("loops-gone: contract expects {want} loops"));
            } else if info.block.is_some() && want != rep.loops {
                rep.notes.push(format!("loop-mismatch: contract expects {want} loops, source has {}", rep.loops));
            }
        } else if rep.loops > 0 && !external && !attrs.contains("no_decreases") {
            attrs.push_str("#[verifier::exec_allows_no_decreases_clause] ");
        }
        if external {
            if marked {
                rep.status = "external".into();
            }
            attrs.push_str("#[verifier::external_body] ");
        }
        let clauses = spec.map(|s| s.clauses.clone()).unwrap_or_default();
        self.out.push_str(&format!("// vx-fn-begin {}\n", info.path));
        self.out.push_str(&format!(
            "{attrs}{vis}fn {}{gp}({}){ret} {wh}\n{clauses}",
            info.sig.ident,
            params.join(", ")
        ));
        match body {
            None => self.out.push_str(";\n"),
            Some(_) if external => self.out.push_str("{ unimplemented!() }\n"),
            Some(b) => {
                let entry = spec.map(|s| s.entry.clone()).unwrap_or_default();
                let hides: String = entry.lines().filter(|l| l.starts_with("hide(")).map(|l| format!("{l}\n")).collect();
                let entry: String =
                    entry.lines().filter(|l| !l.starts_with("hide(")).map(|l| format!("{l}\n")).collect();
                self.out.push_str(&format!("{{\n{hides}/*vx-body*/{moved}\n{entry}\n{}\n", &b[1..]));
            }
        }
        self.out.push_str("// vx-fn-end\n");
        self.reports.push(rep);
    }
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn jl<'b>(v: impl Iterator<Item = &'b String>) -> String {
    format!("[{}]", v.map(|s| js(s)).collect::<Vec<_>>().join(","))
}

pub fn report_json(cx: &Ctx, text: &str, reps: &[FnReport], dropped: &[String], shapes: &[String]) -> String {
    // line ranges in the generated file
    let mut ranges: BTreeMap<String, Vec<(usize, usize)>> = BTreeMap::new();
    let mut cur: Option<(String, usize)> = None;
    for (i, l) in text.lines().enumerate() {
        if let Some(p) = l.trim().strip_prefix("// vx-fn-begin ") {
            cur = Some((p.to_string(), i + 1));
        } else if l.trim() == "// vx-fn-end" {
            if let Some((p, s)) = cur.take() {
                ranges.entry(p).or_default().push((s, i + 1));
            }
        }
    }
    let mut o = String::from("{\"functions\":[\n");
    for (i, r) in reps.iter().enumerate() {
        let rg = ranges.get(&r.path).cloned().unwrap_or_default();
        o.push_str(&format!(
            "{}{{\"path\":{},\"file\":{},\"src_line\":{},\"status\":{},\"loops\":{},\"float\":{},\"inlined\":{},\"calls_uncontracted\":{},\"notes\":{},\"ranges\":[{}]}}",
            if i > 0 { ",\n" } else { "" },
            js(&r.path),
            js(&r.file),
            r.src_line,
            js(&r.status),
            r.loops,
            r.float,
            jl(r.inlined.iter()),
            jl(r.calls_uncontracted.iter()),
            jl(r.notes.iter()),
            rg.iter().map(|(a, b)| format!("[{a},{b}]")).collect::<Vec<_>>().join(",")
        ));
    }
    let have: BTreeSet<String> = reps.iter().map(|r| r.path.clone()).collect();
    let missing: Vec<String> = cx.specs.fns.keys().filter(|k| !have.contains(*k)).cloned().collect();
    o.push_str(&format!("],\n\"missing\":{},\n\"dropped\":{},\n\"shapes\":{}}}\n", jl(missing.iter()), jl(dropped.iter()), jl(shapes.iter())));
    o
}
