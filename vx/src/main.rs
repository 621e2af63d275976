//! vx: re-emits the poppy crate for the Verus verifier with contracts attached.
//! usage: vx SRC_DIR SPEC_DIR PRELUDE OUT.rs REPORT.json [--external PATH] [--drop PATH]
//!        [--root MODULE=FILE] [--spec DIR] [--prelude FILE]...
//! --root adds another crate of the workspace (a single file) as a module
mod emit;
mod rewrite;
mod spec;

use std::collections::{BTreeMap, BTreeSet, HashMap};
use syn::spanned::Spanned;

pub struct FileSrc {
    pub text: String,
    pub ast: syn::File,
    pub modpath: Vec<String>,
    pub rel: String,
}

impl FileSrc {
    pub fn src<T: Spanned>(&self, n: &T) -> &str {
        &self.text[n.span().byte_range()]
    }
}

#[derive(Clone)]
pub struct FnInfo {
    pub path: String,
    pub name: String,
    pub sig: syn::Signature,
    pub block: Option<syn::Block>,
    pub file: usize,
}

#[derive(Default, Clone)]
pub struct FnReport {
    pub path: String,
    pub file: String,
    pub src_line: usize,
    pub status: String, // contract | uncontracted | external | dropped
    pub loops: usize,
    pub float: bool,
    pub inlined: BTreeSet<String>,
    pub calls_uncontracted: BTreeSet<String>,
    pub notes: Vec<String>,
}

pub struct Ctx {
    pub files: Vec<FileSrc>,
    pub fns: Vec<FnInfo>,
    pub by_name: HashMap<String, Vec<usize>>,
    pub float_fields: BTreeSet<String>,
    pub float_fns: BTreeSet<String>,
    pub local_types: BTreeSet<String>,
    pub specs: spec::Specs,
    pub external: BTreeSet<String>,
    pub trait_defaults: BTreeMap<String, Vec<FnInfo>>,
    pub roots: Vec<String>,
    pub names: BTreeSet<String>,
}

fn is_test(attrs: &[syn::Attribute]) -> bool {
    attrs.iter().any(|a| {
        let s = quote::ToTokens::to_token_stream(a).to_string().replace(' ', "");
        s.contains("cfg(test)") || s.contains("#[test]")
    })
}

pub fn type_key(cx_types: &BTreeSet<String>, t: &syn::Type) -> String {
    if let syn::Type::Path(p) = t {
        let last = p.path.segments.last().unwrap().ident.to_string();
        if cx_types.contains(&last) {
            return last;
        }
    }
    quote::ToTokens::to_token_stream(t).to_string().replace(' ', "")
}

/// item macros of the form `($($x:frag),*) => { $( ITEMS )* }` are expanded where they are used
fn expand(text: String, ast: syn::File) -> (String, syn::File) {
    use proc_macro2::{Delimiter, TokenStream, TokenTree};
    fn group(t: Option<&TokenTree>, d: Option<Delimiter>) -> Option<Vec<TokenTree>> {
        match t {
            Some(TokenTree::Group(g)) if d.map(|d| d == g.delimiter()).unwrap_or(true) => Some(g.stream().into_iter().collect()),
            _ => None,
        }
    }
    fn is(t: Option<&TokenTree>, c: char) -> bool {
        matches!(t, Some(TokenTree::Punct(p)) if p.as_char() == c)
    }
    /// variable and repeated tokens of a definition
    fn rule(ts: TokenStream) -> Option<(String, Vec<TokenTree>)> {
        let v: Vec<TokenTree> = ts.into_iter().collect();
        let pat = group(v.first(), None)?;
        if !(is(v.get(1), '=') && is(v.get(2), '>')) || v.len() > 5 {
            return None;
        }
        let body = group(v.get(3), None)?;
        let rep = group(pat.get(1), Some(Delimiter::Parenthesis))?;
        if !is(pat.first(), '$') || rep.len() != 4 || !is(rep.first(), '$') || !is(pat.get(2), ',') || !(is(pat.get(3), '*') || is(pat.get(3), '+')) {
            return None;
        }
        let items = group(body.get(1), Some(Delimiter::Parenthesis))?;
        if !is(body.first(), '$') || body.len() != 3 || !(is(body.get(2), '*') || is(body.get(2), '+')) {
            return None;
        }
        Some((rep[1].to_string(), items))
    }
    fn put(ts: &[TokenTree], var: &str, val: &TokenStream) -> TokenStream {
        let mut out = vec![];
        let mut i = 0;
        while i < ts.len() {
            match &ts[i] {
                TokenTree::Punct(p) if p.as_char() == '$' && ts.get(i + 1).map(|t| t.to_string() == var).unwrap_or(false) => {
                    out.extend(val.clone());
                    i += 1;
                }
                TokenTree::Group(g) => {
                    let inner: Vec<TokenTree> = g.stream().into_iter().collect();
                    out.push(TokenTree::Group(proc_macro2::Group::new(g.delimiter(), put(&inner, var, val))));
                }
                t => out.push(t.clone()),
            }
            i += 1;
        }
        out.into_iter().collect()
    }
    let mut rules: HashMap<String, Option<(String, Vec<TokenTree>)>> = HashMap::new();
    let mut edits: Vec<(std::ops::Range<usize>, String)> = vec![];
    for it in &ast.items {
        if let syn::Item::Macro(m) = it {
            if let (Some(id), true) = (&m.ident, m.mac.path.is_ident("macro_rules")) {
                rules.insert(id.to_string(), rule(m.mac.tokens.clone()));
                continue;
            }
            let name = quote::ToTokens::to_token_stream(&m.mac.path).to_string();
            if let Some(Some((var, items))) = rules.get(&name) {
                let mut out = String::new();
                let mut arg: Vec<TokenTree> = vec![];
                let mut flush = |a: &mut Vec<TokenTree>| {
                    if !a.is_empty() {
                        let v: TokenStream = a.drain(..).collect();
                        out.push_str(&format!("{} ", put(items, var, &v)));
                    }
                };
                for t in m.mac.tokens.clone() {
                    if is(Some(&t), ',') {
                        flush(&mut arg);
                    } else {
                        arg.push(t);
                    }
                }
                flush(&mut arg);
                edits.push((m.span().byte_range(), out.replace('\n', " ")));
            }
        }
    }
    if edits.is_empty() {
        return (text, ast);
    }
    let mut t = String::new();
    let mut p = 0;
    for (r, s) in edits {
        t.push_str(&text[p..r.start]);
        t.push_str(&s);
        p = r.end;
    }
    t.push_str(&text[p..]);
    match syn::parse_file(&t) {
        Ok(a) => (t, a),
        Err(_) => (text, ast),
    }
}

fn load_mod(root: &std::path::Path, file: std::path::PathBuf, modpath: Vec<String>, out: &mut Vec<FileSrc>) {
    let text = std::fs::read_to_string(&file).unwrap_or_else(|e| {
        eprintln!("vx: cannot read {}: {e}", file.display());
        std::process::exit(3)
    });
    let ast = match syn::parse_file(&text) {
        Ok(a) => a,
        Err(e) => {
            eprintln!("vx: cannot parse {}: {e}", file.display());
            std::process::exit(3)
        }
    };
    let (text, ast) = expand(text, ast);
    let rel = file.strip_prefix(root).unwrap().to_string_lossy().to_string();
    let mut subs = vec![];
    for it in &ast.items {
        if let syn::Item::Mod(m) = it {
            if m.content.is_none() && !is_test(&m.attrs) {
                subs.push(m.ident.to_string());
            }
        }
    }
    out.push(FileSrc { text, ast, modpath: modpath.clone(), rel });
    let dir = if modpath.is_empty() {
        root.to_path_buf()
    } else {
        let mut d = root.to_path_buf();
        for m in &modpath {
            d.push(m);
        }
        d
    };
    for s in subs {
        let mut mp = modpath.clone();
        mp.push(s.clone());
        let f1 = dir.join(format!("{s}.rs"));
        let f = if f1.exists() { f1 } else { dir.join(&s).join("mod.rs") };
        load_mod(root, f, mp, out);
    }
}

fn is_f64(t: &syn::Type) -> bool {
    quote::ToTokens::to_token_stream(t).to_string().replace(' ', "") == "f64"
}

impl Ctx {
    fn collect(&mut self) {
        // types first
        for f in &self.files {
            fn types(items: &[syn::Item], out: &mut BTreeSet<String>, ff: &mut BTreeSet<String>) {
                for it in items {
                    match it {
                        syn::Item::Struct(s) => {
                            out.insert(s.ident.to_string());
                            for fl in &s.fields {
                                if let Some(i) = &fl.ident {
                                    if is_f64(&fl.ty) {
                                        ff.insert(i.to_string());
                                    }
                                }
                            }
                        }
                        syn::Item::Enum(s) => {
                            out.insert(s.ident.to_string());
                        }
                        syn::Item::Mod(m) if !is_test(&m.attrs) => {
                            if let Some((_, c)) = &m.content {
                                types(c, out, ff)
                            }
                        }
                        _ => {}
                    }
                }
            }
            types(&f.ast.items, &mut self.local_types, &mut self.float_fields);
        }
        let mut fns: Vec<FnInfo> = vec![];
        let mut tdef: BTreeMap<String, Vec<FnInfo>> = BTreeMap::new();
        for (fi, f) in self.files.iter().enumerate() {
            self.collect_items(fi, &f.ast.items, f.modpath.clone(), &mut fns, &mut tdef);
        }
        for i in &fns {
            if let syn::ReturnType::Type(_, t) = &i.sig.output {
                if is_f64(t) {
                    self.float_fns.insert(i.name.clone());
                }
            }
        }
        for (i, f) in fns.iter().enumerate() {
            self.by_name.entry(f.name.clone()).or_default().push(i);
        }
        for f in &self.files {
            fn names(items: &[syn::Item], pre: &str, drop: &[String], out: &mut BTreeSet<String>) {
                for it in items {
                    let n = match it {
                        syn::Item::Struct(s) => s.ident.to_string(),
                        syn::Item::Enum(s) => s.ident.to_string(),
                        syn::Item::Trait(s) => s.ident.to_string(),
                        syn::Item::Type(s) => s.ident.to_string(),
                        syn::Item::Const(s) => s.ident.to_string(),
                        syn::Item::Fn(s) => s.sig.ident.to_string(),
                        syn::Item::Mod(m) => {
                            if let Some((_, c)) = &m.content {
                                names(c, &format!("{pre}{}::", m.ident), drop, out)
                            }
                            m.ident.to_string()
                        }
                        _ => continue,
                    };
                    if !drop.contains(&format!("{pre}{n}")) {
                        out.insert(n);
                    }
                }
            }
            let pre: String = f.modpath.iter().map(|m| format!("{m}::")).collect();
            names(&f.ast.items, &pre, &self.specs.drop, &mut self.names);
        }
        self.fns = fns;
        self.trait_defaults = tdef;
    }

    fn collect_items(
        &self,
        fi: usize,
        items: &[syn::Item],
        modpath: Vec<String>,
        fns: &mut Vec<FnInfo>,
        tdef: &mut BTreeMap<String, Vec<FnInfo>>,
    ) {
        let mp = modpath.join("::");
        let pre = if mp.is_empty() { String::new() } else { format!("{mp}::") };
        for it in items {
            match it {
                syn::Item::Fn(f) if !is_test(&f.attrs) => fns.push(FnInfo {
                    path: format!("{pre}{}", f.sig.ident),
                    name: f.sig.ident.to_string(),
                    sig: f.sig.clone(),
                    block: Some((*f.block).clone()),
                    file: fi,
                }),
                syn::Item::Impl(im) if !is_test(&im.attrs) => {
                    let key = emit::impl_key(&self.local_types, im);
                    for ii in &im.items {
                        if let syn::ImplItem::Fn(f) = ii {
                            if is_test(&f.attrs) {
                                continue;
                            }
                            fns.push(FnInfo {
                                path: format!("{pre}{key}::{}", f.sig.ident),
                                name: f.sig.ident.to_string(),
                                sig: f.sig.clone(),
                                block: Some(f.block.clone()),
                                file: fi,
                            })
                        }
                    }
                }
                syn::Item::Trait(t) => {
                    for ti in &t.items {
                        if let syn::TraitItem::Fn(f) = ti {
                            let info = FnInfo {
                                path: format!("{pre}{}::{}", t.ident, f.sig.ident),
                                name: f.sig.ident.to_string(),
                                sig: f.sig.clone(),
                                block: f.default.clone(),
                                file: fi,
                            };
                            if f.default.is_some() {
                                tdef.entry(t.ident.to_string()).or_default().push(info.clone());
                            }
                            fns.push(info);
                        }
                    }
                }
                syn::Item::Mod(m) if !is_test(&m.attrs) => {
                    if let Some((_, c)) = &m.content {
                        let mut p2 = modpath.clone();
                        p2.push(m.ident.to_string());
                        self.collect_items(fi, c, p2, fns, tdef);
                    }
                }
                _ => {}
            }
        }
    }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let (src, specdir, prelude, out, rep) = (&args[1], &args[2], &args[3], &args[4], &args[5]);
    let mut external = BTreeSet::new();
    let mut extra_drop = vec![];
    let mut roots: Vec<(String, String)> = vec![];
    let mut specdirs = vec![specdir.clone()];
    let mut preludes = vec![prelude.clone()];
    let mut i = 6;
    while i < args.len() {
        match args[i].as_str() {
            "--root" => {
                let (a, b) = args[i + 1].split_once('=').unwrap();
                roots.push((a.to_string(), b.to_string()))
            }
            "--spec" => specdirs.push(args[i + 1].clone()),
            "--prelude" => preludes.push(args[i + 1].clone()),
            _ => {}
        }
        if args[i] == "--external" {
            external.insert(args[i + 1].clone());
        } else if args[i] == "--drop" {
            extra_drop.push(args[i + 1].clone());
        }
        i += 2;
    }
    let mut files = vec![];
    let root = std::path::PathBuf::from(src);
    load_mod(&root, root.join("lib.rs"), vec![], &mut files);
    for (m, f) in &roots {
        let f = std::path::PathBuf::from(f);
        load_mod(f.parent().unwrap(), f.clone(), vec![m.clone()], &mut files);
    }
    let mut cx = Ctx {
        files,
        fns: vec![],
        by_name: HashMap::new(),
        float_fields: BTreeSet::new(),
        float_fns: BTreeSet::new(),
        local_types: BTreeSet::new(),
        specs: spec::load(&specdirs),
        roots: roots.into_iter().map(|r| r.0).collect(),
        external,
        trait_defaults: BTreeMap::new(),
        names: BTreeSet::new(),
    };
    cx.specs.drop.extend(extra_drop);
    cx.collect();
    let prelude: String = preludes.iter().map(|p| std::fs::read_to_string(p).unwrap()).collect();
    let (text, reports, dropped, shapes) = emit::emit_crate(&cx, &prelude);
    std::fs::write(out, &text).unwrap();
    std::fs::write(rep, emit::report_json(&cx, &text, &reports, &dropped, &shapes)).unwrap();
}
