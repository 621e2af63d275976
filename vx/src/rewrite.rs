//! Body rendering: source text with a fixed list of syntactic rewrites.
use crate::spec::FnSpec;
use crate::{Ctx, FileSrc, FnInfo, FnReport};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};
use std::ops::Range;
use syn::parse::Parser;
use syn::punctuated::Punctuated;
use syn::spanned::Spanned;
use syn::visit::{self, Visit};
use syn::*;

#[derive(Default)]
pub struct State {
    pub loop_no: usize,
    pub uid: usize,
    pub rep: FnReport,
    pub stack: Vec<String>,
    pub no_decreases: bool,
    pub closures: usize,
}

pub struct Rw<'a> {
    pub cx: &'a Ctx,
    pub file: &'a FileSrc,
    pub fnpath: String,
    pub spec: Option<&'a FnSpec>,
    pub floats: RefCell<BTreeSet<String>>,
    pub vecs: RefCell<BTreeSet<String>>,
    pub st: &'a RefCell<State>,
    pub self_sub: Option<String>,
    pub item_sub: Option<String>,
    pub tails: RefCell<BTreeSet<(usize, usize)>>,
    pub muts: RefCell<BTreeSet<String>>,
    /// locals that started as a boolean literal, locals bound to elements by reference
    pub bools: RefCell<BTreeSet<String>>,
    pub refs: RefCell<BTreeSet<String>>,
    /// what follows the loop a `break` leaves, where that is the rest of the function
    pub breaks: RefCell<BTreeMap<(usize, usize), Vec<Stmt>>>,
    /// locals a loop changes only where it is left, with their value until then
    pub flags: RefCell<BTreeMap<(usize, usize), Vec<String>>>,
    /// the token to hand to functions with effects, if there is one
    pub world: RefCell<Option<String>>,
    /// inside a thread body that returns its own token: its name
    pub thread: RefCell<Option<String>>,
}

enum Elem {
    Ref(String),
    RefMut(String),
    Val(String),
    Tuple(Vec<Elem>),
}

impl Elem {
    fn expr(&self) -> String {
        match self {
            Elem::Ref(p) => format!("&{p}"),
            Elem::RefMut(p) => format!("&mut {p}"),
            Elem::Val(s) => s.clone(),
            Elem::Tuple(v) => format!("({})", v.iter().map(|e| e.expr()).collect::<Vec<_>>().join(", ")),
        }
    }
}

/// part of formatted output
enum Piece {
    Text(String),
    Shown(String),
    /// a number with a fixed count of decimals
    Fixed(String, usize),
}

struct IxLoop {
    pre: String,
    lo: String,
    hi: String,
    cvar: String,
    ivar: String,
    nvar: String,
    elem: Elem,
    lets: String,
}

fn strip(e: &Expr) -> &Expr {
    match e {
        Expr::Paren(p) => strip(&p.expr),
        Expr::Group(p) => strip(&p.expr),
        _ => e,
    }
}

fn path_str(p: &Path) -> String {
    p.segments.iter().map(|s| s.ident.to_string()).collect::<Vec<_>>().join("::")
}

fn ident_of(e: &Expr) -> Option<String> {
    if let Expr::Path(p) = strip(e) {
        if p.path.segments.len() == 1 && p.qself.is_none() {
            return Some(p.path.segments[0].ident.to_string());
        }
    }
    None
}

fn is_place(e: &Expr) -> bool {
    match strip(e) {
        Expr::Path(_) => true,
        Expr::Field(f) => is_place(&f.base),
        _ => false,
    }
}

/// expression without effects that may be evaluated before a loop
fn is_simple(e: &Expr) -> bool {
    match strip(e) {
        Expr::MethodCall(m) => m.method == "len" && m.args.is_empty() && is_place(&m.receiver),
        Expr::Lit(_) => true,
        e => is_place(e),
    }
}

const STD_METHODS: &[&str] = &[
    "len", "iter", "iter_mut", "push", "get", "get_mut", "contains", "insert", "is_empty", "new", "next", "clear",
    "as_slice", "as_mut_slice", "unwrap", "expect", "map", "into", "write", "finish", "take", "flush", "read", "max",
    "min", "eq", "cmp", "clone", "default", "as_ref", "count_ones", "count_zeros", "hash", "fmt", "write_str", "write_fmt", "to_string",
];

/// names used and bound, loops and breaks of a piece of code
#[derive(Default)]
struct Rest {
    used: BTreeSet<String>,
    bound: BTreeSet<String>,
    loops: bool,
    breaks: Vec<(usize, usize)>,
}
impl<'ast> Visit<'ast> for Rest {
    fn visit_ident(&mut self, i: &'ast Ident) {
        self.used.insert(i.to_string());
    }
    fn visit_pat_ident(&mut self, i: &'ast PatIdent) {
        self.bound.insert(i.ident.to_string());
        visit::visit_pat_ident(self, i);
    }
    fn visit_expr(&mut self, e: &'ast Expr) {
        match e {
            Expr::ForLoop(_) | Expr::While(_) | Expr::Loop(_) | Expr::Closure(_) | Expr::Macro(_) => self.loops = true,
            Expr::Break(b) if b.label.is_none() && b.expr.is_none() => {
                let r = e.span().byte_range();
                self.breaks.push((r.start, r.end))
            }
            _ => visit::visit_expr(self, e),
        }
    }
    fn visit_stmt(&mut self, s: &'ast Stmt) {
        if let Stmt::Macro(_) = s {
            self.loops = true
        }
        visit::visit_stmt(self, s)
    }
}

/// assignments to a local, and those right before a plain break
struct Sets {
    name: String,
    all: usize,
    leaving: usize,
}
impl<'ast> Visit<'ast> for Sets {
    fn visit_expr_assign(&mut self, a: &'ast ExprAssign) {
        if ident_of(&a.left).as_deref() == Some(&self.name) {
            self.all += 1;
        }
        visit::visit_expr_assign(self, a);
    }
    fn visit_expr_binary(&mut self, b: &'ast ExprBinary) {
        if ident_of(&b.left).as_deref() == Some(&self.name) && self.name_assigned(&b.op) {
            self.all += 1;
        }
        visit::visit_expr_binary(self, b);
    }
    fn visit_expr_reference(&mut self, r: &'ast ExprReference) {
        if r.mutability.is_some() && ident_of(&r.expr).as_deref() == Some(&self.name) {
            self.all += 1;
        }
        visit::visit_expr_reference(self, r);
    }
    fn visit_block(&mut self, b: &'ast Block) {
        for w in b.stmts.windows(2) {
            if let (Stmt::Expr(Expr::Assign(a), _), Stmt::Expr(Expr::Break(k), _)) = (&w[0], &w[1]) {
                if ident_of(&a.left).as_deref() == Some(&self.name) && k.label.is_none() && k.expr.is_none() {
                    self.leaving += 1;
                }
            }
        }
        visit::visit_block(self, b);
    }
    fn visit_expr(&mut self, e: &'ast Expr) {
        if matches!(e, Expr::ForLoop(_) | Expr::While(_) | Expr::Loop(_) | Expr::Closure(_)) {
            // a break in there would leave something else
            self.all += 1;
        }
        visit::visit_expr(self, e);
    }
}
impl Sets {
    fn name_assigned(&self, op: &BinOp) -> bool {
        use BinOp::*;
        matches!(op, BitOrAssign(_) | BitAndAssign(_) | BitXorAssign(_))
    }
}

struct HasRet {
    ret: bool,
    q: bool,
}
impl<'ast> Visit<'ast> for HasRet {
    fn visit_expr_return(&mut self, _: &'ast ExprReturn) {
        self.ret = true;
    }
    fn visit_expr_try(&mut self, t: &'ast ExprTry) {
        self.q = true;
        visit::visit_expr_try(self, t);
    }
    fn visit_expr_closure(&mut self, _: &'ast ExprClosure) {}
}

/// whether there are returns of something else than an error
struct ErrRet {
    other: bool,
}
impl<'ast> Visit<'ast> for ErrRet {
    fn visit_expr_return(&mut self, r: &'ast ExprReturn) {
        let err = matches!(r.expr.as_deref().map(strip), Some(Expr::Call(c)) if matches!(&*c.func, Expr::Path(p) if p.path.is_ident("Err")));
        self.other |= !err;
    }
    fn visit_expr_closure(&mut self, _: &'ast ExprClosure) {}
}

/// the value of an expression made of integer literals
pub fn literal(e: &Expr) -> Option<u128> {
    match strip(e) {
        Expr::Lit(l) => match &l.lit {
            Lit::Int(i) => i.base10_parse::<u128>().ok(),
            _ => None,
        },
        Expr::Binary(b) => {
            let (l, r) = (literal(&b.left)?, literal(&b.right)?);
            match b.op {
                BinOp::Add(_) => l.checked_add(r),
                BinOp::Sub(_) => l.checked_sub(r),
                BinOp::Mul(_) => l.checked_mul(r),
                BinOp::Div(_) => l.checked_div(r),
                BinOp::Rem(_) => l.checked_rem(r),
                BinOp::Shl(_) if r < 64 && l < 1 << 63 => l.checked_shl(r as u32),
                BinOp::Shr(_) if r < 64 => l.checked_shr(r as u32),
                BinOp::BitAnd(_) => Some(l & r),
                BinOp::BitOr(_) => Some(l | r),
                BinOp::BitXor(_) => Some(l ^ r),
                _ => None,
            }
        }
        _ => None,
    }
    .filter(|x| *x < 1 << 64)
}

/// the suffix of the first literal of an expression made of literals
fn suffix(e: &Expr) -> String {
    match strip(e) {
        Expr::Lit(l) => match &l.lit {
            Lit::Int(i) => i.suffix().to_string(),
            _ => String::new(),
        },
        Expr::Binary(b) if matches!(b.op, BinOp::Shl(_) | BinOp::Shr(_)) => suffix(&b.left),
        Expr::Binary(b) => Some(suffix(&b.left)).filter(|s| !s.is_empty()).unwrap_or_else(|| suffix(&b.right)),
        _ => String::new(),
    }
}

struct V<'r, 'a> {
    r: &'r Rw<'a>,
    edits: Vec<(Range<usize>, String)>,
}

impl<'ast> Visit<'ast> for V<'_, '_> {
    fn visit_expr(&mut self, e: &'ast Expr) {
        if let Some(s) = self.r.rewrite(e) {
            self.edits.push((e.span().byte_range(), s));
        } else {
            visit::visit_expr(self, e);
        }
    }
    fn visit_stmt(&mut self, s: &'ast Stmt) {
        match s {
            Stmt::Macro(m) => {
                if let Some(t) = self.r.rewrite_macro(&m.mac) {
                    self.edits.push((s.span().byte_range(), format!("{t};")));
                }
            }
            Stmt::Local(l) => {
                self.r.note_local(l);
                visit::visit_stmt(self, s)
            }
            Stmt::Item(Item::Use(_)) => self.edits.push((s.span().byte_range(), String::new())),
            _ => visit::visit_stmt(self, s),
        }
    }
    fn visit_type(&mut self, t: &'ast Type) {
        if let (Some(sub), Type::Path(p)) = (&self.r.item_sub, t) {
            if path_str(&p.path) == "Self::Item" {
                self.edits.push((t.span().byte_range(), sub.clone()));
                return;
            }
        }
        visit::visit_type(self, t)
    }
    fn visit_path(&mut self, p: &'ast Path) {
        // std modules that the prelude replaces
        if p.segments.len() >= 3 && (p.segments[0].ident == "std" || p.segments[0].ident == "core") {
            let m = p.segments[1].ident.to_string();
            if ["io", "fs", "thread", "path", "sync", "hash", "fmt"].contains(&m.as_str()) {
                let to = if m == "hash" || m == "fmt" { "vx::std_" } else { self.r.lib() };
                self.edits.push((p.segments[0].ident.span().byte_range(), format!("crate::{to}")));
            }
        }
        visit::visit_path(self, p)
    }
    fn visit_attribute(&mut self, a: &'ast Attribute) {
        self.edits.push((a.span().byte_range(), String::new()));
    }
}

impl<'a> Rw<'a> {
    fn uid(&self) -> usize {
        let mut s = self.st.borrow_mut();
        s.uid += 1;
        s.uid - 1
    }
    /// the prelude module the current file sees
    fn lib(&self) -> &'static str {
        match self.file.modpath.first() {
            Some(m) if self.cx.roots.contains(m) => "vx2",
            _ => "vx",
        }
    }
    fn mark_float(&self) {
        self.st.borrow_mut().rep.float = true;
    }
    pub fn note(&self, s: &str) {
        self.st.borrow_mut().rep.notes.push(s.to_string());
    }

    pub fn apply(&self, range: Range<usize>, mut edits: Vec<(Range<usize>, String)>) -> String {
        edits.sort_by_key(|e| e.0.start);
        let mut out = String::new();
        let mut p = range.start;
        for (r, s) in edits {
            if r.start < p {
                continue;
            }
            out.push_str(&self.file.text[p..r.start]);
            out.push_str(&s);
            p = r.end;
        }
        out.push_str(&self.file.text[p..range.end]);
        out
    }

    pub fn expr(&self, e: &Expr) -> String {
        if let Some(s) = self.rewrite(e) {
            return s;
        }
        let mut v = V { r: self, edits: vec![] };
        visit::visit_expr(&mut v, e);
        let ed = v.edits;
        self.apply(e.span().byte_range(), ed)
    }
    pub fn block(&self, b: &Block) -> String {
        let mut v = V { r: self, edits: vec![] };
        visit::visit_block(&mut v, b);
        let ed = v.edits;
        self.apply(b.span().byte_range(), ed)
    }
    pub fn ty(&self, t: &Type) -> String {
        let mut v = V { r: self, edits: vec![] };
        v.visit_type(t);
        let ed = v.edits;
        self.apply(t.span().byte_range(), ed)
    }
    fn pat(&self, p: &Pat) -> String {
        self.file.src(p).to_string()
    }

    /// body as statements, without the outer braces
    fn inner(&self, e: &Expr) -> String {
        match e {
            Expr::Block(b) if b.label.is_none() => {
                let s = self.block(&b.block);
                s[1..s.len() - 1].to_string()
            }
            _ => self.expr(e),
        }
    }

    fn block_inner(&self, b: &Block) -> String {
        let s = self.block(b);
        s[1..s.len() - 1].to_string()
    }

    pub fn note_local(&self, l: &Local) {
        let (id, ty, mutable) = match &l.pat {
            Pat::Ident(i) => (i.ident.to_string(), None, i.mutability.is_some()),
            Pat::Type(t) => match &*t.pat {
                Pat::Ident(i) => (i.ident.to_string(), Some(&t.ty), i.mutability.is_some()),
                _ => return,
            },
            _ => return,
        };
        if mutable {
            self.muts.borrow_mut().insert(id.clone());
        } else {
            self.muts.borrow_mut().remove(&id);
        }
        self.refs.borrow_mut().remove(&id);
        if matches!(&l.init, Some(i) if matches!(&*i.expr, Expr::Lit(l) if matches!(l.lit, Lit::Bool(_)))) {
            self.bools.borrow_mut().insert(id.clone());
        } else {
            self.bools.borrow_mut().remove(&id);
        }
        let fl = match (ty, &l.init) {
            (Some(t), _) => crate::is_f64(t),
            (None, Some(i)) => self.is_float(&i.expr),
            _ => false,
        };
        if fl {
            self.floats.borrow_mut().insert(id.clone());
        } else {
            self.floats.borrow_mut().remove(&id);
        }
        if let Some(t) = ty {
            if quote::ToTokens::to_token_stream(&**t).to_string().starts_with("Vec") {
                self.vecs.borrow_mut().insert(id);
            }
        } else if self.lib() == "vx2" && l.init.as_ref().map(|i| makes_vec(&i.expr)).unwrap_or(false) {
            self.vecs.borrow_mut().insert(id);
        }
    }

    pub fn is_float(&self, e: &Expr) -> bool {
        match e {
            Expr::Lit(l) => match &l.lit {
                Lit::Float(_) => true,
                Lit::Int(i) => i.suffix() == "f64",
                _ => false,
            },
            Expr::Paren(p) => self.is_float(&p.expr),
            Expr::Group(p) => self.is_float(&p.expr),
            Expr::Reference(p) => self.is_float(&p.expr),
            Expr::Unary(u) => !matches!(u.op, UnOp::Not(_)) && self.is_float(&u.expr),
            Expr::Binary(b) => {
                matches!(b.op, BinOp::Add(_) | BinOp::Sub(_) | BinOp::Mul(_) | BinOp::Div(_))
                    && (self.is_float(&b.left) || self.is_float(&b.right))
            }
            Expr::Cast(c) => crate::is_f64(&c.ty),
            Expr::Path(p) => {
                let s = path_str(&p.path);
                if p.path.segments.len() == 1 {
                    self.floats.borrow().contains(&s)
                } else {
                    s.starts_with("f64::")
                }
            }
            Expr::Field(f) => {
                if let Member::Named(i) = &f.member {
                    self.cx.float_fields.contains(&i.to_string())
                } else {
                    false
                }
            }
            Expr::MethodCall(m) => {
                let n = m.method.to_string();
                match n.as_str() {
                    "ceil" | "floor" | "round" | "abs" | "ln" | "powf" | "powi" | "exp" | "sqrt" | "max" | "min"
                    | "clone" => self.is_float(&m.receiver),
                    _ => self.cx.float_fns.contains(&n),
                }
            }
            Expr::Call(c) => {
                if let Expr::Path(p) = &*c.func {
                    let s = path_str(&p.path);
                    let last = p.path.segments.last().unwrap().ident.to_string();
                    (s.starts_with("f64::") && last != "to_bits") || self.cx.float_fns.contains(&last)
                } else {
                    false
                }
            }
            Expr::Block(b) => match b.block.stmts.last() {
                Some(Stmt::Expr(e, None)) => self.is_float(e),
                _ => false,
            },
            Expr::If(i) => match i.then_branch.stmts.last() {
                Some(Stmt::Expr(e, None)) => self.is_float(e),
                _ => false,
            },
            _ => false,
        }
    }

    pub fn mark_tail_block(&self, b: &Block) {
        if let Some(Stmt::Expr(e, None)) = b.stmts.last() {
            self.mark_tail(e);
        }
    }
    /// loops of the outermost block: leaving one goes on with the rest of the function
    pub fn mark_breaks(&self, b: &Block) {
        for (i, s) in b.stmts.iter().enumerate() {
            let f = match s {
                Stmt::Expr(Expr::ForLoop(f), _) if f.label.is_none() => f,
                _ => continue,
            };
            let rest: Vec<Stmt> = b.stmts[i + 1..].to_vec();
            let mut r = Rest::default();
            rest.iter().for_each(|s| r.visit_stmt(s));
            let mut l = Rest::default();
            l.visit_pat(&f.pat);
            l.visit_block(&f.body);
            if r.loops || rest.len() > 4 || l.bound.iter().any(|n| r.used.contains(n)) {
                continue;
            }
            for k in l.breaks {
                self.breaks.borrow_mut().insert(k, rest.clone());
            }
            for (j, d) in b.stmts[..i].iter().enumerate() {
                if let Stmt::Local(Local { pat: Pat::Ident(p), init: Some(x), .. }) = d {
                    if let Expr::Lit(ExprLit { lit: Lit::Bool(v), .. }) = &*x.expr {
                        let mut between = Sets { name: p.ident.to_string(), all: 0, leaving: 0 };
                        b.stmts[j + 1..i].iter().for_each(|s| between.visit_stmt(s));
                        let mut within = Sets { name: p.ident.to_string(), all: 0, leaving: 0 };
                        within.visit_block(&f.body);
                        if between.all == 0 && within.all == within.leaving {
                            let r = f.span().byte_range();
                            let mut m = self.flags.borrow_mut();
                            m.entry((r.start, r.end)).or_default().push(format!("{} == {}", p.ident, v.value));
                        }
                    }
                }
            }
        }
    }
    fn mark_tail(&self, e: &Expr) {
        match e {
            Expr::If(i) => {
                self.mark_tail_block(&i.then_branch);
                if let Some((_, e)) = &i.else_branch {
                    self.mark_tail(e)
                }
            }
            Expr::Match(m) => {
                for a in &m.arms {
                    self.mark_tail(&a.body)
                }
            }
            Expr::Block(b) => self.mark_tail_block(&b.block),
            _ => {
                let r = e.span().byte_range();
                self.tails.borrow_mut().insert((r.start, r.end));
            }
        }
    }

    // ------------------------------------------------------------------ rewrites

    fn rewrite(&self, e: &Expr) -> Option<String> {
        match e {
            Expr::Macro(m) => self.rewrite_macro(&m.mac),
            Expr::ForLoop(f) => self.for_loop(f),
            Expr::While(w) => self.while_loop(w),
            Expr::Loop(l) => self.plain_loop(l),
            Expr::Return(r) => {
                if let Some(x) = &r.expr {
                    self.mark_tail(x);
                }
                if let Some(w) = self.thread.borrow().clone() {
                    let x = r.expr.as_ref().map(|x| self.expr(x)).unwrap_or("()".into());
                    return Some(format!("return ({x}, Tracked({w}))"));
                }
                None
            }
            Expr::Break(b) => {
                let r = b.span().byte_range();
                let rest = self.breaks.borrow().get(&(r.start, r.end)).cloned()?;
                let mut t = String::new();
                for s in &rest {
                    let mut v = V { r: self, edits: vec![] };
                    v.visit_stmt(s);
                    let ed = v.edits;
                    t.push_str(&match s {
                        Stmt::Expr(_, None) => format!("return {};", self.apply(s.span().byte_range(), ed)),
                        _ => format!("{} ", self.apply(s.span().byte_range(), ed)),
                    });
                }
                if !matches!(rest.last(), Some(Stmt::Expr(_, None))) {
                    t.push_str("return;");
                }
                Some(format!("{{ {t} }}"))
            }
            Expr::Match(m) => self.match_expr(m),
            Expr::Try(t) => {
                if let Some(s) = self.try_for_each(&t.expr) {
                    return Some(format!("({s})"));
                }
                if let Some(s) = self.try_inline(&t.expr, false, true) {
                    return Some(self.question(&s));
                }
                if self.lib() == "vx2" {
                    return Some(self.question(&self.expr(&t.expr)));
                }
                None
            }
            Expr::Path(p) => {
                let s = path_str(&p.path);
                if s == "self" {
                    return self.self_sub.clone();
                }
                if s == "f64::MIN_POSITIVE" {
                    self.mark_float();
                    return Some("crate::vx::vx_f(0x0010000000000000u64)".into());
                }
                match s.as_str() {
                    "f64::MAX" => Some(format!("crate::vx::vx_f({:#x}u64)", f64::MAX.to_bits())),
                    "f64::EPSILON" => Some(format!("crate::vx::vx_f({:#x}u64)", f64::EPSILON.to_bits())),
                    "f64::INFINITY" => Some(format!("crate::vx::vx_f({:#x}u64)", f64::INFINITY.to_bits())),
                    "std::f64::consts::LN_2" | "core::f64::consts::LN_2" => {
                        Some(format!("crate::vx::vx_f({:#x}u64)", std::f64::consts::LN_2.to_bits()))
                    }
                    _ => None,
                }
            }
            Expr::Lit(l) => {
                let v: Option<f64> = match &l.lit {
                    Lit::Float(f) => f.base10_parse().ok(),
                    Lit::Int(i) if i.suffix() == "f64" => i.base10_digits().parse().ok(),
                    _ => None,
                };
                v.map(|v| {
                    self.mark_float();
                    format!("crate::vx::vx_f({:#x}u64)", v.to_bits())
                })
            }
            Expr::Unary(u) if matches!(u.op, UnOp::Neg(_)) && self.is_float(&u.expr) => {
                self.mark_float();
                Some(format!("crate::vx::vx_fneg({})", self.expr(&u.expr)))
            }
            Expr::Binary(b) => self.binary(b),
            Expr::Cast(c) => {
                let t = quote::ToTokens::to_token_stream(&c.ty).to_string();
                if t == "f64" {
                    if self.is_float(&c.expr) {
                        return Some(self.expr(&c.expr));
                    }
                    self.mark_float();
                    return Some(format!("crate::vx::vx_u2f(({}) as u64)", self.expr(&c.expr)));
                }
                if self.is_float(&c.expr) {
                    self.mark_float();
                    let x = self.expr(&c.expr);
                    return Some(match t.as_str() {
                        "u64" => format!("crate::vx::vx_f2u({x})"),
                        "usize" => format!("(crate::vx::vx_f2u({x}) as usize)"),
                        _ => format!("crate::vx::vx_unsupported_cast({x})"),
                    });
                }
                None
            }
            Expr::Index(i) => {
                // X[a..b] in a shared context
                if let Expr::Range(r) = strip(&i.index) {
                    return Some(format!("(*{})", self.subrange(&i.expr, r)));
                }
                None
            }
            Expr::Reference(r) => {
                if let Expr::Index(i) = strip(&r.expr) {
                    if let (Expr::Range(g), None) = (strip(&i.index), &r.mutability) {
                        return Some(self.subrange(&i.expr, g));
                    }
                }
                None
            }
            Expr::MethodCall(m) => {
                if self.is_tail(e) {
                    if let Some(s) = self.quantifier(e, &|v| v.to_string()) {
                        return Some(s);
                    }
                    if let Some(s) = self.try_for_each(e) {
                        return Some(format!("({{ {s}; Ok(()) }})"));
                    }
                }
                self.method(m, e)
            }
            Expr::Unary(u) if matches!(u.op, UnOp::Not(_)) && self.is_tail(e) => {
                self.quantifier(strip(&u.expr), &|v| if v == "true" { "false" } else { "true" }.to_string())
            }
            Expr::Call(c) => {
                if self.is_tail(e) && c.args.len() == 1 && matches!(&*c.func, Expr::Path(p) if p.path.is_ident("Ok")) {
                    if let Some(s) = self.quantifier(strip(&c.args[0]), &|v| format!("Ok({v})")) {
                        return Some(s);
                    }
                }
                self.call(c, e)
            }
            _ => None,
        }
    }

    /// `it.all(p)` or `it.any(p)` as the function's result
    fn quantifier(&self, e: &Expr, res: &dyn Fn(&str) -> String) -> Option<String> {
        let m = match e {
            Expr::MethodCall(m) if (m.method == "all" || m.method == "any") && m.args.len() == 1 => m,
            _ => return None,
        };
        let cl = match strip(&m.args[0]) {
            Expr::Closure(cl) if cl.inputs.len() == 1 => cl,
            _ => return None,
        };
        let mut hr = HasRet { ret: false, q: false };
        hr.visit_expr(&cl.body);
        if hr.ret || hr.q || self.thread.borrow().is_some() {
            return None;
        }
        let (stop, end, neg) = if m.method == "all" { ("false", "true", "!") } else { ("true", "false", "") };
        let b = || format!("if {neg}({{ {} }}) {{ return {}; }}", self.inner(&cl.body), res(stop));
        let save = (self.st.borrow().uid, self.st.borrow().loop_no);
        let l = match self.chain(&m.receiver, false) {
            Some(c) => self.emit_ix(c, &|el| format!("{} {}", self.bind(&cl.inputs[0], el), b()), None, None, ""),
            None => {
                self.back_to(save);
                self.over(&m.receiver, &cl.inputs[0], &b, "", "$acc")
            }
        };
        Some(format!("({{ {l} {} }})", res(end)))
    }

    /// `it.try_for_each(f)?` as a loop
    fn try_for_each(&self, e: &Expr) -> Option<String> {
        let m = match strip(e) {
            Expr::MethodCall(m) if m.method == "try_for_each" && m.args.len() == 1 => m,
            _ => return None,
        };
        let cl = match strip(&m.args[0]) {
            Expr::Closure(cl) if cl.inputs.len() == 1 => cl,
            _ => return None,
        };
        let mut hr = HasRet { ret: false, q: false };
        hr.visit_expr(&cl.body);
        if hr.ret || hr.q {
            return None;
        }
        let b = || {
            if self.lib() == "vx2" {
                format!("{};", self.question(&self.expr(&cl.body)))
            } else {
                format!("({})?;", self.expr(&cl.body))
            }
        };
        let save = (self.st.borrow().uid, self.st.borrow().loop_no);
        Some(match self.chain(&m.receiver, false) {
            Some(c) => {
                let l = self.emit_ix(c, &|el| format!("{} {}", self.bind(&cl.inputs[0], el), b()), None, None, "");
                format!("{{ {l} }}")
            }
            None => {
                self.back_to(save);
                let recv = match strip(&m.receiver) {
                    Expr::MethodCall(r) if r.method == "into_iter" && ident_of(&r.receiver).is_some() => &r.receiver,
                    _ => &m.receiver,
                };
                self.over(recv, &cl.inputs[0], &b, "", "$acc")
            }
        })
    }

    fn back_to(&self, (uid, loop_no): (usize, usize)) {
        let mut s = self.st.borrow_mut();
        s.uid = uid;
        s.loop_no = loop_no;
        s.rep.loops = loop_no;
    }

    /// a loop over an iterator with a contract of its own
    fn over(&self, it_expr: &Expr, pat: &Pat, body: &dyn Fn() -> String, auto_inv: &str, acc: &str) -> String {
        let mut ex = self.expr(it_expr);
        if let Some(id) = ident_of(it_expr) {
            if self.vecs.borrow().contains(&id) {
                ex = format!("crate::vx::vx_into_iter({ex})");
            }
        }
        self.over_text(ex, pat, body, auto_inv, acc)
    }

    /// whether the contract of the loop speaks of an iterator
    fn wants_iter(&self, k: usize) -> bool {
        let l = self.spec.and_then(|s| s.loops.get(&k));
        l.map(|l| [&l.inv, &l.before, &l.start, &l.end, &l.after].iter().any(|t| t.contains("$it"))).unwrap_or(false)
    }

    fn over_text(&self, ex: String, pat: &Pat, body: &dyn Fn() -> String, auto_inv: &str, acc: &str) -> String {
        let u = self.uid();
        let k = self.next_loop();
        let it = format!("vx_it{u}");
        let it0 = format!("vx_start{u}");
        let (inv, h) = self.loop_text(k, &[("$it0", &it0), ("$it", &it), ("$acc", acc)], auto_inv, "");
        format!(
            "{{ let mut {it} = {ex}; let ghost {it0} = {it};\n{}\n loop\n{inv}{{\n{} match {it}.next() {{ None => {{ break; }} Some({}) => {{ {} }} }}\n{}}}\n{} }}",
            h[0],
            h[1],
            self.pat(pat),
            body(),
            h[2],
            h[3]
        )
    }

    fn subrange(&self, x: &Expr, r: &ExprRange) -> String {
        let x = self.expr(x);
        let a = r.start.as_ref().map(|e| self.expr(e)).unwrap_or("0".into());
        let b = match (&r.end, &r.limits) {
            (Some(e), RangeLimits::HalfOpen(_)) => self.expr(e),
            (Some(e), _) => format!("({}) + 1", self.expr(e)),
            (None, _) => format!("crate::vx::VxSlice::vx_slice(&{x}).len()"),
        };
        format!("crate::vx::vx_subrange(crate::vx::VxSlice::vx_slice(&{x}), {a}, {b})")
    }

    fn binary(&self, b: &ExprBinary) -> Option<String> {
        if !(self.is_float(&b.left) || self.is_float(&b.right)) {
            if let Some(l) = ident_of(&b.left).filter(|l| self.bools.borrow().contains(l)) {
                match b.op {
                    BinOp::BitOrAssign(_) => return Some(format!("if {} {{ {l} = true; }}", self.expr(&b.right))),
                    BinOp::BitAndAssign(_) => return Some(format!("if !({}) {{ {l} = false; }}", self.expr(&b.right))),
                    _ => {}
                }
            }
            // operands that are references to integers
            use BinOp::*;
            if matches!(b.op, Shl(_) | Shr(_) | BitAnd(_) | BitOr(_) | BitXor(_)) {
                let e = Expr::Binary(b.clone());
                if let Some(v) = literal(&e) {
                    return Some(format!("{v}{}", suffix(&e)));
                }
            }
            let assign = matches!(
                b.op,
                AddAssign(_) | SubAssign(_) | MulAssign(_) | BitOrAssign(_) | BitAndAssign(_) | BitXorAssign(_)
            );
            if assign || matches!(b.op, Add(_) | Sub(_) | Mul(_) | Div(_) | Rem(_) | BitAnd(_) | BitOr(_) | BitXor(_) | Shl(_) | Shr(_)) {
                let isref = |e: &Expr| ident_of(e).map(|i| self.refs.borrow().contains(&i)).unwrap_or(false);
                let (l, r) = (!assign && isref(&b.left), isref(&b.right));
                if l || r {
                    let side = |d: bool, e: &Expr| if d { format!("(*{})", self.expr(e)) } else { self.expr(e) };
                    return Some(format!("{} {} {}", side(l, &b.left), self.file.src(&b.op), side(r, &b.right)));
                }
            }
            return None;
        }
        let f = match b.op {
            BinOp::Add(_) => "fadd",
            BinOp::Sub(_) => "fsub",
            BinOp::Mul(_) => "fmul",
            BinOp::Div(_) => "fdiv",
            BinOp::Eq(_) => "feq",
            BinOp::Lt(_) => "flt",
            BinOp::Le(_) => "fle",
            BinOp::Gt(_) => "fgt",
            BinOp::Ge(_) => "fge",
            BinOp::Ne(_) => "fne",
            BinOp::AddAssign(_) => {
                self.mark_float();
                let l = self.expr(&b.left);
                return Some(format!("{l} = crate::vx::vx_fadd({l}, {})", self.expr(&b.right)));
            }
            _ => return None,
        };
        self.mark_float();
        Some(format!("crate::vx::vx_{f}({}, {})", self.expr(&b.left), self.expr(&b.right)))
    }

    pub fn rewrite_macro(&self, m: &Macro) -> Option<String> {
        let name = path_str(&m.path);
        let args = || -> Option<Vec<Expr>> {
            Punctuated::<Expr, Token![,]>::parse_terminated
                .parse2(m.tokens.clone())
                .ok()
                .map(|p| p.into_iter().collect())
        };
        match name.as_str() {
            "assert" | "debug_assert" => {
                let a = args()?;
                Some(format!("crate::vx::vx_assert({})", self.expr(&a[0])))
            }
            "assert_eq" | "debug_assert_eq" => {
                let a = args()?;
                Some(format!("crate::vx::vx_assert(({}) == ({}))", self.expr(&a[0]), self.expr(&a[1])))
            }
            "assert_ne" | "debug_assert_ne" => {
                let a = args()?;
                Some(format!("crate::vx::vx_assert(({}) != ({}))", self.expr(&a[0]), self.expr(&a[1])))
            }
            "unreachable" | "panic" | "unimplemented" | "todo" => Some("crate::vx::vx_panic()".to_string()),
            "vec" => {
                if m.tokens.is_empty() {
                    return Some("Vec::new()".into());
                }
                // vec![e; n]
                struct Rep(Expr, Expr);
                impl syn::parse::Parse for Rep {
                    fn parse(i: syn::parse::ParseStream) -> syn::Result<Self> {
                        let a = i.parse()?;
                        i.parse::<Token![;]>()?;
                        Ok(Rep(a, i.parse()?))
                    }
                }
                if let Ok(Rep(a, n)) = syn::parse2::<Rep>(m.tokens.clone()) {
                    return Some(format!("crate::vx::vx_vec_repeat({}, {})", self.expr(&a), self.expr(&n)));
                }
                None
            }
            "println" | "print" if self.lib() == "vx2" => Some(self.print(m, name == "println")),
            "eprintln" | "println" | "print" | "eprint" => Some("()".to_string()),
            "write" | "writeln" => Some(self.write_macro(m, name == "writeln")),
            "anyhow" | "anyhow::anyhow" => Some("crate::vx2::vx_error()".to_string()),
            _ => None,
        }
    }

    /// output, piece by piece, recorded in the token
    fn print(&self, m: &Macro, newline: bool) -> String {
        let w = match &*self.world.borrow() {
            Some(w) => w.clone(),
            None => {
                self.note("unsupported: output in a function that is not known to print");
                return "()".to_string();
            }
        };
        let a: Vec<Expr> = match Punctuated::<Expr, Token![,]>::parse_terminated.parse2(m.tokens.clone()) {
            Ok(p) => p.into_iter().collect(),
            Err(_) => {
                self.note("unsupported: arguments of an output macro");
                return "()".to_string();
            }
        };
        match self.pieces(&a, newline) {
            Ok((lets, ps)) => {
                let mut out = String::new();
                for p in ps {
                    out.push_str(&match p {
                        Piece::Text(t) => format!("crate::vx2::vx_out_text({t:?}, Tracked({w})); "),
                        Piece::Shown(x) => format!("crate::vx2::vx_out({x}, Tracked({w})); "),
                        Piece::Fixed(x, n) => format!("crate::vx2::vx_out_fixed({x}, {n}, Tracked({w})); "),
                    });
                }
                format!("{{ {lets}{out} }}")
            }
            Err(why) => {
                self.note(&format!("unsupported: {why}"));
                "()".to_string()
            }
        }
    }

    /// write!(f, ..) to a formatter, piece by piece, stopping at the first error
    fn write_macro(&self, m: &Macro, newline: bool) -> String {
        let bad = |why: &str| {
            self.note(&format!("unsupported: {why}"));
            "crate::vx::vx_panic()".to_string()
        };
        let a: Vec<Expr> = match Punctuated::<Expr, Token![,]>::parse_terminated.parse2(m.tokens.clone()) {
            Ok(p) if !p.is_empty() => p.into_iter().collect(),
            _ => return bad("arguments of an output macro"),
        };
        let f = match ident_of(&a[0]) {
            Some(f) if self.fnpath.ends_with("::fmt") => f,
            _ => return bad("formatted output that is not to a formatter"),
        };
        match self.pieces(&a[1..], newline) {
            Ok((lets, ps)) => {
                let mut out = "Ok(())".to_string();
                for p in ps.into_iter().rev() {
                    let one = match p {
                        Piece::Text(t) => format!("{f}.write_str({t:?})"),
                        Piece::Shown(x) => format!("{f}.vx_show({x})"),
                        Piece::Fixed(x, n) => format!("{f}.vx_fixed({x}, {n})"),
                    };
                    out = format!("match {one} {{ Err(vx_e) => Err(vx_e), Ok(_) => {{ {out} }} }}");
                }
                format!("({{ {lets}{out} }})")
            }
            Err(why) => bad(&why),
        }
    }

    /// format string and arguments as bindings and pieces
    fn pieces(&self, a: &[Expr], newline: bool) -> std::result::Result<(String, Vec<Piece>), String> {
        let fmt = match a.first() {
            None => String::new(),
            Some(Expr::Lit(ExprLit { lit: Lit::Str(s), .. })) => s.value(),
            _ => return Err("output format".into()),
        };
        let mut out = vec![];
        let mut lit = String::new();
        let mut next = 1;
        let k = self.uid();
        // arguments are evaluated before anything is printed
        let mut lets = String::new();
        for (i, x) in a.iter().enumerate().skip(1) {
            if matches!(x, Expr::Assign(_)) {
                return Err("named output argument".into());
            }
            lets.push_str(&format!("let vx_p{k}_{i} = &{}; ", self.expr(x)));
        }
        let cs: Vec<char> = fmt.chars().collect();
        let mut i = 0;
        while i < cs.len() {
            match cs[i] {
                '{' if i + 1 < cs.len() && cs[i + 1] == '{' => {
                    lit.push('{');
                    i += 2;
                }
                '}' => {
                    lit.push('}');
                    i += 2;
                }
                '{' => {
                    let mut n = String::new();
                    i += 1;
                    while i < cs.len() && cs[i] != '}' {
                        n.push(cs[i]);
                        i += 1;
                    }
                    i += 1;
                    let (n, how) = match n.split_once(':') {
                        Some((n, h)) => (n.to_string(), h.to_string()),
                        None => (n, String::new()),
                    };
                    let x = if n.is_empty() {
                        next += 1;
                        if next > a.len() {
                            return Err("output format".into());
                        }
                        format!("vx_p{k}_{}", next - 1)
                    } else if n.chars().all(|c| c.is_alphanumeric() || c == '_') && !n.starts_with(|c: char| c.is_numeric()) {
                        format!("&{n}")
                    } else {
                        return Err("output format".into());
                    };
                    if !lit.is_empty() {
                        out.push(Piece::Text(std::mem::take(&mut lit)));
                    }
                    out.push(match (how.as_str(), how.strip_prefix('.').and_then(|p| p.parse::<usize>().ok())) {
                        ("", _) => Piece::Shown(x),
                        (_, Some(p)) => Piece::Fixed(x, p),
                        _ => return Err("output format".into()),
                    });
                }
                c => {
                    lit.push(c);
                    i += 1;
                }
            }
        }
        if newline {
            lit.push('\n');
        }
        if !lit.is_empty() {
            out.push(Piece::Text(lit));
        }
        Ok((lets, out))
    }

    /// match with the arms left out replaced by a call that must not be reached
    fn match_expr(&self, m: &ExprMatch) -> Option<String> {
        let keep = &self.cx.specs.splits.iter().find(|d| self.fnpath.rsplit_once("::").map(|p| p.1) == Some(&d.1) && d.0.rsplit_once("::").map(|p| p.0) == self.fnpath.rsplit_once("::").map(|p| p.0))?.2;
        let arm_path = |p: &Pat| match p {
            Pat::TupleStruct(t) => path_str(&t.path),
            Pat::Struct(t) => path_str(&t.path),
            Pat::Path(t) => path_str(&t.path),
            _ => String::new(),
        };
        if !m.arms.iter().any(|a| arm_path(&a.pat) == *keep) {
            return None;
        }
        let mut edits = vec![];
        let mut v = V { r: self, edits: vec![] };
        v.visit_expr(&m.expr);
        for a in &m.arms {
            if arm_path(&a.pat) == *keep {
                v.visit_arm(a);
            } else {
                edits.push((a.body.span().byte_range(), "{ crate::vx2::vx_left_out() }".to_string()));
            }
        }
        edits.extend(v.edits);
        Some(self.apply(m.span().byte_range(), edits))
    }

    /// thread::spawn of a closure, with the contract given for it
    fn spawn(&self, c: &ExprCall) -> Option<String> {
        let cl = match (c.args.len(), c.args.first().map(strip)) {
            (1, Some(Expr::Closure(cl))) if cl.inputs.is_empty() => cl,
            _ => {
                self.note("unsupported: thread body that is not a closure");
                return None;
            }
        };
        let k = {
            let mut s = self.st.borrow_mut();
            s.closures += 1;
            s.closures - 1
        };
        let none = crate::spec::ClosureSpec::default();
        let sp = self.spec.and_then(|s| s.closures.get(&k)).unwrap_or(&none);
        let mut ns = Names(BTreeSet::new());
        ns.visit_expr(&cl.body);
        let mut start = String::new();
        // captured variables that the body changes become variables of the body
        for m in self.muts.borrow().iter().filter(|m| ns.0.contains(*m)) {
            start.push_str(&format!("let mut {m} = {m}; "));
        }
        let saved = (self.world.borrow().clone(), self.thread.borrow().clone(), self.muts.borrow().clone(), self.vecs.borrow().clone());
        let own = saved.0.is_some();
        let tok = format!("vx_w{k}");
        if own {
            start.push_str(&format!("let tracked mut {tok} = crate::vx2::World::fresh(); "));
            *self.world.borrow_mut() = Some(format!("&mut {tok}"));
            *self.thread.borrow_mut() = Some(tok.clone());
        } else {
            *self.world.borrow_mut() = None;
            *self.thread.borrow_mut() = None;
        }
        let end = format!("{}\n", sp.end);
        let body = match &*cl.body {
            Expr::Block(b) => {
                let mut v = V { r: self, edits: vec![] };
                visit::visit_block(&mut v, &b.block);
                let mut ed = v.edits;
                match b.block.stmts.last() {
                    Some(Stmt::Expr(t, None)) => {
                        let r = t.span().byte_range();
                        let x = self.apply(r.clone(), ed.iter().filter(|e| e.0.start >= r.start && e.0.end <= r.end).cloned().collect());
                        ed.retain(|e| !(e.0.start >= r.start && e.0.end <= r.end));
                        let tail = if own { format!("({x}, Tracked({tok}))") } else { x };
                        ed.push((r, format!("{end}{tail}")));
                    }
                    _ => {
                        let e = b.block.span().byte_range().end - 1;
                        let tail = if own { format!("((), Tracked({tok}))") } else { String::new() };
                        ed.push((e..e, format!("{end}{tail}")));
                    }
                }
                let s = self.apply(b.block.span().byte_range(), ed);
                s[1..s.len() - 1].to_string()
            }
            e => {
                let x = self.expr(e);
                let tail = if own { format!("({x}, Tracked({tok}))") } else { x };
                format!("{end}{tail}")
            }
        };
        *self.world.borrow_mut() = saved.0;
        *self.thread.borrow_mut() = saved.1;
        *self.muts.borrow_mut() = saved.2;
        *self.vecs.borrow_mut() = saved.3;
        Some(format!("vstd::thread::spawn(move || {}\n{{ {start}\n{}\n{body} }})", sp.sig.trim(), sp.start))
    }

    fn call(&self, c: &ExprCall, e: &Expr) -> Option<String> {
        if self.lib() == "vx2" {
            if let Some(s) = self.call2(c) {
                return Some(s);
            }
        }
        self.call1(c, e)
    }

    /// calls that only the other crates make
    fn call2(&self, c: &ExprCall) -> Option<String> {
        let p = match &*c.func {
            Expr::Path(p) => path_str(&p.path),
            _ => return None,
        };
        let last2 = p.rsplit("::").take(2).collect::<Vec<_>>();
        let last2 = format!("{}::{}", last2.get(1).unwrap_or(&""), last2[0]);
        let w = self.world.borrow().clone();
        match last2.as_str() {
            "thread::spawn" => return self.spawn(c),
            "File::create" | "io::stdin" | "::stdin" => {
                if let Some(w) = w {
                    let mut a: Vec<String> = c.args.iter().map(|x| self.expr(x)).collect();
                    a.push(format!("Tracked({w})"));
                    return Some(format!("crate::vx2::{}({})", if last2 == "File::create" { "vx_create" } else { "vx_stdin" }, a.join(", ")));
                }
            }
            "::time_it_once" | "utils::time_it_once" => {
                if let (1, Expr::Closure(cl)) = (c.args.len(), strip(&c.args[0])) {
                    let mut hr = HasRet { ret: false, q: false };
                    hr.visit_expr(&cl.body);
                    if cl.inputs.is_empty() && !hr.ret && !hr.q {
                        return Some(format!("({{ {{ {} }} crate::vx2::vx_timed() }})", self.inner(&cl.body)));
                    }
                }
            }
            _ => {}
        }
        // functions under contract that take the token
        if let Expr::Path(ep) = &*c.func {
            let name = ep.path.segments.last().unwrap().ident.to_string();
            if let Some([i]) = self.cx.by_name.get(&name).map(|v| v.as_slice()) {
                if self.cx.specs.fns.get(&self.cx.fns[*i].path).map(|s| s.world).unwrap_or(false) {
                    if let Some(w) = self.world.borrow().clone() {
                        let mut a: Vec<String> = c.args.iter().map(|x| self.expr(x)).collect();
                        a.push(format!("Tracked({w})"));
                        return Some(format!("{}({})", self.file.src(ep), a.join(", ")));
                    }
                }
            }
        }
        None
    }

    fn call1(&self, c: &ExprCall, e: &Expr) -> Option<String> {
        if let Expr::Path(p) = &*c.func {
            let n = p.path.segments.len();
            if n >= 2 && c.args.len() == 1 && p.path.segments[n - 1].ident == "try_from" && self.cx.local_types.contains(&p.path.segments[n - 2].ident.to_string()) {
                let t: Vec<String> = p.path.segments.iter().take(n - 1).map(|s| s.ident.to_string()).collect();
                return Some(format!("<{} as crate::vx::TryFrom<_>>::try_from({})", t.join("::"), self.expr(&c.args[0])));
            }
        }
        if let Expr::Path(p) = &*c.func {
            let s = path_str(&p.path);
            let last = p.path.segments.last().unwrap();
            let a = |i: usize| self.expr(&c.args[i]);
            if last.ident == "size_of" {
                if let PathArguments::AngleBracketed(g) = &last.arguments {
                    let t = quote::ToTokens::to_token_stream(&g.args).to_string().replace(' ', "");
                    let prim = match t.as_str() {
                        "u8" | "i8" | "bool" => "1usize",
                        "u16" | "i16" => "2usize",
                        "u32" | "i32" | "f32" => "4usize",
                        "u64" | "i64" | "f64" | "usize" | "isize" => "8usize",
                        "u128" | "i128" => "16usize",
                        _ => "",
                    };
                    if !prim.is_empty() {
                        return Some(prim.into());
                    }
                    if let Some(x) = self.cx.specs.sizeof.get(&t) {
                        return Some(format!("({x})"));
                    }
                }
                return None;
            }
            match s.as_str() {
                "u64::from_le_bytes" => return Some(format!("crate::vx::vx_u64_from_le({})", a(0))),
                "u64::from_be_bytes" => return Some(format!("crate::vx::vx_u64_from_be({})", a(0))),
                "f64::from_le_bytes" => return Some(format!("crate::vx::vx_f64_from_le({})", a(0))),
                "f64::from_bits" => return Some(format!("crate::vx::vx_f({})", a(0))),
                "io::BufReader::new" | "std::io::BufReader::new" | "BufReader::new" => {
                    return Some(format!("crate::vx::io::BufReader::new({})", a(0)))
                }
                "io::BufWriter::new" | "std::io::BufWriter::new" | "BufWriter::new" => {
                    return Some(format!("crate::vx::io::BufWriter::new({})", a(0)))
                }
                "io::BufReader::with_capacity" | "BufReader::with_capacity" => {
                    return Some(format!("crate::vx::io::BufReader::new({})", a(1)))
                }
                "io::BufWriter::with_capacity" | "BufWriter::with_capacity" => {
                    return Some(format!("crate::vx::io::BufWriter::new({})", a(1)))
                }
                "max" | "cmp::max" | "std::cmp::max" | "core::cmp::max" => return Some(self.minmax(&c.args[0], &c.args[1], ">")),
                "min" | "cmp::min" | "std::cmp::min" | "core::cmp::min" => return Some(self.minmax(&c.args[0], &c.args[1], "<=")),
                "Vec::with_capacity" => return Some("Vec::new()".into()),
                "u8::from" | "u16::from" | "u32::from" | "u64::from" | "u128::from" | "usize::from" if c.args.len() == 1 => {
                    // lossless by its type
                    return Some(format!("(({}) as {})", a(0), s.trim_end_matches("::from")));
                }
                _ => {}
            }
            if s.starts_with("f64::") {
                let n = last.ident.to_string();
                let args: Vec<String> = c.args.iter().map(|x| self.expr(x)).collect();
                self.mark_float();
                if n == "powi" {
                    return None;
                }
                return Some(format!("crate::vx::vx_f{n}({})", args.join(", ")));
            }
        }
        self.try_inline(e, self.is_tail(e), false)
    }

    fn is_tail(&self, e: &Expr) -> bool {
        let r = e.span().byte_range();
        self.tails.borrow().contains(&(r.start, r.end))
    }

    fn minmax(&self, a: &Expr, b: &Expr, op: &str) -> String {
        let k = self.uid();
        format!(
            "({{ let vx_a{k} = {}; let vx_b{k} = {}; if vx_a{k} {op} vx_b{k} {{ vx_a{k} }} else {{ vx_b{k} }} }})",
            self.expr(a),
            self.expr(b)
        )
    }

    fn method(&self, m: &ExprMethodCall, e: &Expr) -> Option<String> {
        let n = m.method.to_string();
        let recv = || self.expr(&m.receiver);
        let a = |i: usize| self.expr(&m.args[i]);
        if self.is_float(&m.receiver) {
            match n.as_str() {
                "ceil" | "floor" | "round" | "abs" | "ln" | "exp" | "sqrt" => {
                    self.mark_float();
                    return Some(format!("crate::vx::vx_f{n}({})", recv()));
                }
                "powf" | "max" | "min" => {
                    self.mark_float();
                    return Some(format!("crate::vx::vx_f{n}({}, {})", recv(), a(0)));
                }
                "to_le_bytes" => return Some(format!("crate::vx::vx_f64_to_le({})", recv())),
                "to_bits" => return Some(format!("crate::vx::vx_f_bits({})", recv())),
                _ => {}
            }
        }
        match n.as_str() {
            "to_le_bytes" => return Some(format!("crate::vx::vx_u64_to_le({})", self.deref_int(&m.receiver))),
            "to_be_bytes" => return Some(format!("crate::vx::vx_u64_to_be({})", self.deref_int(&m.receiver))),
            "try_into" => return Some(format!("crate::vx::TryInto::try_into({})", recv())),
            "into" => {
                if let Expr::Lit(l) = strip(&m.receiver) {
                    if matches!(l.lit, Lit::Str(_)) {
                        return Some(format!("crate::vx::vx_string({})", recv()));
                    }
                }
            }
            "to_string" | "to_owned" => {
                if let Expr::Lit(l) = strip(&m.receiver) {
                    if matches!(l.lit, Lit::Str(_)) {
                        return Some(format!("crate::vx::vx_string({})", recv()));
                    }
                }
                if n == "to_string" && self.lib() == "vx2" {
                    return Some(format!("crate::vx2::vx_to_string(&{})", recv()));
                }
            }
            "to_vec" if m.args.is_empty() && self.lib() == "vx2" => {
                return Some(format!("crate::vxe::vx_to_vec(crate::vx::VxSlice::vx_slice(&{}))", recv()))
            }
            "map_err" if m.args.len() == 1 => return self.map_err(m),
            "map" | "and_then" | "unwrap_or_else" | "or_else" | "ok_or" | "ok_or_else" | "is_some_and" | "is_ok_and" | "is_none_or" if m.args.len() == 1 => {
                if let Some(s) = self.combinator(m, &n) {
                    return Some(s);
                }
            }
            "unwrap" | "expect" if self.lib() == "vx2" => {
                return Some(match &*self.world.borrow() {
                    Some(w) if self.thread.borrow().is_none() => format!("crate::vx2::vx_unwrap({}, Tracked({w}))", recv()),
                    _ => format!("crate::vx2::VxTry::vx_get({})", recv()),
                })
            }
            "unwrap_or" if self.lib() == "vx2" => {
                if let Expr::MethodCall(r) = strip(&m.receiver) {
                    if r.method == "map" && r.args.len() == 1 {
                        return self.map_or(&r.receiver, &r.args[0], &m.args[0]);
                    }
                }
            }
            "map_or" if m.args.len() == 2 && self.lib() == "vx2" => return self.map_or(&m.receiver, &m.args[1], &m.args[0]),
            "unwrap_or" if m.args.len() == 1 && self.carrier(&m.receiver).is_some() => {
                if let Some(s) = self.combinator(m, &n) {
                    return Some(s);
                }
            }
            "map_or" | "map_or_else" if m.args.len() == 2 => {
                if let Some(s) = self.combinator(m, &n) {
                    return Some(s);
                }
            }
            "chunks" | "chunks_exact" if self.lib() == "vx2" => {
                return Some(format!("crate::vx2::vx_{}(crate::vx::VxSlice::vx_slice(&{}), {})", m.method, recv(), a(0)))
            }
            "join" if m.args.is_empty() && self.lib() == "vx2" => {
                if let (Some(w), None) = (&*self.world.borrow(), &*self.thread.borrow()) {
                    return Some(format!("crate::vx2::vx_join({}, Tracked({w}))", recv()));
                }
            }
            "chunks_exact" => return Some(format!("crate::vx::vx_chunks_exact({}, {})", recv(), a(0))),
            "max" if m.args.len() == 1 => return Some(self.minmax(&m.receiver, &m.args[0], ">")),
            "min" if m.args.len() == 1 => return Some(self.minmax(&m.receiver, &m.args[0], "<=")),
            "contains" => {
                if let Expr::Range(r) = strip(&m.receiver) {
                    if let (Some(lo), Some(hi), RangeLimits::Closed(_)) = (&r.start, &r.end, &r.limits) {
                        if self.is_float(lo) || self.is_float(hi) {
                            self.mark_float();
                            let x = match strip(&m.args[0]) {
                                Expr::Reference(r) => self.expr(&r.expr),
                                x => format!("*({})", self.expr(x)),
                            };
                            return Some(format!(
                                "crate::vx::vx_f_in_range({}, {}, {x})",
                                self.expr(lo),
                                self.expr(hi)
                            ));
                        }
                    }
                }
            }
            "copy_from_slice" => {
                if let Expr::Index(i) = strip(&m.receiver) {
                    if let Expr::Range(r) = strip(&i.index) {
                        let x = self.expr(&i.expr);
                        let lo = r.start.as_ref().map(|e| self.expr(e)).unwrap_or("0".into());
                        let hi = match (&r.end, &r.limits) {
                            (Some(e), RangeLimits::HalfOpen(_)) => self.expr(e),
                            (Some(e), _) => format!("({}) + 1", self.expr(e)),
                            (None, _) => format!("{x}.len()"),
                        };
                        let k = self.uid();
                        return Some(format!(
                            "({{ let (vx_lo{k}, vx_hi{k}): (usize, usize) = ({lo}, {hi}); crate::vx::vx_copy_range({x}.as_mut_slice(), vx_lo{k}, vx_hi{k}, {}) }})",
                            a(0)
                        ));
                    }
                }
            }
            "fill" if m.args.len() == 1 && is_place(&m.receiver) => {
                return Some(format!("crate::vx::vx_fill({}.as_mut_slice(), {})", recv(), a(0)))
            }
            "for_each" | "sum" | "fold" | "collect" | "all" | "any" | "count" => {
                if let Some(s) = self.terminal(m, &n) {
                    return Some(s);
                }
            }
            "as_bytes" | "clone" => {}
            _ => {}
        }
        self.try_inline(e, self.is_tail(e), false)
    }

    /// `x?`; for the other crates written out with its conversion, which the verifier leaves open
    fn question(&self, x: &str) -> String {
        if self.lib() == "vx2" {
            let k = self.uid();
            let ret = match &*self.thread.borrow() {
                Some(w) => format!("return (Err(From::from(vx_e{k})), Tracked({w}))"),
                None => format!("return Err(From::from(vx_e{k}))"),
            };
            return format!("(match {x} {{ Ok(vx_v{k}) => vx_v{k}, Err(vx_e{k}) => {ret} }})");
        }
        format!("{x}?")
    }

    /// X.map(f).unwrap_or(d) as the match it stands for
    fn map_or(&self, x: &Expr, f: &Expr, d: &Expr) -> Option<String> {
        let k = self.uid();
        match strip(f) {
            Expr::Closure(c) if c.inputs.len() == 1 => {
                let mut hr = HasRet { ret: false, q: false };
                hr.visit_expr(&c.body);
                if hr.ret || hr.q {
                    return None;
                }
                let r = self.expr(x);
                let b = format!("{{ {} {} }}", self.bind(&c.inputs[0], &Elem::Val(format!("vx_v{k}"))), self.inner(&c.body));
                Some(format!("(match crate::vx2::VxTry::vx_opt({r}) {{ Some(vx_v{k}) => {b}, None => {} }})", self.expr(d)))
            }
            _ => None,
        }
    }

    /// map_err as the match it stands for
    fn map_err(&self, m: &ExprMethodCall) -> Option<String> {
        let k = self.uid();
        let r = self.expr(&m.receiver);
        let conv = match strip(&m.args[0]) {
            Expr::Path(p) => format!("{}(vx_e{k})", self.file.src(p)),
            Expr::Closure(c) if c.inputs.len() == 1 => {
                let mut hr = HasRet { ret: false, q: false };
                hr.visit_expr(&c.body);
                if hr.ret || hr.q {
                    return None;
                }
                format!("{{ {} {} }}", self.bind(&c.inputs[0], &Elem::Val(format!("vx_e{k}"))), self.inner(&c.body))
            }
            _ => return None,
        };
        Some(format!("(match {r} {{ Ok(vx_v{k}) => Ok(vx_v{k}), Err(vx_e{k}) => Err({conv}) }})"))
    }

    /// whether an expression is known to be a Result (true) or an Option (false)
    fn carrier(&self, e: &Expr) -> Option<bool> {
        let name = match strip(e) {
            Expr::Call(c) => match &*c.func {
                Expr::Path(p) => p.path.segments.last().unwrap().ident.to_string(),
                _ => return None,
            },
            Expr::MethodCall(m) => {
                let n = m.method.to_string();
                match n.as_str() {
                    "map" | "and_then" | "or_else" => return self.carrier(&m.receiver),
                    "map_err" | "ok_or" | "ok_or_else" | "read_exact" | "write_all" | "read_to_end" | "flush" | "seek" | "stream_position"
                    | "try_into" => return Some(true),
                    "ok" | "err" | "checked_add" | "checked_sub" | "checked_mul" | "checked_div" | "checked_rem" | "next" | "first" | "last"
                    | "get" => return Some(false),
                    _ => n,
                }
            }
            _ => return None,
        };
        match name.as_str() {
            "Ok" | "Err" => return Some(true),
            "Some" => return Some(false),
            _ => {}
        }
        let mut kinds = BTreeSet::new();
        for i in self.cx.by_name.get(&name)? {
            let t = match &self.cx.fns[*i].sig.output {
                ReturnType::Type(_, t) => quote::ToTokens::to_token_stream(t).to_string().replace(' ', ""),
                _ => return None,
            };
            let head = t.split('<').next().unwrap().rsplit("::").next().unwrap().to_string();
            kinds.insert(match head.as_str() {
                "Result" | "PyResult" => true,
                "Option" => false,
                _ => return None,
            });
        }
        if kinds.len() == 1 {
            kinds.into_iter().next()
        } else {
            None
        }
    }

    /// methods of Result and Option taking a closure, as the match they stand for
    fn combinator(&self, m: &ExprMethodCall, n: &str) -> Option<String> {
        let res = self.carrier(&m.receiver)?;
        let (good, bad, rebad) = if res { ("Ok", "Err(vx_e", ")") } else { ("Some", "None", "") };
        let arity = match n {
            "ok_or" | "unwrap_or" => None,
            "unwrap_or_else" | "or_else" | "ok_or_else" => Some(if res { 1 } else { 0 }),
            _ => Some(1),
        };
        if res && ["ok_or", "ok_or_else", "is_some_and"].contains(&n) {
            return None;
        }
        if n == "is_ok_and" && !res || n == "is_none_or" && res {
            return None;
        }
        let k = self.uid();
        let r = self.expr(&m.receiver);
        let call = |i: usize, arity: Option<usize>, v: String| -> Option<String> {
            match strip(&m.args[i]) {
                Expr::Path(p) if path_str(&p.path) == "f64::from_bits" => Some(format!("crate::vx::vx_f({v})")),
                Expr::Path(p) if arity == Some(1) => Some(format!("{}({v})", self.file.src(p))),
                Expr::Closure(c) if Some(c.inputs.len()) == arity => {
                    let mut hr = HasRet { ret: false, q: false };
                    hr.visit_expr(&c.body);
                    if hr.ret || hr.q {
                        return None;
                    }
                    let b = if c.inputs.is_empty() { String::new() } else { self.bind(&c.inputs[0], &Elem::Val(v)) };
                    Some(format!("{{ {b} {} }}", self.inner(&c.body)))
                }
                _ => None,
            }
        };
        let f = |v: String| call(0, arity, v);
        let (bad_pat, bad_val) = if res { (format!("{bad}{k}{rebad}"), format!("{bad}{k}{rebad}")) } else { (bad.to_string(), bad.to_string()) };
        let v = format!("vx_v{k}");
        let e = format!("vx_e{k}");
        Some(match n {
            "map" => format!("(match {r} {{ {good}({v}) => {good}({}), {bad_pat} => {bad_val} }})", f(v.clone())?),
            "and_then" => format!("(match {r} {{ {good}({v}) => {}, {bad_pat} => {bad_val} }})", f(v.clone())?),
            "or_else" => format!("(match {r} {{ {good}({v}) => {good}({v}), {bad_pat} => {} }})", f(e)?),
            "unwrap_or_else" => format!("(match {r} {{ {good}({v}) => {v}, {bad_pat} => {} }})", f(e)?),
            "ok_or" => format!("({{ let vx_r{k} = {r}; let {e} = {}; match vx_r{k} {{ Some({v}) => Ok({v}), None => Err({e}) }} }})", self.expr(&m.args[0])),
            "ok_or_else" => format!("(match {r} {{ Some({v}) => Ok({v}), None => Err({}) }})", f(e)?),
            "unwrap_or" => format!("({{ let vx_r{k} = {r}; let vx_d{k} = {}; match vx_r{k} {{ {good}({v}) => {v}, {bad_pat} => vx_d{k} }} }})", self.expr(&m.args[0])),
            "map_or" => format!("({{ let vx_r{k} = {r}; let vx_d{k} = {}; match vx_r{k} {{ {good}({v}) => {}, {bad_pat} => vx_d{k} }} }})", self.expr(&m.args[0]), call(1, arity, v.clone())?),
            "map_or_else" => format!("(match {r} {{ {good}({v}) => {}, {bad_pat} => {} }})", call(1, arity, v.clone())?, call(0, Some(if res { 1 } else { 0 }), e)?),
            "is_none_or" => format!("(match {r} {{ Some({v}) => {}, None => true }})", f(v.clone())?),
            _ => format!("(match {r} {{ {good}({v}) => {}, _ => false }})", f(v.clone())?),
        })
    }

    fn deref_int(&self, e: &Expr) -> String {
        // receivers may be references to integers (loop variables): auto-deref made explicit
        if let Some(i) = ident_of(e) {
            return format!("crate::vx::VxInt::vx_val(&{i})");
        }
        format!("({})", self.expr(e))
    }

    // ------------------------------------------------------------------ inlining

    fn try_inline(&self, e: &Expr, tail: bool, under_try: bool) -> Option<String> {
        let (name, recv, args): (String, Option<&Expr>, Vec<&Expr>) = match e {
            Expr::Call(c) => {
                if let Expr::Path(p) = &*c.func {
                    (p.path.segments.last().unwrap().ident.to_string(), None, c.args.iter().collect())
                } else {
                    return None;
                }
            }
            Expr::MethodCall(m) => (m.method.to_string(), Some(&m.receiver), m.args.iter().collect()),
            _ => return None,
        };
        let cands = self.cx.by_name.get(&name)?;
        let cands: Vec<&FnInfo> = cands.iter().map(|i| &self.cx.fns[*i]).collect();
        // the type or module, whether in a trait implementation or not
        let owner = |p: &str| {
            let o = p.rsplit_once("::").map(|x| x.0.to_string()).unwrap_or_default();
            match (o.find('<'), o.find(" as ")) {
                (Some(a), Some(b)) if o.ends_with('>') && a < b => format!("{}{}", &o[..a], &o[a + 1..b]),
                _ => o,
            }
        };
        let my_owner = owner(&self.fnpath);
        let recv_self = recv.map(|r| ident_of(r).as_deref() == Some("self")).unwrap_or(false);
        let is_self_path = matches!(e, Expr::Call(c) if matches!(&*c.func, Expr::Path(p) if p.path.segments.len() == 2 && p.path.segments[0].ident == "Self"));
        let f: &FnInfo = {
            let same: Vec<_> = cands.iter().filter(|f| owner(&f.path) == my_owner).collect();
            if (recv_self || is_self_path) && same.len() == 1 {
                same[0]
            } else if recv_self || is_self_path {
                return None;
            } else if let Some(f) = cands.iter().find(|f| {
                // a function of the same module
                matches!(e, Expr::Call(c) if matches!(&*c.func, Expr::Path(p) if p.path.segments.len() == 1))
                    && f.sig.receiver().is_none()
                    && (f.path == format!("{my_owner}::{name}")
                        || my_owner.rsplit_once("::").map(|m| format!("{}::{name}", m.0)).as_deref() == Some(&f.path))
            }) {
                f
            } else if cands.len() == 1 && !STD_METHODS.contains(&name.as_str()) {
                cands[0]
            } else {
                return None;
            }
        };
        if self.cx.specs.fns.contains_key(&f.path) {
            return None;
        }
        let has_self = f.sig.receiver().is_some();
        if has_self != recv.is_some() && !(has_self && recv.is_none()) {
            return None;
        }
        if has_self && recv.is_none() {
            return None;
        }
        let fail = || {
            self.st.borrow_mut().rep.calls_uncontracted.insert(f.path.clone());
            None
        };
        if self.cx.specs.drop.contains(&f.path) || self.cx.external.contains(&f.path) {
            return fail();
        }
        if self.st.borrow().stack.contains(&f.path) {
            return fail();
        }
        let block = match &f.block {
            Some(b) => b,
            None => return fail(),
        };
        let mut hr = HasRet { ret: false, q: false };
        hr.visit_block(block);
        // under `?` leaving the helper with an error is leaving the caller with it
        let only_err = under_try && self.lib() != "vx2" && {
            let mut er = ErrRet { other: false };
            er.visit_block(block);
            !er.other
        };
        if hr.ret && !tail && !only_err {
            return fail();
        }
        if hr.q && !(tail || under_try) {
            return fail();
        }
        if hr.q && self.lib() == "vx2" {
            // one conversion instead of two must be the same
            let t = quote::ToTokens::to_token_stream(&f.sig.output).to_string().replace(' ', "");
            if !(t.ends_with("anyhow::Error>") || t.contains("PyResult<")) {
                return fail();
            }
        }
        if under_try && !hr.q && !hr.ret {
            // plain inlining handles it when the inner expression is rendered
            return None;
        }
        // parameters
        let mut pats = vec![];
        let mut vals = vec![];
        let mut self_sub = None;
        let generics: Vec<String> = f
            .sig
            .generics
            .params
            .iter()
            .filter_map(|p| match p {
                GenericParam::Type(t) => Some(t.ident.to_string()),
                GenericParam::Const(t) => Some(t.ident.to_string()),
                _ => None,
            })
            .collect();
        let cfile = &self.cx.files[f.file];
        let foreign = owner(&f.path) != my_owner;
        let generic_body = cfile.src(block).split(|c: char| !(c.is_alphanumeric() || c == '_')).any(|x| {
            generics.iter().any(|g| g == x)
                || (foreign && (x == "Self" || (x.len() == 1 && x.chars().all(|c| c.is_ascii_uppercase()))))
        });
        if generic_body {
            return fail();
        }
        let sub = Rw {
            cx: self.cx,
            file: cfile,
            fnpath: f.path.clone(),
            spec: self.spec,
            floats: RefCell::new(BTreeSet::new()),
            vecs: RefCell::new(BTreeSet::new()),
            st: self.st,
            self_sub: None,
            item_sub: None,
            tails: RefCell::new(BTreeSet::new()),
            muts: RefCell::new(BTreeSet::new()),
            bools: RefCell::new(BTreeSet::new()),
            refs: RefCell::new(BTreeSet::new()),
            breaks: RefCell::new(BTreeMap::new()),
            flags: RefCell::new(BTreeMap::new()),
            world: RefCell::new(self.world.borrow().clone()),
            thread: RefCell::new(self.thread.borrow().clone()),
        };
        let mut lets = String::new();
        if let Some(rc) = f.sig.receiver() {
            let r = recv.unwrap();
            if recv_self && self.self_sub.is_none() && rc.reference.is_some() {
                // same `self`
            } else {
                let k = self.uid();
                let v = format!("vx_self{k}");
                let pre = match (&rc.reference, &rc.mutability) {
                    (Some(_), Some(_)) => "&mut *",
                    (Some(_), None) => "&",
                    _ => "",
                };
                let rtxt = self.expr(r);
                let pre = if pre == "&mut *" && !(recv_self) { "&mut " } else { pre };
                lets.push_str(&format!("let {v} = {pre}{rtxt}; "));
                self_sub = Some(v);
            }
        }
        let params: Vec<&PatType> = f
            .sig
            .inputs
            .iter()
            .filter_map(|a| if let FnArg::Typed(t) = a { Some(t) } else { None })
            .collect();
        if params.len() != args.len() {
            return fail();
        }
        let mut tys = vec![];
        for (p, a) in params.iter().zip(args.iter()) {
            pats.push(cfile.src(&p.pat).to_string());
            vals.push(self.expr(a));
            let t = cfile.src(&p.ty).to_string();
            let toks: Vec<String> =
                t.split(|c: char| !(c.is_alphanumeric() || c == '_')).map(|x| x.to_string()).collect();
            if t.contains("impl ") || t.contains('\'') || toks.iter().any(|x| generics.contains(x) || x == "Self") {
                let m = matches!(&*p.ty, Type::Reference(r) if r.mutability.is_some());
                tys.push(if m { "&mut _" } else { "_" }.to_string());
            } else {
                tys.push(t);
            }
            if let Pat::Ident(i) = &*p.pat {
                if crate::is_f64(&p.ty) {
                    sub.floats.borrow_mut().insert(i.ident.to_string());
                }
                if cfile.src(&p.ty).starts_with("Vec<") {
                    sub.vecs.borrow_mut().insert(i.ident.to_string());
                }
            }
        }
        if pats.len() == 1 {
            lets.push_str(&format!("let {}: {} = {}; ", pats[0], tys[0], vals[0]));
        } else if pats.len() > 1 {
            lets.push_str(&format!("let ({}): ({}) = ({}); ", pats.join(", "), tys.join(", "), vals.join(", ")));
        }
        let sub = Rw { self_sub, ..sub };
        if tail {
            sub.mark_tail_block(block);
        }
        {
            let mut s = self.st.borrow_mut();
            s.stack.push(f.path.clone());
            s.rep.inlined.insert(f.path.clone());
        }
        let mut b = sub.block(block);
        self.st.borrow_mut().stack.pop();
        if let (ReturnType::Type(_, t), true) = (&f.sig.output, under_try && (!foreign || my_owner.starts_with(&format!("{}::", owner(&f.path))))) {
            let n: BTreeSet<String> =
                cfile.src(t).split(|c: char| !(c.is_alphanumeric() || c == '_')).map(|x| x.to_string()).collect();
            if !cfile.src(t).contains("impl ") && !cfile.src(t).contains('\'') && !generics.iter().any(|g| n.contains(g)) && !(foreign && n.contains("Self")) {
                let k = self.uid();
                b = format!("{{ let vx_r{k}: {} = {b}; vx_r{k} }}", sub.ty(t));
            }
        }
        if lets.is_empty() {
            Some(format!("({b})"))
        } else {
            Some(format!("({{ {lets}{b} }})"))
        }
    }

    // ------------------------------------------------------------------ loops

    fn next_loop(&self) -> usize {
        let mut s = self.st.borrow_mut();
        s.loop_no += 1;
        s.rep.loops = s.loop_no;
        s.loop_no - 1
    }

    fn loop_text(&self, k: usize, subst: &[(&str, &str)], auto_inv: &str, auto_dec: &str) -> (String, [String; 4]) {
        let sp = self.spec.and_then(|s| s.loops.get(&k));
        let sub = |t: &str| {
            let mut t = t.to_string();
            for (a, b) in subst {
                t = t.replace(a, b);
            }
            t
        };
        let mut inv = String::new();
        if !auto_inv.is_empty() {
            inv.push_str(&format!(" invariant {auto_inv},\n"));
        }
        let mut hints: [String; 4] = Default::default();
        let mut has_dec = false;
        if let Some(l) = sp {
            let t = sub(&l.inv);
            has_dec = t.contains("decreases");
            let t = if !auto_inv.is_empty() {
                t.replacen("invariant ", " ", 1)
            } else {
                t
            };
            inv.push_str(&t);
            hints = [sub(&l.before), sub(&l.start), sub(&l.end), sub(&l.after)];
            for h in hints.iter().chain([&inv]) {
                for p in ["$i", "$j", "$n", "$acc", "$it", "$lo"] {
                    if h.contains(p) {
                        self.note(&format!("unresolved placeholder {p} in loop {k}"));
                    }
                }
            }
        }
        if !has_dec {
            if auto_dec.is_empty() {
                self.st.borrow_mut().no_decreases = true;
            } else {
                inv.push_str(&format!(" decreases {auto_dec}\n"));
            }
        }
        (inv, hints)
    }

    fn chain(&self, e: &Expr, in_for: bool) -> Option<IxLoop> {
        let e = strip(e);
        match e {
            Expr::Range(r) => {
                if let (Some(a), Some(b), RangeLimits::HalfOpen(_)) = (&r.start, &r.end, &r.limits) {
                    let k = self.uid();
                    return Some(IxLoop {
                        pre: String::new(),
                        lo: self.expr(a),
                        hi: self.expr(b),
                        cvar: format!("vx_c{k}"),
                        ivar: format!("vx_i{k}"),
                        nvar: format!("vx_n{k}"),
                        elem: Elem::Val(format!("vx_i{k}")),
                        lets: String::new(),
                    });
                }
                None
            }
            Expr::Reference(r) if in_for => self.base_iter(&r.expr, r.mutability.is_some()),
            Expr::MethodCall(m) => {
                let n = m.method.to_string();
                match n.as_str() {
                    "iter" => self.base_iter(&m.receiver, false),
                    "iter_mut" => self.base_iter(&m.receiver, true),
                    "into_iter" => {
                        let mut c = self.chain(&m.receiver, false)?;
                        c.lets.push_str("");
                        Some(c)
                    }
                    "enumerate" => {
                        let c = self.chain(&m.receiver, false)?;
                        if c.lo != "0" {
                            return None;
                        }
                        let iv = c.ivar.clone();
                        Some(IxLoop { elem: Elem::Tuple(vec![Elem::Val(iv), c.elem]), ..c })
                    }
                    "take" => {
                        let c = self.chain(&m.receiver, false)?;
                        if c.lo != "0" {
                            return None;
                        }
                        let k = self.uid();
                        let h = format!(
                            "({{ let vx_a{k} = {}; let vx_b{k} = {}; if vx_a{k} <= vx_b{k} {{ vx_a{k} }} else {{ vx_b{k} }} }})",
                            c.hi,
                            self.expr(&m.args[0])
                        );
                        Some(IxLoop { hi: h, ..c })
                    }
                    "copied" | "cloned" => {
                        let c = self.chain(&m.receiver, false)?;
                        let el = match c.elem {
                            Elem::Ref(p) => Elem::Val(p),
                            _ => return None,
                        };
                        Some(IxLoop { elem: el, ..c })
                    }
                    "map" => {
                        let c = self.chain(&m.receiver, false)?;
                        let cl = match strip(&m.args[0]) {
                            Expr::Closure(cl) if cl.inputs.len() == 1 => cl,
                            Expr::Path(p) => {
                                let k = self.uid();
                                let lets = format!("{}let vx_m{k} = {}({});\n", c.lets, self.file.src(p), c.elem.expr());
                                return Some(IxLoop { elem: Elem::Val(format!("vx_m{k}")), lets, ..c });
                            }
                            _ => return None,
                        };
                        let mut hr = HasRet { ret: false, q: false };
                        hr.visit_expr(&cl.body);
                        if hr.ret || hr.q {
                            return None;
                        }
                        let k = self.uid();
                        let b = self.bind(&cl.inputs[0], &c.elem);
                        let lets = format!("{}let vx_m{k} = {{ {b} {} }};\n", c.lets, self.inner(&cl.body));
                        Some(IxLoop { elem: Elem::Val(format!("vx_m{k}")), lets, ..c })
                    }
                    "zip" => {
                        let c = self.chain(&m.receiver, false)?;
                        let d = self.chain(&m.args[0], true)?;
                        if c.lo != "0" || d.lo != "0" || !d.lets.is_empty() {
                            return None;
                        }
                        let k = self.uid();
                        let h = format!(
                            "({{ let vx_a{k} = {}; let vx_b{k} = {}; if vx_a{k} <= vx_b{k} {{ vx_a{k} }} else {{ vx_b{k} }} }})",
                            c.hi, d.hi
                        );
                        let de = match d.elem {
                            Elem::Ref(p) => Elem::Ref(p.replace(&d.ivar, &c.ivar)),
                            Elem::RefMut(p) => Elem::RefMut(p.replace(&d.ivar, &c.ivar)),
                            Elem::Val(p) => Elem::Val(p.replace(&d.ivar, &c.ivar)),
                            _ => return None,
                        };
                        Some(IxLoop {
                            hi: h,
                            pre: format!("{}{}", c.pre, d.pre),
                            elem: Elem::Tuple(vec![c.elem, de]),
                            ..c
                        })
                    }
                    _ => None,
                }
            }
            _ => None,
        }
    }

    fn base_iter(&self, x: &Expr, mutable: bool) -> Option<IxLoop> {
        let x = strip(x);
        let k = self.uid();
        let (pre, p) = if is_place(x) {
            (String::new(), self.expr(x))
        } else if !mutable {
            let inner = match x {
                Expr::Index(i) if matches!(strip(&i.index), Expr::Range(_)) => {
                    if let Expr::Range(r) = strip(&i.index) {
                        self.subrange(&i.expr, r)
                    } else {
                        return None;
                    }
                }
                _ => self.expr(x),
            };
            (format!("let vx_s{k} = {inner};\n"), format!("vx_s{k}"))
        } else {
            return None;
        };
        let place = format!("{p}[vx_i{k}]");
        Some(IxLoop {
            pre,
            lo: "0".into(),
            hi: format!("{p}.len()"),
            cvar: format!("vx_c{k}"),
            ivar: format!("vx_i{k}"),
            nvar: format!("vx_n{k}"),
            elem: if mutable { Elem::RefMut(place) } else { Elem::Ref(place) },
            lets: String::new(),
        })
    }

    fn bind(&self, p: &Pat, e: &Elem) -> String {
        match (p, e) {
            (Pat::Paren(p), e) => self.bind(&p.pat, e),
            (Pat::Type(t), e) => self.bind(&t.pat, e),
            (Pat::Reference(r), Elem::Ref(p)) => self.bind(&r.pat, &Elem::Val(p.clone())),
            (Pat::Tuple(t), Elem::Tuple(es)) if t.elems.len() == es.len() => {
                t.elems.iter().zip(es).map(|(p, e)| self.bind(p, e)).collect::<Vec<_>>().join(" ")
            }
            (Pat::Wild(_), Elem::Val(_)) => String::new(),
            (Pat::Ident(i), e) if i.subpat.is_none() => {
                let id = i.ident.to_string();
                if matches!(e, Elem::Ref(_)) {
                    self.refs.borrow_mut().insert(id);
                } else {
                    self.refs.borrow_mut().remove(&id);
                }
                format!("let {} = {};", self.pat(p), e.expr())
            }
            (p, e) => format!("let {} = {};", self.pat(p), e.expr()),
        }
    }

    fn emit_ix(&self, c: IxLoop, body: &dyn Fn(&Elem) -> String, acc: Option<&str>, outer_acc: Option<String>, more: &str) -> String {
        let k = self.next_loop();
        let accn = acc.map(|s| s.to_string()).or(outer_acc).unwrap_or("$acc".into());
        let inv0 = if c.lo == "0" {
            format!("0 <= {} <= {}", c.cvar, c.nvar)
        } else {
            format!("({lo}) <= {c} && ({c} <= {n} || {c} == ({lo}))", lo = c.lo, c = c.cvar, n = c.nvar)
        };
        let inv0 = if more.is_empty() { inv0 } else { format!("{inv0}, {more}") };
        let lov = if c.lo == "0" { "0".to_string() } else { format!("({})", c.lo) };
        let dec = format!("{} - {}", c.nvar, c.cvar);
        let (inv, h) = self.loop_text(
            k,
            &[("$i", &c.cvar), ("$j", &c.ivar), ("$n", &c.nvar), ("$acc", &accn), ("$lo", &lov)],
            &inv0,
            &dec,
        );
        let b = body(&c.elem);
        format!(
            "{pre}let {n} = {hi};\n{before}let mut {cv} = {lo};\n while {cv} < {n}\n{inv}{{\n let {iv} = {cv}; {cv} = {cv} + 1;\n{start}{lets}{b}\n{end}}}\n{after}",
            pre = c.pre,
            n = c.nvar,
            hi = c.hi,
            before = h[0],
            cv = c.cvar,
            lo = c.lo,
            iv = c.ivar,
            start = h[1],
            lets = c.lets,
            end = h[2],
            after = h[3],
        )
    }

    fn terminal(&self, m: &ExprMethodCall, n: &str) -> Option<String> {
        let save_uid = self.st.borrow().uid;
        let save_loop = self.st.borrow().loop_no;
        let undo = || {
            let mut s = self.st.borrow_mut();
            s.uid = save_uid;
            s.loop_no = save_loop;
            s.rep.loops = save_loop;
        };
        let c = match self.chain(&m.receiver, false) {
            Some(c) => c,
            None => {
                undo();
                return self.terminal_custom(m, n);
            }
        };
        let closure = |i: usize, arity: usize| -> Option<&ExprClosure> {
            match strip(m.args.iter().nth(i)?) {
                Expr::Closure(cl) if cl.inputs.len() == arity => {
                    let mut hr = HasRet { ret: false, q: false };
                    hr.visit_expr(&cl.body);
                    if hr.ret || hr.q {
                        None
                    } else {
                        Some(cl)
                    }
                }
                _ => None,
            }
        };
        let k = self.uid();
        let acc = format!("vx_acc{k}");
        let r = match n {
            "for_each" => {
                let cl = match closure(0, 1) {
                    Some(c) => c,
                    None => {
                        undo();
                        return None;
                    }
                };
                let oacc = find_acc(&cl.body, None);
                let b = |el: &Elem| format!("{} {};", self.bind(&cl.inputs[0], el), self.inner(&cl.body));
                format!("({{ {} }})", self.emit_ix(c, &b, None, oacc, ""))
            }
            "sum" => {
                let ty = turbofish(m, self).map(|t| format!(": {t}")).unwrap_or_default();
                let b = |el: &Elem| {
                    let x = match el {
                        Elem::Ref(p) => p.clone(),
                        e => e.expr(),
                    };
                    format!("{acc} = {acc} + {x};")
                };
                format!("({{ let mut {acc}{ty} = 0; {} {acc} }})", self.emit_ix(c, &b, Some(&acc), None, ""))
            }
            "count" => {
                let b = |_: &Elem| format!("{acc} = {acc} + 1;");
                format!("({{ let mut {acc}: usize = 0; {} {acc} }})", self.emit_ix(c, &b, Some(&acc), None, ""))
            }
            "fold" => {
                let cl = match closure(1, 2) {
                    Some(c) => c,
                    None => {
                        undo();
                        return None;
                    }
                };
                let init = self.expr(&m.args[0]);
                let b = |el: &Elem| {
                    format!(
                        "{acc} = {{ {} {} {} }};",
                        self.bind(&cl.inputs[1], el),
                        self.bind(&cl.inputs[0], &Elem::Val(acc.clone())),
                        self.inner(&cl.body)
                    )
                };
                format!("({{ let mut {acc} = {init}; {} {acc} }})", self.emit_ix(c, &b, Some(&acc), None, ""))
            }
            "collect" => {
                let b = |el: &Elem| format!("{acc}.push({});", el.expr());
                let ty = turbofish(m, self).map(|t| format!(": {t}")).unwrap_or_default();
                format!("({{ let mut {acc}{ty} = Vec::new(); {} {acc} }})", self.emit_ix(c, &b, Some(&acc), None, ""))
            }
            "all" | "any" => {
                let cl = match closure(0, 1) {
                    Some(c) => c,
                    None => {
                        undo();
                        return None;
                    }
                };
                let (init, set, neg) = if n == "all" { ("true", "false", "!") } else { ("false", "true", "") };
                let b = |el: &Elem| {
                    format!(
                        "{} if {neg}({{ {} }}) {{ {acc} = {set}; break; }}",
                        self.bind(&cl.inputs[0], el),
                        self.inner(&cl.body)
                    )
                };
                format!("({{ let mut {acc} = {init}; {} {acc} }})", self.emit_ix(c, &b, Some(&acc), None, ""))
            }
            _ => return None,
        };
        Some(r)
    }

    /// collect over an owned vector
    fn terminal_custom(&self, m: &ExprMethodCall, n: &str) -> Option<String> {
        if n != "collect" || self.lib() != "vx2" {
            return None;
        }
        let (base, map) = match strip(&m.receiver) {
            Expr::MethodCall(r) if r.method == "map" && r.args.len() == 1 => match strip(&r.args[0]) {
                Expr::Closure(cl) if cl.inputs.len() == 1 => (&*r.receiver, Some(cl)),
                _ => return None,
            },
            _ => (&*m.receiver, None),
        };
        let v = match strip(base) {
            Expr::MethodCall(r) if r.method == "into_iter" => ident_of(&r.receiver)?,
            _ => return None,
        };
        if !self.vecs.borrow().contains(&v) {
            return None;
        }
        if let Some(cl) = map {
            let mut hr = HasRet { ret: false, q: false };
            hr.visit_expr(&cl.body);
            if hr.ret || hr.q {
                return None;
            }
        }
        let u = self.uid();
        let k = self.next_loop();
        let (it, it0, acc) = (format!("vx_it{u}"), format!("vx_start{u}"), format!("vx_acc{u}"));
        let ty = turbofish(m, self).map(|t| format!(": {t}")).unwrap_or_default();
        let (inv, h) = self.loop_text(k, &[("$it0", &it0), ("$it", &it), ("$acc", &acc)], "", "");
        let x = match map {
            Some(cl) => format!("{{ {} {} }}", self.bind(&cl.inputs[0], &Elem::Val(format!("vx_x{u}"))), self.inner(&cl.body)),
            None => format!("vx_x{u}"),
        };
        Some(format!(
            "({{ let mut {acc}{ty} = Vec::new(); let mut {it} = crate::vx::vx_into_iter({v}); let ghost {it0} = {it};\n{}\n loop\n{inv}{{\n{} match {it}.next() {{ None => {{ break; }} Some(vx_x{u}) => {{ let vx_y{u} = {x}; {acc}.push(vx_y{u}); }} }}\n{}}}\n{} {acc} }})",
            h[0], h[1], h[2], h[3]
        ))
    }

    fn for_loop(&self, f: &ExprForLoop) -> Option<String> {
        if f.label.is_some() {
            self.note("labelled loop");
            return None;
        }
        let r = f.span().byte_range();
        let flags = self.flags.borrow().get(&(r.start, r.end)).map(|v| v.join(" && ")).unwrap_or_default();
        let save = (self.st.borrow().uid, self.st.borrow().loop_no);
        let exclude = if let Pat::Ident(i) = &*f.pat { Some(i.ident.to_string()) } else { None };
        let oacc = find_acc(&Expr::Block(ExprBlock { attrs: vec![], label: None, block: f.body.clone() }), exclude);
        let by_ref = match strip(&f.expr) {
            Expr::Reference(r) if r.mutability.is_none() => Some(&*r.expr),
            Expr::MethodCall(m) if m.method == "iter" && m.args.is_empty() => Some(&*m.receiver),
            _ => None,
        };
        if let (Some(x), true) = (by_ref.filter(|x| is_place(x)), self.wants_iter(save.1)) {
            let ex = format!("crate::vx::vx_iter(crate::vx::VxSlice::vx_slice(&{}))", self.expr(x));
            let acc = oacc.as_deref().unwrap_or("$acc");
            return Some(self.over_text(ex, &f.pat, &|| self.block_inner(&f.body), &flags, acc));
        }
        if let Some(c) = self.chain(&f.expr, true) {
            let b = |el: &Elem| format!("{} {}", self.bind(&f.pat, el), self.block_inner(&f.body));
            return Some(format!("{{ {} }}", self.emit_ix(c, &b, None, oacc, &flags)));
        }
        self.back_to(save);
        Some(self.over(&f.expr, &f.pat, &|| self.block_inner(&f.body), &flags, oacc.as_deref().unwrap_or("$acc")))
    }

    fn while_loop(&self, w: &ExprWhile) -> Option<String> {
        if w.label.is_some() {
            self.note("labelled loop");
            return None;
        }
        // while let Some(p) = it.next()
        if let Expr::Let(l) = &*w.cond {
            if let (Pat::TupleStruct(ts), Expr::MethodCall(m)) = (&*l.pat, strip(&l.expr)) {
                if ts.path.is_ident("Some") && (m.method == "next" || m.method == "pop") && is_place(&m.receiver) {
                    let k = self.next_loop();
                    let it = self.expr(&m.receiver);
                    let u = self.uid();
                    let it0 = format!("vx_start{u}");
                    let body = Expr::Block(ExprBlock { attrs: vec![], label: None, block: w.body.clone() });
                    let acc = find_acc(&body, None).unwrap_or("$acc".into());
                    let (inv, h) = self.loop_text(k, &[("$it0", &it0), ("$it", &it), ("$acc", &acc)], "", "");
                    return Some(format!(
                        "{{ let ghost {it0} = {it};\n{}\n loop\n{inv}{{\n{} match {it}.{}() {{ None => {{ break; }} Some({}) => {{ {} }} }}\n{}}}\n{} }}",
                        h[0], h[1], m.method, self.pat(&ts.elems[0]), self.block_inner(&w.body), h[2], h[3]
                    ));
                }
            }
            return None;
        }
        let k = self.next_loop();
        let mut pre = String::new();
        let (iv, nv, auto_inv, dec) = match strip(&w.cond) {
            Expr::Binary(b)
                if matches!(b.op, BinOp::Lt(_) | BinOp::Ne(_)) && is_place(&b.left) && is_simple(&b.right) =>
            {
                let i = self.expr(&b.left);
                let n = format!("vx_n{}", self.uid());
                pre = format!("let {n} = {};\n", self.expr(&b.right));
                (i.clone(), n.clone(), format!("{i} <= {n}"), format!("{n} - {i}"))
            }
            _ => ("$i".into(), "$n".into(), String::new(), String::new()),
        };
        let acc = find_acc(
            &Expr::Block(ExprBlock { attrs: vec![], label: None, block: w.body.clone() }),
            Some(iv.clone()),
        )
        .unwrap_or("$acc".into());
        let (inv, h) =
            self.loop_text(k, &[("$i", &iv), ("$n", &nv), ("$acc", &acc), ("$lo", "0")], &auto_inv, &dec);
        Some(format!(
            "{{ {pre}{} while {}\n{inv}{{ {} {} {} }}\n{} }}",
            h[0],
            self.expr(&w.cond),
            h[1].replace("$j", &iv),
            self.block_inner(&w.body),
            h[2].replace("$j", &format!("({iv} - 1)")),
            h[3]
        ))
    }

    fn plain_loop(&self, l: &ExprLoop) -> Option<String> {
        if l.label.is_some() {
            self.note("labelled loop");
            return None;
        }
        // loop { match it.next() { Some(p) => ..., None => break } }
        if let [Stmt::Expr(Expr::Match(m), _)] = &l.body.stmts[..] {
            if let (Expr::MethodCall(c), 2) = (strip(&m.expr), m.arms.len()) {
                let some = m.arms.iter().find_map(|a| match &a.pat {
                    Pat::TupleStruct(t) if t.path.is_ident("Some") && a.guard.is_none() => Some((&t.elems[0], &a.body)),
                    _ => None,
                });
                let none = m.arms.iter().any(|a| {
                    let b = match &*a.body {
                        Expr::Block(b) if b.block.stmts.len() == 1 => match &b.block.stmts[0] {
                            Stmt::Expr(e, _) => e,
                            _ => return false,
                        },
                        e => e,
                    };
                    quote::ToTokens::to_token_stream(&a.pat).to_string() == "None" && matches!(b, Expr::Break(b) if b.expr.is_none())
                });
                if let (Some((p, b)), true, true) =
                    (some, none, (c.method == "next" || c.method == "pop") && is_place(&c.receiver))
                {
                    let k = self.next_loop();
                    let it = self.expr(&c.receiver);
                    let it0 = format!("vx_start{}", self.uid());
                    let acc = find_acc(b, None).unwrap_or("$acc".into());
                    let (inv, h) = self.loop_text(k, &[("$it0", &it0), ("$it", &it), ("$acc", &acc)], "", "");
                    return Some(format!(
                        "{{ let ghost {it0} = {it};\n{}\n loop\n{inv}{{\n{} match {it}.{}() {{ None => {{ break; }} Some({}) => {{ {}; }} }}\n{}}}\n{} }}",
                        h[0], h[1], c.method, self.pat(p), self.inner(b), h[2], h[3]
                    ));
                }
            }
        }
        let k = self.next_loop();
        // loop { if i == n { break; } ... }
        let mut iv = "$i".to_string();
        let mut nv = "$n".to_string();
        let mut auto_inv = String::new();
        let mut dec = String::new();
        let mut pre = String::new();
        if let Some(Stmt::Expr(Expr::If(f), _)) = l.body.stmts.first() {
            let is_break = f.else_branch.is_none()
                && f.then_branch.stmts.len() == 1
                && matches!(f.then_branch.stmts[0], Stmt::Expr(Expr::Break(_), _));
            if let (true, Expr::Binary(b)) = (is_break, strip(&f.cond)) {
                if matches!(b.op, BinOp::Eq(_) | BinOp::Ge(_)) && is_place(&b.left) && is_simple(&b.right) {
                    iv = self.expr(&b.left);
                    let n = format!("vx_n{}", self.uid());
                    pre = format!("let {n} = {};\n", self.expr(&b.right));
                    nv = n.clone();
                    auto_inv = format!("{iv} <= {n}");
                    dec = format!("{n} - {iv}");
                }
            }
        }
        let acc = find_acc(
            &Expr::Block(ExprBlock { attrs: vec![], label: None, block: l.body.clone() }),
            Some(iv.clone()),
        )
        .unwrap_or("$acc".into());
        let (inv, h) =
            self.loop_text(k, &[("$i", &iv), ("$n", &nv), ("$acc", &acc), ("$lo", "0")], &auto_inv, &dec);
        Some(format!(
            "{{ {pre}{} loop\n{inv}{{ {} {} {} }}\n{} }}",
            h[0],
            h[1].replace("$j", &iv),
            self.block_inner(&l.body),
            h[2].replace("$j", &format!("({iv} - 1)")),
            h[3]
        ))
    }
}

fn turbofish(m: &ExprMethodCall, r: &Rw) -> Option<String> {
    m.turbofish.as_ref().map(|t| r.file.src(&t.args).to_string())
}

/// an expression that is a vector whatever its context
fn makes_vec(e: &Expr) -> bool {
    match strip(e) {
        Expr::Macro(m) => path_str(&m.mac.path) == "vec",
        Expr::Call(c) => matches!(&*c.func, Expr::Path(p) if path_str(&p.path).starts_with("Vec::")),
        Expr::MethodCall(m) => {
            m.method == "to_vec"
                || (m.method == "collect"
                    && m.turbofish
                        .as_ref()
                        .map(|t| quote::ToTokens::to_token_stream(&t.args).to_string().starts_with("Vec"))
                        .unwrap_or(false))
        }
        _ => false,
    }
}

/// names used in an expression
struct Names(BTreeSet<String>);
impl<'ast> Visit<'ast> for Names {
    fn visit_expr_path(&mut self, p: &'ast ExprPath) {
        if p.path.segments.len() == 1 {
            self.0.insert(p.path.segments[0].ident.to_string());
        }
    }
}

/// the single variable accumulated with `+=` (or `x = x + ..`) in a loop body
fn find_acc(e: &Expr, exclude: Option<String>) -> Option<String> {
    struct A(BTreeSet<String>);
    impl<'ast> Visit<'ast> for A {
        fn visit_expr_binary(&mut self, b: &'ast ExprBinary) {
            if matches!(b.op, BinOp::AddAssign(_)) {
                if let Some(i) = ident_of(&b.left) {
                    self.0.insert(i);
                }
            }
            visit::visit_expr_binary(self, b);
        }
        fn visit_expr_assign(&mut self, a: &'ast ExprAssign) {
            if let Some(i) = ident_of(&a.left) {
                self.0.insert(i);
            }
            visit::visit_expr_assign(self, a);
        }
    }
    struct P(BTreeSet<String>);
    impl<'ast> Visit<'ast> for P {
        fn visit_expr_method_call(&mut self, m: &'ast ExprMethodCall) {
            if m.method == "push" || m.method == "union_merge" {
                if let Some(i) = ident_of(&m.receiver) {
                    self.0.insert(i);
                }
            }
            visit::visit_expr_method_call(self, m);
        }
    }
    let mut a = A(BTreeSet::new());
    a.visit_expr(e);
    if let Some(x) = exclude {
        a.0.remove(&x);
    }
    if a.0.is_empty() {
        let mut p = P(BTreeSet::new());
        p.visit_expr(e);
        a.0 = p.0;
    }
    if a.0.len() == 1 {
        a.0.into_iter().next()
    } else {
        None
    }
}
