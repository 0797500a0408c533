//! Inlining of local helper functions that have no contract of their own.

use crate::{flat, Crate, Module};
use std::collections::{BTreeMap, BTreeSet};
use syn::visit::Visit;
use syn::visit_mut::{self, VisitMut};
use syn::punctuated::Punctuated;
use syn::*;

pub struct Inliner<'a> {
    pub c: &'a Crate,
    pub m: &'a Module,
    pub contracted: &'a BTreeSet<String>,
    pub errors: Vec<String>,
    pub inlined: Vec<String>,
    pub counter: usize,
    pub depth: usize,
    pub locals: BTreeSet<String>,
}

fn mentions(b: &Block, t: &str) -> bool {
    struct U<'x>(&'x str, bool);
    impl<'a, 'x> Visit<'a> for U<'x> { fn visit_ident(&mut self, i: &'a Ident) { if i == self.0 { self.1 = true; } } }
    let mut u = U(t, false);
    u.visit_block(b);
    u.1
}
/// Names a closure takes from around it.
fn captured(cl: &ExprClosure) -> BTreeSet<String> {
    struct U(BTreeSet<String>);
    impl<'a> Visit<'a> for U {
        fn visit_expr_path(&mut self, p: &'a ExprPath) { if let Some(i) = p.path.get_ident() { self.0.insert(i.to_string()); } }
        fn visit_expr_call(&mut self, c: &'a ExprCall) {
            if !matches!(&*c.func, Expr::Path(_)) { self.visit_expr(&c.func); }
            for a in &c.args { self.visit_expr(a); }
        }
        fn visit_macro(&mut self, _: &'a Macro) { self.0.insert("macro".into()); }
    }
    let mut u = U(BTreeSet::new());
    u.visit_expr(&cl.body);
    let mut b = Binders(BTreeSet::new());
    for p in &cl.inputs { b.visit_pat(p); }
    b.visit_expr(&cl.body);
    u.0.into_iter().filter(|x| !b.0.contains(x) && x.chars().next().map_or(false, |c| c.is_lowercase())).collect()
}
/// Calls of a named closure become its body.
struct ApplyClosure<'x> { name: &'x str, cl: &'x ExprClosure, n: usize, bad: bool }
impl<'x> VisitMut for ApplyClosure<'x> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        if let Expr::Call(c) = e {
            if let Expr::Path(p) = &*c.func {
                if p.path.is_ident(self.name) {
                    if c.args.len() != self.cl.inputs.len() { self.bad = true; return; }
                    self.n += 1;
                    let mut cl = self.cl.clone();
                    let mut b = Binders(BTreeSet::new());
                    for p in &cl.inputs { b.visit_pat(p); }
                    b.visit_expr(&cl.body);
                    let map: BTreeMap<String, String> = b.0.iter().map(|x| (x.clone(), format!("{}__{}{}", x, self.name, self.n))).collect();
                    let mut st: Vec<Stmt> = vec![];
                    for (p, a) in cl.inputs.iter_mut().zip(&c.args) {
                        Rename { map: &map }.visit_pat_mut(p);
                        match p {
                            Pat::Type(t) => { let (p, ty) = (&t.pat, &t.ty); st.push(parse_quote!(let #p: #ty = #a;)); }
                            p => st.push(parse_quote!(let #p = #a;)),
                        }
                    }
                    Rename { map: &map }.visit_expr_mut(&mut cl.body);
                    let body = &cl.body;
                    *e = parse_quote!(({ #(#st)* #body }));
                }
            }
        }
    }
}
/// `let f = |..| ..;` whose calls can be written out: it captures only names
/// that are bound once in the whole function.
pub fn local_closures(f: &ItemFn, b: &mut Block) {
    struct Count(BTreeMap<String, usize>);
    impl<'a> Visit<'a> for Count {
        fn visit_pat_ident(&mut self, p: &'a PatIdent) { *self.0.entry(p.ident.to_string()).or_insert(0) += 1; visit::visit_pat_ident(self, p); }
    }
    let mut cnt = Count(BTreeMap::new());
    for i in &f.sig.inputs { if let FnArg::Typed(t) = i { cnt.visit_pat(&t.pat); } }
    cnt.visit_block(b);
    struct L { cnt: BTreeMap<String, usize>, todo: Vec<(String, ExprClosure)> }
    impl VisitMut for L {
        fn visit_block_mut(&mut self, b: &mut Block) {
            let mut out = vec![];
            let all = std::mem::take(&mut b.stmts);
            for (at, s) in all.iter().enumerate() {
                if let Stmt::Local(l) = s {
                    let pat = match &l.pat { Pat::Type(t) => &*t.pat, p => p };
                    if let (Pat::Ident(i), Some(init)) = (pat, &l.init) {
                        if let Expr::Closure(cl) = &*init.expr {
                            let n = i.ident.to_string();
                            // its calls are in the rest of this block: what it captures must
                            // mean the same up to the last of them
                            let mut rest = Count(BTreeMap::new());
                            let end = (at + 1..all.len()).filter(|j| mentions(&Block { brace_token: Default::default(), stmts: vec![all[*j].clone()] }, &n)).last().unwrap_or(at);
                            for x in &all[at + 1..end + 1] { rest.visit_stmt(x); }
                            if !has_return_e(&cl.body) && cl.capture.is_none() && self.cnt.get(&n) == Some(&1)
                                && captured(cl).iter().all(|c| self.cnt.contains_key(c) && (self.cnt[c] == 1 || !rest.0.contains_key(c))) {
                                self.todo.push((n, cl.clone()));
                                continue;
                            }
                        }
                    }
                }
                out.push(s.clone());
            }
            b.stmts = out;
            visit_mut::visit_block_mut(self, b);
        }
    }
    let mut l = L { cnt: cnt.0, todo: vec![] };
    l.visit_block_mut(b);
    for (name, cl) in &l.todo { ApplyClosure { name, cl, n: 0, bad: false }.visit_block_mut(b); }
}

pub fn path_segs(p: &Path) -> Vec<String> {
    let mut v: Vec<String> = p.segments.iter().map(|s| s.ident.to_string()).collect();
    // edition 2015: from the crate's root
    if p.leading_colon.is_some() && v[0] != "core" && v[0] != "std" { v.insert(0, "crate".into()); }
    v
}

struct HasReturn(bool);
impl<'a> Visit<'a> for HasReturn {
    fn visit_expr_return(&mut self, _: &'a ExprReturn) { self.0 = true; }
    fn visit_expr_try(&mut self, _: &'a ExprTry) { self.0 = true; }
    fn visit_expr_closure(&mut self, _: &'a ExprClosure) {}
}
pub fn has_return_e(e: &Expr) -> bool { let mut h = HasReturn(false); h.visit_expr(e); h.0 }
pub fn has_return_b(e: &Block) -> bool { let mut h = HasReturn(false); h.visit_block(e); h.0 }
fn has_return_s(e: &Stmt) -> bool { let mut h = HasReturn(false); h.visit_stmt(e); h.0 }

/// Does every path through this block leave by `return`?
fn always_returns(b: &Block) -> bool {
    b.stmts.iter().any(|s| match s {
        Stmt::Expr(e, _) => always_returns_e(e),
        _ => false,
    })
}
fn always_returns_e(e: &Expr) -> bool {
    match e {
        Expr::Return(_) => true,
        Expr::Block(b) => always_returns(&b.block),
        Expr::If(i) => always_returns(&i.then_branch) && i.else_branch.as_ref().map_or(false, |(_, e)| always_returns_e(e)),
        Expr::Match(m) => !m.arms.is_empty() && m.arms.iter().all(|a| always_returns_e(&a.body)),
        Expr::Paren(p) => always_returns_e(&p.expr),
        _ => false,
    }
}

/// Rewrite a statement list so that it evaluates to what the function returns,
/// without `return`.
fn deret(stmts: &[Stmt]) -> Option<Block> {
    let mut out: Vec<Stmt> = vec![];
    for (i, s) in stmts.iter().enumerate() {
        if !has_return_s(s) {
            out.push(s.clone());
            continue;
        }
        let rest = &stmts[i + 1..];
        match s {
            Stmt::Expr(Expr::Assign(a), _) if !has_return_e(&a.left) => {
                let k = |v: Expr| { let mut n = a.clone(); *n.right = v; let mut r = vec![Stmt::Expr(Expr::Assign(n), Some(Default::default()))]; r.extend(rest.iter().cloned()); r };
                out.push(Stmt::Expr(push_into(&a.right, rest, &k)?, None));
                return Some(Block { brace_token: Default::default(), stmts: out });
            }
            Stmt::Expr(e, None) if rest.is_empty() && matches!(e, Expr::Call(_) | Expr::Tuple(_) | Expr::Array(_)) => {
                // a tail value with returns inside its parts
                let mut n = e.clone();
                let mut pre = vec![];
                {
                    let parts: Vec<&mut Expr> = match &mut n {
                        Expr::Call(c) => c.args.iter_mut().collect(),
                        Expr::Tuple(c) => c.elems.iter_mut().collect(),
                        Expr::Array(c) => c.elems.iter_mut().collect(),
                        _ => vec![],
                    };
                    for (j, x) in parts.into_iter().enumerate() {
                        let id = Ident::new(&format!("part__{}", j), proc_macro2::Span::call_site());
                        let v = std::mem::replace(x, parse_quote!(#id));
                        pre.push(parse_quote!(let #id = #v;));
                    }
                }
                if has_return_e(&n) { return None; }
                pre.push(Stmt::Expr(n, None));
                let b = deret(&pre)?;
                out.extend(b.stmts);
                return Some(Block { brace_token: Default::default(), stmts: out });
            }
            Stmt::Expr(e, _) => {
                out.push(Stmt::Expr(deret_e(e, rest)?, None));
                return Some(Block { brace_token: Default::default(), stmts: out });
            }
            Stmt::Local(l) => {
                let init = l.init.as_ref()?;
                if let Some((_, d)) = &init.diverge {
                    // let P = x else { return .. };
                    if has_return_e(&init.expr) || !always_returns_e(d) { return None; }
                    let (p, x) = (&l.pat, &init.expr);
                    let r = deret(rest)?;
                    let z = deret_e(d, &[])?;
                    out.push(Stmt::Expr(parse_quote!(match #x { #p => #r, _ => #z }), None));
                    return Some(Block { brace_token: Default::default(), stmts: out });
                }
                // integer literals lose their common type when they part
                let suf = { let mut x = vec![]; leaf_suffixes(&init.expr, &mut x); x.into_iter().find(|s| !s.is_empty()) };
                let k = |v: Expr| { let v = match (&suf, &v) {
                        (Some(t), Expr::Lit(ExprLit { lit: Lit::Int(i), .. })) if i.suffix().is_empty() => { let x = LitInt::new(&format!("{}{}", i, t), i.span()); parse_quote!(#x) }
                        _ => v };
                    let mut n = l.clone(); *n.init.as_mut().unwrap().expr = v; let mut r = vec![Stmt::Local(n)]; r.extend(rest.iter().cloned()); r };
                out.push(Stmt::Expr(push_into(&init.expr, rest, &k)?, None));
                return Some(Block { brace_token: Default::default(), stmts: out });
            }
            _ => return None,
        }
    }
    Some(Block { brace_token: Default::default(), stmts: out })
}
fn leaf_suffixes(e: &Expr, o: &mut Vec<String>) {
    fn blk(b: &Block, o: &mut Vec<String>) { if let Some(Stmt::Expr(e, None)) = b.stmts.last() { leaf_suffixes(e, o) } }
    match e {
        Expr::Lit(ExprLit { lit: Lit::Int(i), .. }) => o.push(i.suffix().to_string()),
        Expr::Paren(p) => leaf_suffixes(&p.expr, o),
        Expr::Block(b) => blk(&b.block, o),
        Expr::If(i) => { blk(&i.then_branch, o); if let Some((_, e)) = &i.else_branch { leaf_suffixes(e, o) } }
        Expr::Match(m) => for a in &m.arms { leaf_suffixes(&a.body, o) },
        _ => {}
    }
}
/// Do names bound here occur in what is moved into their scope?
fn captures(bound: &BTreeSet<String>, rest: &[Stmt]) -> bool {
    struct U(BTreeSet<String>);
    impl<'a> Visit<'a> for U {
        fn visit_expr_path(&mut self, p: &'a ExprPath) { if let Some(i) = p.path.get_ident() { self.0.insert(i.to_string()); } }
        fn visit_macro(&mut self, m: &'a Macro) { for t in m.tokens.clone() { self.tok(t); } }
    }
    impl U {
        fn tok(&mut self, t: proc_macro2::TokenTree) {
            match t {
                proc_macro2::TokenTree::Ident(i) => { self.0.insert(i.to_string()); }
                proc_macro2::TokenTree::Group(g) => for x in g.stream() { self.tok(x); },
                _ => {}
            }
        }
    }
    let mut u = U(BTreeSet::new());
    for s in rest { u.visit_stmt(s); }
    bound.iter().any(|b| u.0.contains(b))
}
fn bound_pat(p: &Pat) -> BTreeSet<String> { let mut b = Binders(BTreeSet::new()); b.visit_pat(p); b.0 }
fn bound_top(b: &[Stmt]) -> BTreeSet<String> {
    let mut r = BTreeSet::new();
    for s in b { if let Stmt::Local(l) = s { r.extend(bound_pat(&l.pat)); } }
    r
}
/// The value of `e` handed to `k`; a `return` in `e` becomes the value of the whole.
fn push_into(e: &Expr, rest: &[Stmt], k: &dyn Fn(Expr) -> Vec<Stmt>) -> Option<Expr> {
    let blk = |stmts: Vec<Stmt>| -> Option<Expr> { let b = deret(&stmts)?; Some(Expr::Block(ExprBlock { attrs: vec![], label: None, block: b })) };
    if !has_return_e(e) { return blk(k(e.clone())); }
    match e {
        Expr::Paren(p) => push_into(&p.expr, rest, k),
        Expr::Return(r) => Some(match &r.expr { Some(x) => { if has_return_e(x) { return None; } (**x).clone() } None => parse_quote!(()) }),
        Expr::Block(b) => push_block(&b.block, rest, k).map(|b| Expr::Block(ExprBlock { attrs: vec![], label: None, block: b })),
        Expr::If(i) => {
            if has_return_e(&i.cond) { return None; }
            if let Expr::Let(l) = &*i.cond { if captures(&bound_pat(&l.pat), rest) { return None; } }
            let mut n = i.clone();
            n.then_branch = push_block(&i.then_branch, rest, k)?;
            let (t, x) = i.else_branch.as_ref()?;
            let v = push_into(x, rest, k)?;
            let v: Expr = match v { Expr::Block(_) | Expr::If(_) => v, v => parse_quote!({ #v }) };
            n.else_branch = Some((*t, Box::new(v)));
            Some(Expr::If(n))
        }
        Expr::Match(m) => {
            if has_return_e(&m.expr) { return None; }
            let mut n = m.clone();
            for a in n.arms.iter_mut() {
                if let Some((_, g)) = &a.guard { if has_return_e(g) { return None; } }
                if !always_returns_e(&a.body) && captures(&bound_pat(&a.pat), rest) { return None; }
                let v = push_into(&a.body, rest, k)?;
                a.body = Box::new(v);
                a.comma = Some(Default::default());
            }
            Some(Expr::Match(n))
        }
        _ => None,
    }
}
fn push_block(b: &Block, rest: &[Stmt], k: &dyn Fn(Expr) -> Vec<Stmt>) -> Option<Block> {
    if always_returns(b) { return deret(&b.stmts); }
    if captures(&bound_top(&b.stmts), rest) { return None; }
    let (last, init) = b.stmts.split_last()?;
    let v = match last { Stmt::Expr(x, None) => x, _ => return None };
    if init.iter().any(has_return_s) { return None; }
    let mut s = init.to_vec();
    s.push(Stmt::Expr(push_into(v, rest, k)?, None));
    Some(Block { brace_token: Default::default(), stmts: s })
}
fn deret_b(b: &Block, rest: &[Stmt]) -> Option<Block> {
    let mut v = b.stmts.clone();
    if !always_returns(b) {
        if captures(&bound_top(&b.stmts), rest) { return None; }
        if let Some(Stmt::Expr(_, semi)) = v.last_mut() {
            if semi.is_none() && !rest.is_empty() { *semi = Some(Default::default()); }
        }
        v.extend(rest.iter().cloned());
    }
    deret(&v)
}
fn deret_e(e: &Expr, rest: &[Stmt]) -> Option<Expr> {
    match e {
        Expr::Return(r) => Some(match &r.expr { Some(x) => { if has_return_e(x) { return None; } (**x).clone() }, None => parse_quote!(()) }),
        Expr::Paren(p) => deret_e(&p.expr, rest),
        Expr::Block(b) => { let bl = deret_b(&b.block, rest)?; Some(Expr::Block(ExprBlock { attrs: vec![], label: None, block: bl })) }
        Expr::If(i) => {
            if has_return_e(&i.cond) { return None; }
            if let Expr::Let(l) = &*i.cond { if !always_returns(&i.then_branch) && captures(&bound_pat(&l.pat), rest) { return None; } }
            let mut n = i.clone();
            n.then_branch = deret_b(&i.then_branch, rest)?;
            let else_e: Expr = match &i.else_branch {
                Some((_, e)) => match &**e {
                    Expr::If(_) | Expr::Block(_) => {
                        if has_return_e(e) { deret_e(e, rest)? }
                        else {
                            let b = match &**e { Expr::Block(b) => b.block.clone(), x => Block { brace_token: Default::default(), stmts: vec![Stmt::Expr(x.clone(), None)] } };
                            Expr::Block(ExprBlock { attrs: vec![], label: None, block: deret_b(&b, rest)? })
                        }
                    }
                    _ => return None,
                },
                None => {
                    let b = deret(rest)?;
                    Expr::Block(ExprBlock { attrs: vec![], label: None, block: b })
                }
            };
            n.else_branch = Some((Default::default(), Box::new(else_e)));
            Some(Expr::If(n))
        }
        Expr::Match(m) => {
            if has_return_e(&m.expr) { return None; }
            let mut n = m.clone();
            for a in n.arms.iter_mut() {
                if let Some((_, g)) = &a.guard { if has_return_e(g) { return None; } }
                if !always_returns_e(&a.body) && captures(&bound_pat(&a.pat), rest) { return None; }
                let b = match &*a.body { Expr::Block(b) => b.block.clone(), x => Block { brace_token: Default::default(), stmts: vec![Stmt::Expr(x.clone(), None)] } };
                a.body = Box::new(Expr::Block(ExprBlock { attrs: vec![], label: None, block: deret_b(&b, rest)? }));
                a.comma = Some(Default::default());
            }
            Some(Expr::Match(n))
        }
        _ => None,
    }
}

/// The block `'l: { .. break 'l v; .. }` as a plain block of the same value: what
/// would leave it by `break` becomes its value.  A `return` in it stays as it is.
pub fn unlabel(l: &Lifetime, b: &Block) -> Option<Block> {
    struct Out<'a> { l: &'a Lifetime, n: usize }
    impl<'a> VisitMut for Out<'a> {
        fn visit_expr_mut(&mut self, e: &mut Expr) {
            visit_mut::visit_expr_mut(self, e);
            match e {
                Expr::Return(r) => { let x = &r.expr; *e = parse_quote!(__kept_return!(#x)); }
                Expr::Break(k) if k.label.as_ref() == Some(self.l) => { self.n += 1; let x = &k.expr; *e = parse_quote!(return #x); }
                _ => {}
            }
        }
        fn visit_expr_closure_mut(&mut self, _: &mut ExprClosure) {}
    }
    struct Back(bool);
    impl VisitMut for Back {
        fn visit_expr_mut(&mut self, e: &mut Expr) {
            if let Expr::Macro(m) = e {
                if m.mac.path.is_ident("__kept_return") {
                    let t = &m.mac.tokens;
                    match parse2::<Expr>(quote::quote!(return #t)) { Ok(x) => *e = x, Err(_) => self.0 = true }
                }
            }
            visit_mut::visit_expr_mut(self, e);
        }
    }
    let mut v = b.clone();
    let mut o = Out { l, n: 0 };
    o.visit_block_mut(&mut v);
    let mut r = if o.n == 0 { v } else { deret(&v.stmts)? };
    if has_return_b(&r) { return None; }
    let mut k = Back(false);
    k.visit_block_mut(&mut r);
    if k.0 { None } else { Some(r) }
}

/// Renames local names; expands struct shorthand.
pub struct Rename<'a> { pub map: &'a BTreeMap<String, String> }
impl<'a> VisitMut for Rename<'a> {
    fn visit_expr_path_mut(&mut self, p: &mut ExprPath) {
        if p.qself.is_none() && p.path.segments.len() == 1 && p.path.leading_colon.is_none() {
            let s = &mut p.path.segments[0];
            if let Some(n) = self.map.get(&s.ident.to_string()) {
                s.ident = Ident::new(n, s.ident.span());
            }
        }
    }
    fn visit_pat_ident_mut(&mut self, p: &mut PatIdent) {
        if let Some(n) = self.map.get(&p.ident.to_string()) { p.ident = Ident::new(n, p.ident.span()); }
        visit_mut::visit_pat_ident_mut(self, p);
    }
    fn visit_field_value_mut(&mut self, f: &mut FieldValue) {
        if f.colon_token.is_none() { f.colon_token = Some(Default::default()); }
        visit_mut::visit_field_value_mut(self, f);
    }
    fn visit_field_pat_mut(&mut self, f: &mut FieldPat) {
        if f.colon_token.is_none() { f.colon_token = Some(Default::default()); }
        visit_mut::visit_field_pat_mut(self, f);
    }
}
struct Binders(BTreeSet<String>);
impl<'a> Visit<'a> for Binders {
    fn visit_pat_ident(&mut self, p: &'a PatIdent) {
        let n = p.ident.to_string();
        if !n.chars().next().map_or(false, |c| c.is_uppercase()) { self.0.insert(n); }
        visit::visit_pat_ident(self, p);
    }
}
use syn::visit;

/// Substitutes a place for a `&mut` parameter.
struct SubstMut<'a> { name: &'a str, place: &'a Expr, is_ref_ident: bool }
impl<'a> VisitMut for SubstMut<'a> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Unary(u) = e {
            if let UnOp::Deref(_) = u.op {
                if let Expr::Path(p) = &*u.expr {
                    if p.path.is_ident(self.name) && !self.is_ref_ident {
                        *e = self.place.clone();
                        return;
                    }
                }
            }
        }
        if let Expr::Path(p) = e {
            if p.path.is_ident(self.name) {
                let pl = self.place;
                *e = if self.is_ref_ident { pl.clone() } else { parse_quote!(&mut #pl) };
                return;
            }
        }
        // receivers and index bases auto-deref: use the place itself
        if let Expr::MethodCall(mc) = e {
            if let Expr::Path(p) = &*mc.receiver {
                if p.path.is_ident(self.name) {
                    *mc.receiver = self.place.clone();
                    for a in mc.args.iter_mut() { self.visit_expr_mut(a); }
                    return;
                }
            }
        }
        if let Expr::Index(ix) = e {
            if let Expr::Path(p) = &*ix.expr {
                if p.path.is_ident(self.name) {
                    *ix.expr = self.place.clone();
                    self.visit_expr_mut(&mut ix.index);
                    return;
                }
            }
        }
        visit_mut::visit_expr_mut(self, e);
    }
}

impl<'a> Inliner<'a> {
    fn target(&self, call: &ExprCall) -> Option<(String, String)> {
        if let Expr::Path(p) = &*call.func {
            if p.qself.is_some() { return None; }
            let (k, n) = self.c.resolve(self.m, &path_segs(&p.path), 0)?;
            if self.c.mods[&k].fns.contains_key(&n) { return Some((k, n)); }
        }
        None
    }

    /// Inlines every non-contracted local call in `b`. `tail`: the value of the
    /// block is the value of the whole function, so `return` may stay.
    pub fn run(&mut self, b: &mut Block, tail: bool) {
        if tail {
            if let Some(Stmt::Expr(e, None)) = b.stmts.last_mut() {
                self.tail_expr(e);
            }
            // `return f(x)` anywhere
            struct R<'x, 'a>(&'x mut Inliner<'a>);
            impl<'x, 'a> VisitMut for R<'x, 'a> {
                fn visit_expr_return_mut(&mut self, r: &mut ExprReturn) {
                    if let Some(e) = &mut r.expr { self.0.tail_expr(e); }
                    visit_mut::visit_expr_return_mut(self, r);
                }
                fn visit_expr_closure_mut(&mut self, _: &mut ExprClosure) {}
            }
            R(self).visit_block_mut(b);
        }
        self.visit_block_mut(b);
    }
    fn tail_expr(&mut self, e: &mut Expr) {
        match e {
            Expr::Call(call) => {
                if let Some((k, n)) = self.target(call) {
                    if !self.contracted.contains(&flat(&k, &n)) {
                        let args: Vec<Expr> = call.args.iter().cloned().collect();
                        if let Some(x) = self.expand(&k, &n, &args, true) { *e = x; }
                    }
                }
            }
            Expr::If(i) => {
                if let Some(Stmt::Expr(x, None)) = i.then_branch.stmts.last_mut() { self.tail_expr(x); }
                if let Some((_, x)) = &mut i.else_branch { self.tail_expr(x); }
            }
            Expr::Block(b) => { if let Some(Stmt::Expr(x, None)) = b.block.stmts.last_mut() { self.tail_expr(x); } }
            Expr::Match(m) => { for a in m.arms.iter_mut() { self.tail_expr(&mut a.body); } }
            Expr::Paren(p) => self.tail_expr(&mut p.expr),
            _ => {}
        }
    }

    fn expand(&mut self, k: &str, n: &str, args: &[Expr], tail: bool) -> Option<Expr> {
        if self.depth > 6 { self.errors.push(format!("recursive helper {}", n)); return None; }
        let md = &self.c.mods[k];
        let f = &md.fns[n].item;
        self.errors.extend(md.fns[n].errors.iter().cloned());
        self.counter += 1;
        let id = self.counter;
        let mut body: Block = (*f.block).clone();
        local_closures(f, &mut body);
        if f.sig.inputs.len() != args.len() { self.errors.push(format!("call of {}", n)); return None; }
        // Type parameters may only stand for functions handed in.
        let tps: Vec<String> = f.sig.generics.params.iter().filter_map(|g| match g { GenericParam::Type(t) => Some(t.ident.to_string()), _ => None }).collect();
        if f.sig.generics.params.iter().any(|g| matches!(g, GenericParam::Const(_))) || tps.iter().any(|t| mentions(&body, t)) {
            self.errors.push(format!("generic helper {}", n));
            return None;
        }
        if has_return_b(&body) && !tail {
            match deret(&body.stmts) {
                Some(b) if !has_return_b(&b) => body = b,
                _ => { self.errors.push(format!("helper {} returns from inside a loop or nested expression", n)); return None; }
            }
        }
        // hygiene
        let mut bind = Binders(BTreeSet::new());
        bind.visit_block(&body);
        let mut map = BTreeMap::new();
        for b in &bind.0 { map.insert(b.clone(), format!("{}__{}", b, id)); }
        let mut pre: Vec<Stmt> = vec![];
        let mut substs: Vec<(String, Expr, bool)> = vec![];
        let mut closures: Vec<(String, ExprClosure)> = vec![];
        for (inp, arg) in f.sig.inputs.iter().zip(args) {
            let (pat, ty) = match inp {
                FnArg::Typed(t) => (&*t.pat, &*t.ty),
                _ => { self.errors.push(format!("method {}", n)); return None; }
            };
            let pi = match pat {
                Pat::Ident(p) => p,
                Pat::Wild(_) => { pre.push(parse_quote!(let _ = #arg;)); continue; }
                _ => { self.errors.push(format!("pattern parameter of {}", n)); return None; }
            };
            let pname = pi.ident.to_string();
            let newn = format!("{}__{}", pname, id);
            map.insert(pname.clone(), newn.clone());
            let is_fn = match ty {
                Type::BareFn(_) => true,
                Type::ImplTrait(t) => { let s = quote::quote!(#t).to_string(); s.contains("Fn") }
                Type::Path(p) => p.path.get_ident().map_or(false, |i| tps.contains(&i.to_string())),
                _ => false,
            };
            if is_fn {
                match arg {
                    Expr::Path(p) if !self.locals.contains(&p.path.get_ident().map_or(String::new(), |i| i.to_string())) => {
                        // name the function in the helper's own module
                        let q = match self.c.resolve(self.m, &path_segs(&p.path), 0) {
                            Some((k2, n2)) => { let mut v: Punctuated<Ident, Token![::]> = Punctuated::new(); v.push(Ident::new("crate", proc_macro2::Span::call_site())); for s in k2.split("::").filter(|s| !s.is_empty()) { v.push(Ident::new(s, proc_macro2::Span::call_site())); } v.push(Ident::new(&n2, proc_macro2::Span::call_site())); parse_quote!(#v) }
                            None => arg.clone(),
                        };
                        substs.push((newn, q, true));
                        continue;
                    }
                    Expr::Closure(cl) if !has_return_e(&cl.body) && captured(cl).is_empty() => { closures.push((newn, cl.clone())); continue; }
                    _ => { self.errors.push(format!("function argument of {}", n)); return None; }
                }
            }
            match ty {
                Type::Reference(r) if r.mutability.is_some() => {
                    match arg {
                        Expr::Reference(a) if a.mutability.is_some() => {
                            // &mut *x  is the reference x itself
                            if let Expr::Unary(u) = &*a.expr {
                                if let (UnOp::Deref(_), Expr::Path(_)) = (&u.op, &*u.expr) {
                                    substs.push((newn, (*u.expr).clone(), true));
                                    continue;
                                }
                            }
                            match &*a.expr {
                                Expr::Path(_) => substs.push((newn, (*a.expr).clone(), false)),
                                Expr::Index(ix) if matches!(*ix.expr, Expr::Path(_)) => {
                                    let nid = Ident::new(&newn, pi.ident.span());
                                    pre.push(parse_quote!(let #nid = #arg;));
                                }
                                _ => { self.errors.push(format!("&mut argument of {}", n)); return None; }
                            }
                        }
                        Expr::Path(_) => substs.push((newn, arg.clone(), true)),
                        _ => { self.errors.push(format!("&mut argument of {}", n)); return None; }
                    }
                }
                _ => {
                    let nid = Ident::new(&newn, pi.ident.span());
                    let ts = quote::quote!(#ty).to_string();
                    let mt = &pi.mutability;
                    if ts.contains("impl") || ts.contains("dyn") { self.errors.push(format!("parameter type of {}", n)); return None; }
                    if let (Expr::Lit(_), None) = (arg, &pi.mutability) {
                        // (typed, so that the value has the parameter's type)
                        if let Type::Path(tp) = ty { if tp.path.is_ident("bool") { substs.push((newn, arg.clone(), true)); continue; } }
                    }
                    if let Expr::Path(ap) = arg {
                        // read-only alias of a reference: keep the caller's name visible
                        if pi.mutability.is_none() && matches!(ty, Type::Reference(_)) && ap.path.get_ident().is_some() {
                            substs.push((newn, arg.clone(), true));
                            continue;
                        }
                    }
                    if ts.contains('\'') { pre.push(parse_quote!(let #mt #nid = #arg;)); }
                    else { pre.push(parse_quote!(let #mt #nid: #ty = #arg;)); }
                }
            }
        }
        Rename { map: &map }.visit_block_mut(&mut body);
        for (name, place, r) in &substs {
            SubstMut { name, place, is_ref_ident: *r }.visit_block_mut(&mut body);
        }
        for (name, cl) in &closures { ApplyClosure { name, cl, n: 0, bad: false }.visit_block_mut(&mut body); }
        self.inlined.push(flat(k, n));
        // Nested helpers are resolved in the helper's own module.
        let mut sub = Inliner { c: self.c, m: md, contracted: self.contracted, errors: vec![], inlined: vec![], counter: self.counter * 10, depth: self.depth + 1, locals: BTreeSet::new() };
        sub.run(&mut body, tail);
        self.errors.append(&mut sub.errors);
        self.inlined.append(&mut sub.inlined);
        // Constants and contracted callees named in the helper's module.
        crate::rewrite::qualify(self.c, md, &mut body);
        pre.append(&mut body.stmts);
        Some(Expr::Block(ExprBlock { attrs: vec![], label: None, block: Block { brace_token: Default::default(), stmts: pre } }))
    }
}

impl<'a> VisitMut for Inliner<'a> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        if let Expr::Call(call) = e {
            if let Some((k, n)) = self.target(call) {
                if !self.contracted.contains(&flat(&k, &n)) {
                    let args: Vec<Expr> = call.args.iter().cloned().collect();
                    if let Some(x) = self.expand(&k, &n, &args, false) {
                        *e = parse_quote!((#x));
                    }
                }
            }
        }
    }
}
