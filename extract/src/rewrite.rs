//! Rewrites a function body into the subset Verus accepts.

use crate::inline::{path_segs, Inliner};
use crate::print::{self, Json};
use crate::{flat, Crate, FnRec, Module};
use proc_macro2::Span;
use std::collections::{BTreeMap, BTreeSet};
use syn::visit::{self, Visit};
use syn::visit_mut::{self, VisitMut};
use syn::*;

/// Replace paths to this crate's functions and constants by flat names.
struct Qualify<'a> { c: &'a Crate, m: &'a Module }
impl<'a> VisitMut for Qualify<'a> {
    fn visit_expr_path_mut(&mut self, p: &mut ExprPath) {
        if p.qself.is_some() { return; }
        let segs = path_segs(&p.path);
        if segs.len() == 1 {
            if let Some(e) = self.c.variant(self.m, &segs[0]) {
                let (e, v) = (Ident::new(&e, Span::call_site()), &p.path.segments[0].ident);
                *p = parse_quote!(#e::#v);
                return;
            }
        }
        if segs.len() == 1 && !segs[0].chars().all(|c| c.is_uppercase() || c == '_' || c.is_numeric()) {
            return; // locals; calls are handled below
        }
        if let Some((k, n)) = self.c.resolve(self.m, &segs, 0) {
            if self.c.mods[&k].consts.contains_key(&n) {
                let id = Ident::new(&format!("{}", flat(&k, &n)), p.path.segments.last().unwrap().ident.span());
                *p = parse_quote!(#id);
            }
        }
    }
    fn visit_expr_call_mut(&mut self, e: &mut ExprCall) {
        if let Expr::Path(p) = &mut *e.func {
            if p.qself.is_none() {
                if let Some((k, n)) = self.c.resolve(self.m, &path_segs(&p.path), 0) {
                    if self.c.mods[&k].fns.contains_key(&n) {
                        let id = Ident::new(&flat(&k, &n), p.path.segments.last().unwrap().ident.span());
                        *p = parse_quote!(#id);
                    }
                }
            }
        }
        visit_mut::visit_expr_call_mut(self, e);
    }
}
pub fn qualify(c: &Crate, m: &Module, b: &mut Block) { Qualify { c, m }.visit_block_mut(b); }

struct Tx {
    errors: Vec<String>,
    n: usize,
    strs: BTreeSet<String>,      // idents of type &str
    slices: BTreeSet<String>,    // idents of slice/array reference type
    renamed: BTreeMap<String, usize>, // shim name -> uses
    fresh: usize,
}

const METHODS: &[(&str, &str)] = &[
    ("len", "v_len"), ("is_empty", "v_is_empty"), ("as_bytes", "v_as_bytes"), ("iter", "v_iter"),
    ("chunks", "v_chunks"), ("char_indices", "v_char_indices"), ("chars", "v_chars"),
    ("is_char_boundary", "v_is_char_boundary"), ("encode_utf8", "v_encode_utf8"), ("encode_utf16", "v_encode_utf16"),
    ("len_utf8", "v_len_utf8"), ("len_utf16", "v_len_utf16"), ("to_le_bytes", "v_to_le_bytes"),
    ("to_be_bytes", "v_to_be_bytes"), ("is_ascii", "v_is_ascii"), ("get", "v_get"),
    ("first", "v_first"), ("last", "v_last"), ("get_unchecked", "v_get_unchecked"), ("split_at", "v_split_at"),
    ("split_at_mut", "v_split_at_mut"), ("split_first", "v_split_first"), ("fill", "v_fill"), ("as_str", "v_as_str"), ("as_slice", "v_as_slice"),
    ("min", "v_min"), ("max", "v_max"), ("copied", "v_copied"), ("cloned", "v_cloned"), ("enumerate", "v_enumerate"),
    ("peekable", "v_peekable"), ("get_mut", "v_get_mut"), ];
/// Functions whose first argument is a buffer they give mutable access to.
const MUT_FUNCS: &[&str] = &["v_copy", "v_slice_mut", "v_get_mut_range"];
const MUT_METHODS: &[&str] = &["v_copy_from_slice", "copy_from_slice", "v_fill", "fill", "v_split_at_mut", "v_get_mut"];
const FUNCS: &[(&str, &str)] = &[
    ("from_utf8_unchecked", "v_from_utf8_unchecked"), ("from_utf8", "v_from_utf8"),
    ("from_u32_unchecked", "v_from_u32_unchecked"), ("from_u32", "v_from_u32"),
];

fn int_ty(t: &Type) -> bool {
    if let Type::Path(p) = t {
        ["u8", "u16", "u32", "u64", "usize", "i32", "i64", "isize", "i16", "i8"].iter().any(|x| p.path.is_ident(x))
    } else { false }
}
fn peel<'e>(e: &'e Expr) -> &'e Expr {
    match e { Expr::Paren(p) => peel(&p.expr), Expr::Group(g) => peel(&g.expr), x => x }
}
fn ident_of(e: &Expr) -> Option<String> {
    match peel(e) { Expr::Path(p) => p.path.get_ident().map(|i| i.to_string()), _ => None }
}
fn is_zero_field(e: &Expr, of: &str) -> bool {
    if let Expr::Block(b) = peel(e) {
        if let ([Stmt::Expr(x, None)], None) = (b.block.stmts.as_slice(), &b.label) { return is_zero_field(x, of); }
    }
    if let Expr::Field(f) = peel(e) {
        if let Member::Unnamed(i) = &f.member { return i.index == 0 && ident_of(&f.base).as_deref() == Some(of); }
    }
    false
}

/// The bounds of a half-open range over the slice `b`.
fn range_bounds(b: &Expr, r: &ExprRange) -> Option<(Expr, Expr)> {
    let lo: Expr = r.start.as_ref().map(|x| (**x).clone()).unwrap_or(parse_quote!(0));
    let hi: Expr = match (&r.end, &r.limits) {
        (None, _) => parse_quote!(#b.v_len()),
        (Some(h), RangeLimits::HalfOpen(_)) => (**h).clone(),
        (Some(h), RangeLimits::Closed(_)) => parse_quote!(((#h) + 1)),
    };
    Some((lo, hi))
}

impl Tx {
    /// Strips `&` patterns; returns the derefs to insert in front of the body.
    fn strip_ref(&mut self, p: &mut Pat) -> Vec<Stmt> {
        struct S<'x> { out: Vec<Stmt>, n: &'x mut usize, err: Vec<String> }
        impl<'x> VisitMut for S<'x> {
            fn visit_pat_mut(&mut self, p: &mut Pat) {
                if let Pat::Reference(r) = p {
                    *self.n += 1;
                    let inner = (*r.pat).clone();
                    if let Pat::Reference(_) = inner { self.err.push("nested & pattern".into()); }
                    let nm = match &inner { Pat::Ident(i) => format!("{}__r{}", i.ident, *self.n), _ => format!("p__r{}", *self.n) };
                    let id = Ident::new(&nm, Span::call_site());
                    if let Pat::Wild(_) = inner {} else { self.out.push(parse_quote!(let #inner = *#id;)); }
                    *p = parse_quote!(#id);
                    return;
                }
                visit_mut::visit_pat_mut(self, p);
            }
        }
        // literal patterns under & need a guard: not handled
        let mut s = S { out: vec![], n: &mut self.fresh, err: vec![] };
        s.visit_pat_mut(p);
        let (o, e) = (s.out, s.err);
        self.errors.extend(e);
        o
    }
    fn marker(&mut self) -> Stmt {
        self.n += 1;
        let l = LitInt::new(&self.n.to_string(), Span::call_site());
        parse_quote!(__loop_marker(#l);)
    }
    fn use_shim(&mut self, s: &str) { *self.renamed.entry(s.to_string()).or_insert(0) += 1; }
}

struct Subst { name: String, by: Expr }
impl VisitMut for Subst {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if ident_of(e).as_deref() == Some(self.name.as_str()) {
            let v = &self.by;
            *e = parse_quote!((#v));
            return;
        }
        visit_mut::visit_expr_mut(self, e);
    }
}

fn prepend(pre: Vec<Stmt>, b: &mut Block) {
    let mut v = pre;
    v.append(&mut b.stmts);
    b.stmts = v;
}

impl VisitMut for Tx {
    fn visit_block_mut(&mut self, b: &mut Block) {
        // let with & patterns
        let mut out = vec![];
        for mut s in std::mem::take(&mut b.stmts) {
            let mut post = vec![];
            if let Stmt::Local(l) = &mut s {
                if l.init.as_ref().map_or(true, |i| i.diverge.is_none()) { post = self.strip_ref(&mut l.pat); }
            }
            if let Stmt::Macro(m) = &s {
                // assert-like macros at statement level
                let e = Expr::Macro(ExprMacro { attrs: vec![], mac: m.mac.clone() });
                s = Stmt::Expr(e, Some(Default::default()));
            }
            if let Stmt::Item(_) = &s { self.errors.push("nested item".into()); }
            out.push(s);
            out.extend(post);
        }
        b.stmts = out;
        visit_mut::visit_block_mut(self, b);
        // (a loop with clauses that is directly followed by a block does not parse)
        for i in 1..b.stmts.len() {
            if matches!(&b.stmts[i], Stmt::Expr(Expr::Block(_), _)) {
                if let Stmt::Expr(Expr::Loop(_), semi @ None) = &mut b.stmts[i - 1] { *semi = Some(Default::default()); }
            }
        }
    }
    fn visit_attributes_mut(&mut self, a: &mut Vec<Attribute>) {
        // conditional compilation would make the extracted text differ from what runs
        for x in a.iter() { if x.path().is_ident("cfg") || x.path().is_ident("cfg_attr") { self.errors.push("cfg inside a function".into()); } }
        a.clear();
    }

    fn visit_expr_mut(&mut self, e: &mut Expr) {
        // ---- pre-order: loops and patterns
        match e {
            Expr::ForLoop(f) => {
                let mut pat = (*f.pat).clone();
                let pre = self.strip_ref(&mut pat);
                let mut body = f.body.clone();
                prepend(pre, &mut body);
                let label = f.label.clone();
                self.fresh += 1;
                let it = Ident::new(&format!("it__{}", self.fresh), Span::call_site());
                let src = (*f.expr).clone();
                if let Expr::Range(r) = peel(&src) {
                    let (lo, hi) = match (&r.start, &r.end) { (Some(a), Some(b)) => (a.clone(), b.clone()), _ => { self.errors.push("open range loop".into()); return; } };
                    let hi_id = Ident::new(&format!("hi__{}", self.fresh), Span::call_site());
                    let m = self.marker();
                    let cond: Expr = match r.limits { RangeLimits::HalfOpen(_) => parse_quote!(#it < #hi_id), _ => { self.errors.push("inclusive range loop".into()); return; } };
                    *e = parse_quote!({ let mut #it = #lo; let #hi_id = #hi; #label loop { #m if !(#cond) { break; } let #pat = #it; #it += 1; #body } });
                } else {
                    let m = self.marker();
                    // `for x in slice` and `for x in &slice`
                    let src: Expr = match peel(&src) {
                        Expr::Path(_) | Expr::Reference(_) => { let b = match peel(&src) { Expr::Reference(r) => (*r.expr).clone(), x => x.clone() }; parse_quote!(#b.iter()) }
                        Expr::MethodCall(mc) if mc.method == "v_as_bytes" || mc.method == "as_bytes" => parse_quote!(#src.iter()),
                        _ => src,
                    };
                    *e = parse_quote!({ let mut #it = #src; #label loop { #m match #it.next() { Some(#pat) => #body, None => { break; } } } });
                }
            }
            Expr::While(w) => {
                let label = w.label.clone();
                let body = w.body.clone();
                let m = self.marker();
                match &*w.cond {
                    Expr::Let(l) => {
                        let mut pat = (*l.pat).clone();
                        let pre = self.strip_ref(&mut pat);
                        let mut body = body;
                        prepend(pre, &mut body);
                        let ex = &l.expr;
                        *e = parse_quote!(#label loop { #m match #ex { #pat => #body, _ => { break; } } });
                    }
                    c => *e = parse_quote!(#label loop { #m if !(#c) { break; } #body }),
                }
            }
            Expr::Loop(l) => {
                let first_is_marker = match l.body.stmts.first() {
                    Some(Stmt::Expr(Expr::Call(c), _)) => ident_of(&c.func).as_deref() == Some("__loop_marker"),
                    _ => false,
                };
                if !first_is_marker {
                    let m = self.marker();
                    l.body.stmts.insert(0, m);
                }
            }
            Expr::If(i) => {
                if let Expr::Let(l) = &mut *i.cond {
                    let pre = self.strip_ref(&mut l.pat);
                    if !pre.is_empty() { prepend(pre, &mut i.then_branch); }
                }
            }
            Expr::Match(m) => {
                for a in m.arms.iter_mut() {
                    let pre = self.strip_ref(&mut a.pat);
                    if !pre.is_empty() {
                        if let Some((_, g)) = &mut a.guard {
                            // in the guard, the name is what the reference refers to
                            for st in &pre {
                                match st {
                                    Stmt::Local(l) => match (&l.pat, l.init.as_ref().map(|i| &*i.expr)) {
                                        (Pat::Ident(p), Some(v)) if p.subpat.is_none() => Subst { name: p.ident.to_string(), by: v.clone() }.visit_expr_mut(g),
                                        _ => self.errors.push("guard on & pattern".into()),
                                    },
                                    _ => {}
                                }
                            }
                        }
                        let b = (*a.body).clone();
                        *a.body = parse_quote!({ #(#pre)* #b });
                    }
                }
            }
            Expr::Unsafe(u) => {
                let b = u.block.clone();
                *e = Expr::Block(ExprBlock { attrs: vec![], label: None, block: b });
            }
            Expr::Macro(m) => {
                let n = m.mac.path.segments.last().unwrap().ident.to_string();
                match n.as_str() {
                    "assert" | "debug_assert" => {
                        let args = m.mac.parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated);
                        match args {
                            Ok(a) if !a.is_empty() => { let c = &a[0]; *e = parse_quote!(if !(#c) { v_panic() }); }
                            _ => self.errors.push(n),
                        }
                    }
                    "assert_eq" | "debug_assert_eq" | "assert_ne" | "debug_assert_ne" => {
                        let args = m.mac.parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated);
                        match args {
                            Ok(a) if a.len() >= 2 => {
                                let (x, y) = (&a[0], &a[1]);
                                *e = if n.ends_with("eq") { parse_quote!(if !((#x) == (#y)) { v_panic() }) } else { parse_quote!(if (#x) == (#y) { v_panic() }) };
                            }
                            _ => self.errors.push(n),
                        }
                    }
                    "panic" | "unreachable" | "todo" | "unimplemented" => *e = parse_quote!(vstd::pervasive::unreached()),
                    "matches" => {
                        struct Mt(Expr, Pat, Option<Expr>);
                        impl parse::Parse for Mt {
                            fn parse(i: parse::ParseStream) -> Result<Self> {
                                let a = i.parse()?; i.parse::<Token![,]>()?;
                                let p = Pat::parse_multi_with_leading_vert(i)?;
                                let g = if i.peek(Token![if]) { i.parse::<Token![if]>()?; Some(i.parse()?) } else { None };
                                let _ = i.parse::<Option<Token![,]>>()?;
                                Ok(Mt(a, p, g))
                            }
                        }
                        match m.mac.parse_body::<Mt>() {
                            Ok(Mt(a, p, None)) => *e = parse_quote!((match #a { #p => true, _ => false })),
                            Ok(Mt(a, p, Some(g))) => *e = parse_quote!((match #a { #p if #g => true, _ => false })),
                            _ => self.errors.push("matches!".into()),
                        }
                    }
                    _ => self.errors.push(format!("macro {}!", n)),
                }
            }
            _ => {}
        }
        // ---- str slicing, before children are touched
        if let Expr::Reference(r) = e {
            if r.mutability.is_none() {
                if let Expr::Index(ix) = peel(&r.expr) {
                    if ident_of(&ix.expr).map_or(false, |n| self.strs.contains(&n)) {
                        if let Expr::Range(_) = peel(&ix.index) { let inner = (*r.expr).clone(); *e = inner; }
                    }
                }
            }
        }
        if let Expr::Index(ix) = e {
            if ident_of(&ix.expr).map_or(false, |n| self.strs.contains(&n)) {
                if let Expr::Range(r) = peel(&ix.index) {
                    match (&r.start, &r.end, &r.limits) {
                        (None, Some(h), RangeLimits::HalfOpen(_)) => { let b = &ix.expr; *e = parse_quote!(#b.v_str_to(#h)); }
                        (Some(l), Some(h), RangeLimits::HalfOpen(_)) if matches!(peel(l), Expr::Lit(ExprLit { lit: Lit::Int(i), .. }) if i.base10_parse::<u64>().map_or(false, |v| v == 0)) => { let b = &ix.expr; *e = parse_quote!(#b.v_str_to(#h)); }
                        (Some(l), None, _) => { let b = &ix.expr; *e = parse_quote!(#b.v_str_from(#l)); }
                        _ => self.errors.push("str range".into()),
                    }
                }
            }
        }
        visit_mut::visit_expr_mut(self, e);
        // ---- post-order
        if let Expr::Reference(r) = e {
            if r.mutability.is_none() && matches!(peel(&r.expr), Expr::Array(a) if a.elems.is_empty()) {
                *e = parse_quote!(v_empty());
                self.use_shim("v_empty");
                return;
            }
        }
        if let Expr::Reference(r) = e {
            if r.mutability.is_some() {
                if let Expr::Index(ix) = peel(&r.expr) {
                    if let (Some(_), Expr::Range(rg)) = (ident_of(&ix.expr), peel(&ix.index)) {
                        let b = &ix.expr;
                        match range_bounds(b, rg) {
                            Some((lo, hi)) => { *e = parse_quote!(v_slice_mut(#b, #lo, #hi)); self.use_shim("v_slice_mut"); }
                            None => self.errors.push("mutable range".into()),
                        }
                        return;
                    }
                }
            }
        }
        match e {
            Expr::MethodCall(mc) => {
                let n = mc.method.to_string();
                if n == "binary_search_by_key" && mc.args.len() == 2 {
                    if let Expr::Closure(cl) = peel(&mc.args[1]) {
                        if cl.inputs.len() == 1 {
                            let ok = match &cl.inputs[0] {
                                Pat::Ident(i) => is_zero_field(&cl.body, &i.ident.to_string()),
                                // |&(c, _)| c
                                Pat::Reference(r) => match &*r.pat {
                                    Pat::Tuple(t) if !t.elems.is_empty() => match &t.elems[0] {
                                        Pat::Ident(i) => ident_of(&cl.body) == Some(i.ident.to_string()),
                                        _ => false,
                                    },
                                    _ => false,
                                },
                                _ => false,
                            };
                            if ok {
                                let (r, a) = (&mc.receiver, &mc.args[0]);
                                *e = parse_quote!(#r.v_search(#a));
                                self.use_shim("v_search");
                                return;
                            }
                        }
                    }
                    self.errors.push("binary_search_by_key with an unusual key function".into());
                    return;
                }
                if n == "copy_from_slice" && mc.args.len() == 1 {
                    if let Expr::Index(ix) = peel(&mc.receiver) {
                        if let (Some(b), Expr::Range(r)) = (ident_of(&ix.expr), peel(&ix.index)) {
                            let id = Ident::new(&b, Span::call_site());
                            if let Some((lo, hi)) = range_bounds(&ix.expr, r) {
                                let src = &mc.args[0];
                                *e = parse_quote!(v_copy(#id, #lo, #hi, #src));
                                self.use_shim("v_copy");
                                return;
                            }
                        }
                        // b[a..][c..d]
                        if let (Expr::Index(ix1), Expr::Range(r)) = (peel(&ix.expr), peel(&ix.index)) {
                            if let (Some(b), Expr::Range(r1)) = (ident_of(&ix1.expr), peel(&ix1.index)) {
                                if let (Some(a), None, Some(d), RangeLimits::HalfOpen(_)) = (&r1.start, &r1.end, &r.end, &r.limits) {
                                    if ident_of(a).is_some() {
                                        let id = Ident::new(&b, Span::call_site());
                                        let lo: Expr = match &r.start { Some(c) => parse_quote!(((#a) + (#c))), None => (**a).clone() };
                                        let src = &mc.args[0];
                                        *e = parse_quote!(v_copy(#id, #lo, ((#a) + (#d)), #src));
                                        self.use_shim("v_copy");
                                        return;
                                    }
                                }
                            }
                        }
                    }
                    if let Expr::Path(_) = peel(&mc.receiver) {
                        mc.method = Ident::new("v_copy_from_slice", mc.method.span());
                        self.use_shim("v_copy_from_slice");
                    } else {
                        self.errors.push("copy_from_slice on an unusual place".into());
                    }
                    return;
                }
                if (n == "get" || n == "get_mut") && mc.args.len() == 1 {
                    if let Expr::Range(r) = peel(&mc.args[0]) {
                        let b = &mc.receiver;
                        match range_bounds(b, r) {
                            Some((lo, hi)) if n == "get" => *e = parse_quote!(#b.v_get_range(#lo, #hi)),
                            Some((lo, hi)) if ident_of(b).is_some() => *e = parse_quote!(v_get_mut_range(#b, #lo, #hi)),
                            _ => self.errors.push("get of an unusual range".into()),
                        }
                        return;
                    }
                    if n == "get_mut" { self.errors.push("get_mut".into()); return; }
                }
                if n == "binary_search_by" && mc.args.len() == 1 {
                    // |x| x.0.cmp(&c)
                    if let Expr::Closure(cl) = peel(&mc.args[0]) {
                        if let (1, Expr::MethodCall(cmp)) = (cl.inputs.len(), peel(&cl.body)) {
                            if let Pat::Ident(i) = &cl.inputs[0] {
                                if cmp.method == "cmp" && is_zero_field(&cmp.receiver, &i.ident.to_string()) {
                                    let (r, a) = (&mc.receiver, &cmp.args[0]);
                                    *e = parse_quote!(#r.v_search(#a));
                                    self.use_shim("v_search");
                                    return;
                                }
                            }
                        }
                    }
                    self.errors.push("binary_search_by with an unusual comparison".into());
                    return;
                }
                if let Some((_, s)) = METHODS.iter().find(|(a, _)| *a == n) {
                    mc.method = Ident::new(s, mc.method.span());
                    self.use_shim(s);
                }
            }
            Expr::Call(c) => {
                if let Expr::Path(p) = &mut *c.func {
                    let segs = path_segs(&p.path);
                    let last = segs.last().unwrap().clone();
                    if let Some((_, s)) = FUNCS.iter().find(|(a, _)| *a == last) {
                        let id = Ident::new(s, p.path.segments.last().unwrap().ident.span());
                        *p = parse_quote!(#id);
                        self.use_shim(s);
                    } else if segs.len() >= 2 {
                        let ty = segs[segs.len() - 2].clone();
                        let ufcs = ["u8", "u16", "u32", "usize", "char", "str"].contains(&ty.as_str()) && c.args.len() >= 1;
                        if let (true, Some((_, sh))) = (ufcs, METHODS.iter().find(|(a, _)| *a == last)) {
                            let m = Ident::new(sh, Span::call_site());
                            let (x, rest) = (&c.args[0], c.args.iter().skip(1));
                            *e = parse_quote!((#x).#m(#(#rest),*));
                            self.use_shim(sh);
                        } else if ["from_le_bytes", "from_be_bytes"].contains(&last.as_str()) {
                            let nm = format!("v_{}_{}", ty, last);
                            let id = Ident::new(&nm, Span::call_site());
                            *p = parse_quote!(#id);
                            self.use_shim(&nm);
                        } else if last == "from" && ["u32", "u16", "u64", "usize", "char", "i32"].contains(&ty.as_str()) && c.args.len() == 1 {
                            let t = Ident::new(&ty, Span::call_site());
                            let a = &c.args[0];
                            *e = parse_quote!(((#a) as #t));
                        } else if ["min", "max"].contains(&last.as_str()) && ty == "cmp" {
                            let id = Ident::new(&format!("v_{}", last), Span::call_site());
                            *p = parse_quote!(#id);
                        }
                    }
                }
            }
            Expr::Cast(c) => {
                if int_ty(&c.ty) {
                    let (mut x, t) = (c.expr.clone(), &c.ty);
                    if matches!(*x, Expr::Binary(_) | Expr::Range(_) | Expr::Assign(_) | Expr::Closure(_)) { x = parse_quote!((#x)); }
                    *e = parse_quote!((#[verifier::truncate] (#x as #t)));
                }
            }
            Expr::Try(_) => self.errors.push("? operator".into()),
            _ => {}
        }
    }
    fn visit_expr_closure_mut(&mut self, _c: &mut ExprClosure) {}
}
struct Leftover { errors: Vec<String> }
impl<'a> Visit<'a> for Leftover {
    fn visit_expr_closure(&mut self, _: &'a ExprClosure) { self.errors.push("closure".into()); }
}

// ---------------------------------------------------------------------------

struct LoopInfo {
    id: usize,
    parent: usize,
    iter: Option<String>,
    muts: BTreeSet<String>,
    writes: BTreeSet<String>,
    methods: BTreeSet<String>,
    line: usize,
    cond: String,
    cond_vars: BTreeSet<String>,
}
struct LoopScan { stack: Vec<(usize, BTreeSet<String>)>, loops: BTreeMap<usize, LoopInfo> }
fn base(e: &Expr) -> Option<String> {
    match peel(e) {
        Expr::Path(p) => p.path.get_ident().map(|i| i.to_string()),
        Expr::Index(i) => base(&i.expr),
        Expr::Field(f) => base(&f.base),
        Expr::Unary(u) => base(&u.expr),
        _ => None,
    }
}
impl LoopScan {
    fn note(&mut self, lhs: &Expr) {
        let idx = matches!(peel(lhs), Expr::Index(_));
        if let Some(b) = base(lhs) {
            for (id, decl) in self.stack.clone() {
                if decl.contains(&b) { continue; }
                let l = self.loops.get_mut(&id).unwrap();
                if idx { l.writes.insert(b.clone()); } else { l.muts.insert(b.clone()); }
            }
        }
    }
}
fn assign_op(op: &BinOp) -> bool {
    use BinOp::*;
    matches!(op, AddAssign(_) | SubAssign(_) | MulAssign(_) | DivAssign(_) | RemAssign(_) | BitXorAssign(_) | BitAndAssign(_) | BitOrAssign(_) | ShlAssign(_) | ShrAssign(_))
}
struct Idents(BTreeSet<String>);
impl<'a> Visit<'a> for Idents {
    fn visit_expr_path(&mut self, p: &'a ExprPath) { if let Some(i) = p.path.get_ident() { self.0.insert(i.to_string()); } }
}
impl<'a> Visit<'a> for LoopScan {
    fn visit_expr_call(&mut self, c: &'a ExprCall) {
        if ident_of(&c.func).map_or(false, |n| MUT_FUNCS.contains(&n.as_str())) && !c.args.is_empty() {
            if let Some(b) = ident_of(&c.args[0]) {
                for (id, decl) in self.stack.clone() {
                    if !decl.contains(&b) { self.loops.get_mut(&id).unwrap().writes.insert(b.clone()); }
                }
            }
        }
        visit::visit_expr_call(self, c);
    }
    fn visit_expr_loop(&mut self, l: &'a ExprLoop) {
        let mut id = 0;
        if let Some(Stmt::Expr(Expr::Call(c), _)) = l.body.stmts.first() {
            if let Some(Expr::Lit(ExprLit { lit: Lit::Int(n), .. })) = c.args.first() { id = n.base10_parse().unwrap_or(0); }
        }
        let mut cond = String::new();
        let mut cv = Idents(BTreeSet::new());
        if let Some(Stmt::Expr(Expr::If(i), _)) = l.body.stmts.get(1) {
            cond = print::plain({ let c = &i.cond; quote::quote!(#c) });
            cv.visit_expr(&i.cond);
        }
        let parent = self.stack.last().map_or(0, |x| x.0);
        self.loops.insert(id, LoopInfo { id, parent, iter: None, muts: BTreeSet::new(), writes: BTreeSet::new(), methods: BTreeSet::new(), line: 0, cond, cond_vars: cv.0 });
        self.stack.push((id, BTreeSet::new()));
        visit::visit_expr_loop(self, l);
        self.stack.pop();
    }
    fn visit_pat_ident(&mut self, p: &'a PatIdent) {
        if let Some(s) = self.stack.last_mut() { s.1.insert(p.ident.to_string()); }
        visit::visit_pat_ident(self, p);
    }
    fn visit_expr_assign(&mut self, a: &'a ExprAssign) { self.note(&a.left); visit::visit_expr_assign(self, a); }
    fn visit_expr_binary(&mut self, a: &'a ExprBinary) {
        if assign_op(&a.op) { self.note(&a.left); }
        visit::visit_expr_binary(self, a);
    }
    fn visit_expr_reference(&mut self, r: &'a ExprReference) {
        if r.mutability.is_some() { self.note(&r.expr); }
        visit::visit_expr_reference(self, r);
    }
    fn visit_expr_method_call(&mut self, m: &'a ExprMethodCall) {
        let n = m.method.to_string();
        for (id, decl) in self.stack.clone() {
            let l = self.loops.get_mut(&id).unwrap();
            l.methods.insert(n.clone());
            if n == "next" {
                if let Some(b) = ident_of(&m.receiver) { if l.iter.is_none() && !decl.contains(&b) { l.iter = Some(b); } }
            }
            if MUT_METHODS.contains(&n.as_str()) {
                if let Some(b) = base(&m.receiver) { if !decl.contains(&b) { l.writes.insert(b); } }
            }
        }
        visit::visit_expr_method_call(self, m);
    }
}

struct Lets { map: BTreeMap<String, Vec<(Expr, bool)>> }
impl<'a> Visit<'a> for Lets {
    fn visit_local(&mut self, l: &'a Local) {
        let pat = match &l.pat { Pat::Type(t) => &*t.pat, p => p };
        if let (Pat::Ident(i), Some(init)) = (pat, &l.init) {
            self.map.entry(i.ident.to_string()).or_default().push(((*init.expr).clone(), i.mutability.is_some()));
        }
        visit::visit_local(self, l);
    }
}
struct Oks { v: Vec<(Expr, Expr)> }
impl<'a> Visit<'a> for Oks {
    fn visit_expr_call(&mut self, c: &'a ExprCall) {
        if ident_of(&c.func).as_deref() == Some("Ok") && c.args.len() == 1 {
            if let Expr::Tuple(t) = peel(&c.args[0]) {
                if t.elems.len() == 2 { self.v.push((t.elems[0].clone(), t.elems[1].clone())); }
            }
        }
        visit::visit_expr_call(self, c);
    }
}
/// What a name that is bound once stands for, through blocks that only hold a value.
fn origin<'e>(e: &'e Expr, lets: &'e Lets, depth: usize) -> Option<&'e Expr> {
    if depth > 8 { return None; }
    match peel(e) {
        Expr::Block(b) if b.block.stmts.len() == 1 => match &b.block.stmts[0] { Stmt::Expr(x, None) => origin(x, lets, depth + 1), _ => None },
        Expr::Path(p) => match lets.map.get(&p.path.get_ident()?.to_string()).map(|v| v.as_slice()) {
            Some([(x, false)]) => origin(x, lets, depth + 1),
            _ => None,
        },
        x => Some(x),
    }
}
/// X in `&out[..X]`, through unsafe blocks, conversions and lets.
fn range_end(e: &Expr, lets: &Lets, depth: usize) -> Option<String> {
    if depth > 8 { return None; }
    match peel(e) {
        Expr::Reference(r) => range_end(&r.expr, lets, depth + 1),
        Expr::Block(b) => match b.block.stmts.last() { Some(Stmt::Expr(x, None)) => range_end(x, lets, depth + 1), _ => None },
        Expr::Call(c) if c.args.len() == 1 => range_end(&c.args[0], lets, depth + 1),
        Expr::Index(i) => match peel(&i.index) {
            Expr::Range(r) => r.end.as_ref().and_then(|x| ident_of(x)),
            _ => None,
        },
        Expr::Path(p) => {
            let n = p.path.get_ident()?.to_string();
            let l = lets.map.get(&n)?;
            if l.len() == 1 { range_end(&l[0].0, lets, depth + 1) } else { None }
        }
        _ => None,
    }
}
/// Methods the verifier knows exactly (its own specifications of them say all
/// there is to say); what has a shim is known too.
const EXACT: &[&str] = &[
    "next", "clone", "peek", "unwrap", "expect", "unwrap_or", "is_some", "is_none", "is_ok", "is_err", "ok", "err", "as_ref", "ok_or",
    "wrapping_add", "wrapping_sub", "wrapping_mul", "checked_add", "checked_sub", "checked_mul", "saturating_add", "saturating_sub",
    "valid_up_to", "error_len", "unwrap_unchecked", "next_if", "next_if_eq", "to_owned", "borrow", "into",
];
/// Calls of functions that are neither this crate's nor known exactly.
struct Foreign(BTreeSet<String>);
impl<'a> Visit<'a> for Foreign {
    fn visit_expr_method_call(&mut self, m: &'a ExprMethodCall) {
        let n = m.method.to_string();
        if !n.starts_with("v_") && !EXACT.contains(&n.as_str()) { self.0.insert(n); }
        visit::visit_expr_method_call(self, m);
    }
    fn visit_expr_call(&mut self, c: &'a ExprCall) {
        if let Expr::Path(p) = peel(&c.func) {
            let k = p.path.segments.len();
            let up = |s: &PathSegment| s.ident.to_string().starts_with(|c: char| c.is_uppercase());
            if k >= 2 && !up(&p.path.segments[k - 1]) && p.path.segments[0].ident != "vstd" {
                let q = &p.path;
                self.0.insert(print::plain(quote::quote!(#q)).replace(' ', ""));
            }
        }
        visit::visit_expr_call(self, c);
    }
}
struct Lits { strs: BTreeSet<String>, calls: BTreeSet<String>, paths: BTreeSet<String> }
impl<'a> Visit<'a> for Lits {
    fn visit_lit_str(&mut self, l: &'a LitStr) { self.strs.insert(quote::quote!(#l).to_string()); }
    fn visit_expr_path(&mut self, p: &'a ExprPath) { if let Some(i) = p.path.get_ident() { self.paths.insert(i.to_string()); } visit::visit_expr_path(self, p); }
    fn visit_expr_call(&mut self, c: &'a ExprCall) {
        if let Some(n) = ident_of(&c.func) { self.calls.insert(n); }
        visit::visit_expr_call(self, c);
    }
}

pub fn emit_fn(c: &Crate, m: &Module, key: &str, name: &str, r: &FnRec, contracted: &BTreeSet<String>, o: &mut Json) {
    let f = &r.item;
    let mut errors: Vec<String> = r.errors.clone();
    let mut body: Block = (*f.block).clone();

    // `mut` parameters become variables of their own
    for i in &f.sig.inputs {
        if let FnArg::Typed(t) = i {
            if let Pat::Ident(p) = &*t.pat {
                if p.mutability.is_some() && !matches!(&*t.ty, Type::Reference(r) if r.mutability.is_some()) {
                    let n = p.ident.to_string();
                    let v = format!("{}__m", n);
                    let map: BTreeMap<String, String> = vec![(n.clone(), v.clone())].into_iter().collect();
                    crate::inline::Rename { map: &map }.visit_block_mut(&mut body);
                    let (vi, pi) = (Ident::new(&v, p.ident.span()), &p.ident);
                    let st: Stmt = parse_quote!(let mut #vi = #pi;);
                    body.stmts.insert(0, st);
                }
            }
        }
    }
    crate::inline::local_closures(f, &mut body);
    let mut locals = Lets { map: BTreeMap::new() };
    locals.visit_block(&body);
    let mut inl = Inliner { c, m, contracted, errors: vec![], inlined: vec![], counter: 0, depth: 0, locals: locals.map.keys().cloned().collect() };
    inl.run(&mut body, true);
    errors.append(&mut inl.errors);
    let inlined = inl.inlined;
    qualify(c, m, &mut body);

    let mut strs = BTreeSet::new();
    let mut slices = BTreeSet::new();
    let mut params: Vec<(String, String)> = vec![];
    for i in &f.sig.inputs {
        if let FnArg::Typed(t) = i {
            let ty = &t.ty;
            let n = match &*t.pat { Pat::Ident(p) => p.ident.to_string(), _ => { errors.push("pattern parameter".into()); "_".into() } };
            if let Type::Reference(rf) = &**ty {
                match &*rf.elem {
                    Type::Path(p) if p.path.is_ident("str") => { strs.insert(n.clone()); }
                    Type::Slice(_) | Type::Array(_) => { slices.insert(n.clone()); }
                    _ => {}
                }
            }
            params.push((n, print::plain(quote::quote!(#ty))));
        }
    }
    let mut tx = Tx { errors: vec![], n: 0, strs, slices, renamed: BTreeMap::new(), fresh: 0 };
    let _ = &tx.slices;
    tx.visit_block_mut(&mut body);
    errors.append(&mut tx.errors);
    let mut lo = Leftover { errors: vec![] };
    lo.visit_block(&body);
    errors.append(&mut lo.errors);

    let mut ls = LoopScan { stack: vec![], loops: BTreeMap::new() };
    ls.visit_block(&body);
    let mut lets = Lets { map: BTreeMap::new() };
    lets.visit_block(&body);
    let mut oks = Oks { v: vec![] };
    oks.visit_block(&body);
    let mut foreign = Foreign(BTreeSet::new());
    foreign.visit_block(&body);
    let mut lits = Lits { strs: BTreeSet::new(), calls: BTreeSet::new(), paths: BTreeSet::new() };
    lits.visit_block(&body);

    o.obj();
    o.key("module"); o.str(key);
    o.key("name"); o.str(name);
    o.key("file"); o.str(&r.file);
    o.key("line"); o.num(f.sig.ident.span().start().line);
    o.key("pub"); o.bool(matches!(f.vis, Visibility::Public(_)));
    o.key("params"); o.arr();
    for (n, t) in &params { o.arr(); o.str(n); o.str(t); o.end_arr(); }
    o.end_arr();
    let g = &f.sig.generics;
    o.key("generics"); o.str(&print::plain(quote::quote!(#g)));
    o.key("ret"); match &f.sig.output { ReturnType::Default => o.str("()"), ReturnType::Type(_, t) => o.str(&print::plain(quote::quote!(#t))) }
    o.key("body"); o.arr();
    for (s, l) in print::lines(quote::quote!(#body)) { o.arr(); o.str(&s); o.num(l); o.end_arr(); }
    o.end_arr();
    o.key("loops"); o.arr();
    for l in ls.loops.values() {
        o.obj();
        o.key("id"); o.num(l.id);
        o.key("parent"); o.num(l.parent);
        o.key("line"); o.num(l.line);
        o.key("iter"); match &l.iter { Some(s) => o.str(s), None => o.null() }
        o.key("iter_init");
        match l.iter.as_ref().and_then(|n| lets.map.get(n)).and_then(|v| v.last()).and_then(|(x, _)| origin(x, &lets, 0)) {
            Some(Expr::MethodCall(mc)) => {
                // the source of the items, under adaptors that keep their order
                let mut mc = mc.clone();
                let mut adapt = vec![];
                while ["v_copied", "v_cloned", "v_enumerate", "v_peekable"].contains(&mc.method.to_string().as_str()) {
                    let inner = match origin(&mc.receiver, &lets, 0) { Some(Expr::MethodCall(m)) => m.clone(), _ => break };
                    adapt.push(mc.method.to_string());
                    mc = inner;
                }
                let (rc, ar) = (&mc.receiver, &mc.args);
                o.arr(); o.str(&mc.method.to_string()); o.str(&print::plain(quote::quote!(#rc))); o.str(&print::plain(quote::quote!(#ar))); o.str(&adapt.join(",")); o.end_arr();
            }
            _ => o.null(),
        }
        o.key("muts"); o.arr(); for x in &l.muts { o.str(x); } o.end_arr();
        o.key("writes"); o.arr(); for x in &l.writes { o.str(x); } o.end_arr();
        o.key("methods"); o.arr(); for x in &l.methods { o.str(x); } o.end_arr();
        o.key("cond"); o.str(&l.cond);
        o.key("cond_vars"); o.arr(); for x in &l.cond_vars { o.str(x); } o.end_arr();
        o.end_obj();
    }
    o.end_arr();
    o.key("oks"); o.arr();
    for (a, b) in &oks.v {
        o.obj();
        o.key("o"); match range_end(a, &lets, 0) { Some(s) => o.str(&s), None => o.null() }
        o.key("i"); match ident_of(b) { Some(s) => o.str(&s), None => o.null() }
        o.key("i_text"); o.str(&print::plain(quote::quote!(#b)));
        o.end_obj();
    }
    o.end_arr();
    o.key("lets"); o.obj();
    for (n, v) in &lets.map {
        o.key(n); o.arr();
        for (e, mt) in v { o.arr(); o.str(&{ let s = print::plain(quote::quote!(#e)); if s.len() > 200 { String::from("...") } else { s } }); o.bool(*mt); o.end_arr(); }
        o.end_arr();
    }
    o.end_obj();
    o.key("foreign"); o.arr(); for s in &foreign.0 { o.str(s); } o.end_arr();
    o.key("strs"); o.arr(); for s in &lits.strs { o.str(s); } o.end_arr();
    o.key("calls"); o.arr(); for s in &lits.calls { if s.chars().next().map_or(false, |c| c.is_lowercase()) { o.str(s); } } o.end_arr();
    o.key("consts"); o.arr();
    for s in &lits.paths {
        for (k, md) in &c.mods { for n in md.consts.keys() { if &flat(k, n) == s { o.str(s); } } }
    }
    o.end_arr();
    o.key("shims"); o.arr(); for s in tx.renamed.keys() { o.str(s); } o.end_arr();
    o.key("inlined"); o.arr(); for s in &inlined { o.str(s); } o.end_arr();
    o.key("errors"); o.arr(); for s in &errors { o.str(s); } o.end_arr();
    o.end_obj();
}
