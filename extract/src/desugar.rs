//! Writes out what the verifier has no closures for: combinators of Option and
//! Result as matches, `?` as a match, `bool::then` as an if.  Each is the
//! definition of the method in core.

use crate::inline::{has_return_e, path_segs};
use crate::{Crate, Module};
use std::collections::BTreeSet;
use syn::visit_mut::{self, VisitMut};
use syn::*;

#[derive(Clone, Copy, PartialEq)]
pub enum Kind { Opt, Res }

pub struct Desugar<'a> { pub c: &'a Crate, pub m: &'a Module, pub ret: Option<Kind>, pub n: usize, pub errors: Vec<String> }

pub fn ret_kind(t: &ReturnType) -> Option<Kind> {
    if let ReturnType::Type(_, t) = t { ty_kind(t) } else { None }
}
fn ty_kind(t: &Type) -> Option<Kind> {
    if let Type::Path(p) = t {
        let l = p.path.segments.last()?.ident.to_string();
        return match l.as_str() { "Option" => Some(Kind::Opt), "Result" | "EncodeResult" | "DecodeResult" => Some(Kind::Res), _ => None };
    }
    None
}
fn peel(e: &Expr) -> &Expr {
    match e { Expr::Paren(p) => peel(&p.expr), Expr::Group(g) => peel(&g.expr), x => x }
}

impl<'a> Desugar<'a> {
    fn kind(&self, e: &Expr) -> Option<Kind> {
        match peel(e) {
            Expr::MethodCall(m) => {
                let n = m.method.to_string();
                match n.as_str() {
                    "binary_search" | "binary_search_by" | "binary_search_by_key" | "ok_or" | "ok_or_else" | "map_err" => Some(Kind::Res),
                    "ok" | "err" | "next" | "get" | "get_mut" | "first" | "last" | "peek" | "split_first" | "filter" | "then" | "then_some" | "nth"
                    | "checked_sub" | "checked_add" | "checked_mul" | "position" | "find" => Some(Kind::Opt),
                    "map" | "and_then" | "cloned" | "copied" | "or_else" | "or" => self.kind(&m.receiver),
                    _ => None,
                }
            }
            Expr::Call(c) => {
                if let Expr::Path(p) = peel(&c.func) {
                    let s = path_segs(&p.path);
                    match s.last().unwrap().as_str() {
                        "from_u32" | "Some" => return Some(Kind::Opt),
                        "from_utf8" | "Ok" | "Err" => return Some(Kind::Res),
                        _ => {}
                    }
                    let (k, n) = self.c.resolve(self.m, &s, 0)?;
                    return ret_kind(&self.c.mods[&k].fns.get(&n)?.item.sig.output);
                }
                None
            }
            Expr::Match(m) => m.arms.iter().filter_map(|a| self.kind(&a.body)).next(),
            Expr::If(i) => match i.then_branch.stmts.last() { Some(Stmt::Expr(x, None)) => self.kind(x), _ => None },
            Expr::Block(b) => match b.block.stmts.last() { Some(Stmt::Expr(x, None)) => self.kind(x), _ => None },
            _ => None,
        }
    }
    /// A one-argument function value applied to what `pat` binds.
    fn apply(&mut self, f: &Expr) -> Option<(Pat, Expr)> {
        match peel(f) {
            Expr::Closure(c) if c.inputs.len() == 1 && !has_return_e(&c.body) => {
                let p = match &c.inputs[0] { Pat::Type(t) => (*t.pat).clone(), p => p.clone() };
                Some((p, (*c.body).clone()))
            }
            Expr::Path(p) => {
                self.n += 1;
                let id = Ident::new(&format!("a__{}", self.n), proc_macro2::Span::call_site());
                Some((parse_quote!(#id), parse_quote!(#p(#id))))
            }
            _ => None,
        }
    }
    fn thunk(&self, f: &Expr) -> Option<Expr> {
        match peel(f) {
            Expr::Closure(c) if c.inputs.is_empty() && !has_return_e(&c.body) => Some((*c.body).clone()),
            Expr::Path(p) => Some(parse_quote!(#p())),
            _ => None,
        }
    }
    fn method(&mut self, m: &ExprMethodCall) -> Option<Expr> {
        let n = m.method.to_string();
        let r = &m.receiver;
        let a: Vec<&Expr> = m.args.iter().collect();
        if n == "then" && a.len() == 1 {
            let x = self.thunk(a[0])?;
            return Some(parse_quote!((if #r { Some(#x) } else { None })));
        }
        if n == "then_some" && a.len() == 1 {
            let x = a[0];
            if !matches!(peel(x), Expr::Lit(_) | Expr::Path(_) | Expr::Array(_) | Expr::Tuple(_)) { return None; }
            return Some(parse_quote!((if #r { Some(#x) } else { None })));
        }
        // `position`, and `take_while(..).count()`, over a slice: the loop they are defined as
        if (n == "position" && a.len() == 1) || (n == "count" && a.is_empty()) {
            let (src, f) = if n == "position" { (peel(r), a[0]) } else {
                match peel(r) { Expr::MethodCall(t) if t.method == "take_while" && t.args.len() == 1 => (peel(&t.receiver), &t.args[0]), _ => return None }
            };
            let it = match src { Expr::MethodCall(i) if i.method == "iter" && i.args.is_empty() => i, _ => return None };
            fn fixed(e: &Expr) -> bool {
                match peel(e) {
                    Expr::Lit(_) | Expr::Path(_) => true,
                    Expr::Binary(b) => !matches!(b.op, BinOp::AddAssign(_) | BinOp::SubAssign(_)) && fixed(&b.left) && fixed(&b.right),
                    Expr::Range(r) => r.start.as_ref().map_or(true, |x| fixed(x)) && r.end.as_ref().map_or(true, |x| fixed(x)),
                    Expr::Index(i) => fixed(&i.expr) && fixed(&i.index),
                    _ => false,
                }
            }
            let of = &it.receiver;
            if !fixed(of) { return None; }
            let cl = match peel(f) { Expr::Closure(c) if c.inputs.len() == 1 && !has_return_e(&c.body) => c, _ => return None };
            let (p, c) = (match &cl.inputs[0] { Pat::Type(t) => &*t.pat, p => p }, &cl.body);
            self.n += 1;
            let id = |s: &str| Ident::new(&format!("{}__{}", s, self.n), proc_macro2::Span::call_site());
            let (k, x) = (id("n"), id("x"));
            return Some(if n == "position" {
                parse_quote!({ let mut #k = 0usize; for #p in #of.iter() { if #c { break; } #k += 1; } if #k < (#of).len() { Some(#k) } else { None } })
            } else {
                match p {
                    Pat::Reference(q) => { let q = &q.pat; parse_quote!({ let mut #k = 0usize; for #q in #of.iter() { if !(#c) { break; } #k += 1; } #k }) }
                    p => parse_quote!({ let mut #k = 0usize; for #x in #of.iter() { let #p = &#x; if !(#c) { break; } #k += 1; } #k }),
                }
            });
        }
        // `find` over a range of indices, likewise
        if n == "find" && a.len() == 1 {
            let rg = match peel(r) { Expr::Range(rg) => rg, _ => return None };
            let (lo, hi) = match (&rg.start, &rg.end) { (Some(l), Some(h)) => (l, h), _ => return None };
            let cl = match peel(a[0]) { Expr::Closure(c) if c.inputs.len() == 1 && !has_return_e(&c.body) => c, _ => return None };
            let (p, c) = (match &cl.inputs[0] { Pat::Type(t) => &*t.pat, p => p }, &cl.body);
            let q = match p { Pat::Reference(q) => &*q.pat, _ => return None };
            self.n += 1;
            let id = |s: &str| Ident::new(&format!("{}__{}", s, self.n), proc_macro2::Span::call_site());
            let (k, h) = (id("n"), id("hi"));
            let lt: BinOp = match rg.limits {
                RangeLimits::HalfOpen(_) => parse_quote!(<),
                // (one more than a length is no overflow)
                RangeLimits::Closed(_) if matches!(peel(hi), Expr::MethodCall(m) if m.method == "len") => parse_quote!(<=),
                _ => return None,
            };
            return Some(parse_quote!({ let mut #k = #lo; let #h = #hi; while #k #lt #h { let #q = #k; if #c { break; } #k += 1; } if #k #lt #h { Some(#k) } else { None } }));
        }
        // a range's `contains`: the comparisons it is defined as
        if n == "contains" && a.len() == 1 {
            if let Expr::Range(rg) = peel(r) {
                let x: Expr = match peel(a[0]) { Expr::Reference(r) if r.mutability.is_none() => (*r.expr).clone(), x => parse_quote!((*(#x))) };
                self.n += 1;
                let id = |s: &str| Ident::new(&format!("{}__{}", s, self.n), proc_macro2::Span::call_site());
                let (lo, hi, v) = (id("lo"), id("hi"), id("x"));
                fn plain(e: &Expr) -> bool { match peel(e) { Expr::Lit(_) | Expr::Path(_) => true, Expr::Unary(u) => plain(&u.expr), Expr::Cast(c) => plain(&c.expr), _ => false } }
                let mut lets: Vec<Stmt> = vec![];
                let mut take = |e: &Expr, i: &Ident| -> Expr { if plain(e) { match peel(e) { Expr::Lit(_) | Expr::Path(_) => e.clone(), e => parse_quote!((#e)) } } else { lets.push(parse_quote!(let #i = #e;)); parse_quote!(#i) } };
                let l = rg.start.as_ref().map(|e| take(e, &lo));
                let h = rg.end.as_ref().map(|e| take(e, &hi));
                let v = take(&x, &v);
                let c1: Option<Expr> = l.map(|l| parse_quote!((#l <= #v)));
                let c2: Option<Expr> = h.map(|h| match rg.limits { RangeLimits::HalfOpen(_) => parse_quote!((#v < #h)), RangeLimits::Closed(_) => parse_quote!((#v <= #h)) });
                let c: Expr = match (c1, c2) { (Some(a), Some(b)) => parse_quote!((#a && #b)), (Some(a), None) => a, (None, Some(b)) => b, (None, None) => parse_quote!(true) };
                return Some(if lets.is_empty() { c } else { parse_quote!({ #(#lets)* #c }) });
            }
        }
        let known = ["map", "and_then", "map_err", "map_or", "map_or_else", "unwrap_or_else", "ok_or_else", "filter", "is_some_and", "is_ok_and", "or_else"];
        if !known.contains(&n.as_str()) { return None; }
        let k = match n.as_str() {
            "ok_or_else" | "filter" | "is_some_and" => Kind::Opt,
            "map_err" | "is_ok_and" => Kind::Res,
            _ => self.kind(r)?,
        };
        self.n += 1;
        let e = Ident::new(&format!("e__{}", self.n), proc_macro2::Span::call_site());
        let d = Ident::new(&format!("d__{}", self.n), proc_macro2::Span::call_site());
        let (good, bad): (Ident, Pat) = match k { Kind::Opt => (parse_quote!(Some), parse_quote!(None)), Kind::Res => (parse_quote!(Ok), parse_quote!(Err(#e))) };
        let keep: Expr = match k { Kind::Opt => parse_quote!(None), Kind::Res => parse_quote!(Err(#e)) };
        Some(match (n.as_str(), a.len()) {
            ("map", 1) => { let (p, b) = self.apply(a[0])?; parse_quote!((match #r { #good(#p) => #good(#b), #bad => #keep })) }
            ("and_then", 1) => { let (p, b) = self.apply(a[0])?; parse_quote!((match #r { #good(#p) => #b, #bad => #keep })) }
            ("map_err", 1) => { let (p, b) = self.apply(a[0])?; parse_quote!((match #r { Ok(#d) => Ok(#d), Err(#p) => Err(#b) })) }
            ("map_or", 2) => {
                let (p, b) = self.apply(a[1])?;
                let z = a[0];
                let o = Ident::new(&format!("o__{}", self.n), proc_macro2::Span::call_site());
                parse_quote!({ let #o = #r; let #d = #z; match #o { #good(#p) => #b, #bad => #d } })
            }
            ("map_or_else", 2) => {
                let (p, b) = self.apply(a[1])?;
                match k {
                    Kind::Opt => { let z = self.thunk(a[0])?; parse_quote!((match #r { Some(#p) => #b, None => #z })) }
                    Kind::Res => { let (q, z) = self.apply(a[0])?; parse_quote!((match #r { Ok(#p) => #b, Err(#q) => #z })) }
                }
            }
            ("unwrap_or_else", 1) => match k {
                Kind::Opt => { let z = self.thunk(a[0])?; parse_quote!((match #r { Some(#d) => #d, None => #z })) }
                Kind::Res => { let (q, z) = self.apply(a[0])?; parse_quote!((match #r { Ok(#d) => #d, Err(#q) => #z })) }
            },
            ("or_else", 1) => match k {
                Kind::Opt => { let z = self.thunk(a[0])?; parse_quote!((match #r { Some(#d) => Some(#d), None => #z })) }
                Kind::Res => { let (q, z) = self.apply(a[0])?; parse_quote!((match #r { Ok(#d) => Ok(#d), Err(#q) => #z })) }
            },
            ("ok_or_else", 1) => { let z = self.thunk(a[0])?; parse_quote!((match #r { Some(#d) => Ok(#d), None => Err(#z) })) }
            ("filter", 1) => { let (p, b) = self.apply(a[0])?; parse_quote!((match #r { Some(#d) => { let #p = &#d; if #b { Some(#d) } else { None } } None => None })) }
            ("is_some_and", 1) => { let (p, b) = self.apply(a[0])?; parse_quote!((match #r { Some(#p) => #b, None => false })) }
            ("is_ok_and", 1) => { let (p, b) = self.apply(a[0])?; parse_quote!((match #r { Ok(#p) => #b, Err(_) => false })) }
            _ => return None,
        })
    }
}
/// `p` against the elements of `x`, a place of slice type: the condition and
/// the bindings (None: not a form known here).
fn slice_pat(p: &PatSlice, x: &Expr, by_value: bool) -> Option<(Expr, Vec<Stmt>)> {
    let n = p.elems.len();
    let rest = p.elems.iter().position(|q| matches!(q, Pat::Rest(_)) || matches!(q, Pat::Ident(i) if i.subpat.as_ref().map_or(false, |(_, s)| matches!(**s, Pat::Rest(_)))));
    let mut cond: Expr = match rest { None => parse_quote!(#x.len() == #n), Some(_) => { let k = n - 1; parse_quote!(#x.len() >= #k) } };
    let mut lets = vec![];
    for (i, q) in p.elems.iter().enumerate() {
        if Some(i) == rest {
            if let Pat::Ident(id) = q {
                let (id, lo) = (&id.ident, i);
                if i + 1 != n || by_value { return None; }
                lets.push(parse_quote!(let #id = &#x[#lo..];));
            }
            continue;
        }
        let at: Expr = match rest { Some(r) if i > r => { let back = n - i; parse_quote!(#x[#x.len() - #back]) } _ => parse_quote!(#x[#i]) };
        let (q, by_value) = match q { Pat::Reference(r) if !by_value => (&*r.pat, true), q => (q, by_value) };
        match q {
            Pat::Wild(_) => {}
            Pat::Ident(id) if id.subpat.is_none() && id.by_ref.is_none() => {
                if by_value { lets.push(parse_quote!(let #id = #at;)); } else { lets.push(parse_quote!(let #id = &#at;)); }
            }
            Pat::Lit(l) => { cond = parse_quote!((#cond) && #at == #l); }
            Pat::Range(_) | Pat::Or(_) | Pat::Paren(_) => { cond = parse_quote!(#cond && (match #at { #q => true, _ => false })); }
            _ => return None,
        }
    }
    Some((cond, lets))
}
fn slice_of(p: &Pat, scrut: &Expr) -> Option<(PatSlice, Expr, bool)> {
    match (p, peel(scrut)) {
        (Pat::Slice(s), Expr::Unary(ExprUnary { op: UnOp::Deref(_), expr, .. })) if matches!(peel(expr), Expr::Path(_)) => Some((s.clone(), (**expr).clone(), true)),
        (Pat::Slice(s), Expr::Path(_)) => Some((s.clone(), scrut.clone(), false)),
        (Pat::Reference(r), Expr::Path(_)) => match &*r.pat { Pat::Slice(s) => Some((s.clone(), scrut.clone(), true)), _ => None },
        _ => None,
    }
}
fn has_slice(p: &Pat) -> bool { match p { Pat::Slice(_) => true, Pat::Reference(r) => has_slice(&r.pat), _ => false } }
fn slice_match(m: &mut ExprMatch) -> bool {
    if !m.arms.iter().any(|a| has_slice(&a.pat)) { return true; }
    let scrut = (*m.expr).clone();
    let mut any = vec![];
    for a in m.arms.iter_mut() {
        if !has_slice(&a.pat) {
            if !matches!(a.pat, Pat::Wild(_)) { return false; }
            any.push(a.guard.is_none());
            continue;
        }
        let (s, x, v) = match slice_of(&a.pat, &scrut) { Some(t) => t, None => return false };
        let (c, lets) = match slice_pat(&s, &x, v) { Some(t) => t, None => return false };
        if let Some((_, g)) = a.guard.clone() {
            if !lets.is_empty() { return false; }
            a.guard = Some((Default::default(), Box::new(parse_quote!((#c) && (#g)))));
        } else {
            a.guard = Some((Default::default(), Box::new(c)));
        }
        a.pat = parse_quote!(_);
        let b = &a.body;
        a.body = Box::new(parse_quote!({ #(#lets)* #b }));
        a.comma = Some(Default::default());
        any.push(false);
    }
    // exhaustive by the lengths alone: leave it
    if !any.iter().any(|x| *x) { return false; }
    m.expr = Box::new(parse_quote!(()));
    true
}

/// An expression that can be evaluated twice.
fn twice(e: &Expr) -> bool {
    match peel(e) {
        Expr::Path(_) | Expr::Lit(_) => true,
        Expr::Field(f) => twice(&f.base),
        Expr::Reference(r) => r.mutability.is_none() && twice(&r.expr),
        Expr::Unary(ExprUnary { op: UnOp::Deref(_), expr, .. }) => twice(expr),
        Expr::Index(i) => twice(&i.expr) && twice(&i.index),
        Expr::Tuple(t) => t.elems.iter().all(twice),
        Expr::Cast(c) => twice(&c.expr),
        _ => false,
    }
}
/// `match x { P if g => b, .. }` without the guards: `match x { P => if g { b }
/// else { match x { .. } }, .. }`.  (Verus loses track of `&mut` parameters at
/// an exit inside a match that has guards.)
fn unguard(x: &Expr, arms: &[Arm]) -> Expr {
    let k = match arms.iter().position(|a| a.guard.is_some()) {
        None => {
            if let [a] = arms { if let Pat::Wild(_) = a.pat { return (*a.body).clone(); } }
            return parse_quote!((match #x { #(#arms)* }));
        }
        Some(k) => k,
    };
    let before = &arms[..k];
    let rest = &arms[k + 1..];
    let (p, g, b) = (&arms[k].pat, &arms[k].guard.as_ref().unwrap().1, &arms[k].body);
    // what is left when the guard does not hold
    let open = rest.iter().position(|a| matches!(a.pat, Pat::Wild(_)) && a.guard.is_none());
    let all: Vec<Arm> = match open { Some(o) => rest[..o + 1].to_vec(), None => before.iter().chain(rest).cloned().collect() };
    let els = unguard(x, &all);
    if let (Pat::Wild(_), true) = (p, before.is_empty()) { return parse_quote!((if #g { #b } else { #els })); }
    let mut out: Vec<Arm> = before.to_vec();
    out.push(parse_quote!(#p => { if #g { #b } else { #els } },));
    if matches!(p, Pat::Wild(_)) { return parse_quote!((match #x { #(#out)* })); }
    // the arms the pattern does not lead to
    let r: Vec<Arm> = match open { Some(o) => rest[..o + 1].to_vec(), None => rest.to_vec() };
    if r.iter().any(|a| a.guard.is_some()) {
        let tail = unguard(x, &all);
        out.push(parse_quote!(_ => #tail,));
    } else {
        out.extend(r);
    }
    parse_quote!((match #x { #(#out)* }))
}
fn idents(t: proc_macro2::TokenStream, out: &mut BTreeSet<String>) {
    for x in t {
        match x {
            proc_macro2::TokenTree::Ident(i) => { out.insert(i.to_string()); }
            proc_macro2::TokenTree::Group(g) => idents(g.stream(), out),
            _ => {}
        }
    }
}
/// Renames a binding throughout; None where a name could also be a field's.
fn rename(t: proc_macro2::TokenStream, from: &str, to: &str) -> Option<proc_macro2::TokenStream> {
    use proc_macro2::{Group, TokenTree};
    let ts: Vec<TokenTree> = t.into_iter().collect();
    let punct = |i: usize| match ts.get(i) { Some(TokenTree::Punct(p)) => p.as_char(), _ => ' ' };
    let mut out = vec![];
    for (i, x) in ts.iter().enumerate() {
        out.push(match x {
            TokenTree::Ident(id) if id == from => {
                // a range's dots are two
                let dot = i > 0 && punct(i - 1) == '.' && !(i > 1 && punct(i - 2) == '.');
                if punct(i + 1) == ':' || (i > 0 && punct(i - 1) == ':' && i > 1 && punct(i - 2) == ':') { return None; }
                if dot { x.clone() } else { TokenTree::Ident(Ident::new(to, id.span())) }
            }
            TokenTree::Group(g) => { let mut n = Group::new(g.delimiter(), rename(g.stream(), from, to)?); n.set_span(g.span()); TokenTree::Group(n) }
            x => x.clone(),
        });
    }
    Some(out.into_iter().collect())
}
/// Does a struct's literal or pattern name a field by a binding alone?
fn shorthand(a: &Arm) -> bool {
    struct S(bool);
    impl<'b> syn::visit::Visit<'b> for S {
        fn visit_field_value(&mut self, f: &'b FieldValue) { if f.colon_token.is_none() { self.0 = true; } syn::visit::visit_field_value(self, f); }
        fn visit_field_pat(&mut self, f: &'b FieldPat) { if f.colon_token.is_none() { self.0 = true; } syn::visit::visit_field_pat(self, f); }
    }
    let mut s = S(false);
    syn::visit::Visit::visit_arm(&mut s, a);
    s.0
}
fn bound(p: &Pat) -> Vec<String> {
    struct B(Vec<String>);
    impl<'b> syn::visit::Visit<'b> for B {
        fn visit_pat_ident(&mut self, i: &'b PatIdent) {
            let s = i.ident.to_string();
            if s.chars().next().map_or(false, |c| c.is_lowercase() || c == '_') { self.0.push(s); }
            syn::visit::visit_pat_ident(self, i);
        }
    }
    let mut b = B(vec![]);
    syn::visit::Visit::visit_pat(&mut b, p);
    b.0
}
fn unguard_match(m: &ExprMatch, n: &mut usize, errors: &mut Vec<String>) -> Option<Expr> {
    use quote::ToTokens;
    if m.arms.iter().all(|a| a.guard.is_none()) { return None; }
    let mut arms = m.arms.clone();
    for a in arms.iter_mut() { a.comma = Some(Default::default()); }
    // What a guarded arm binds must not hide what the rest speaks of.
    for k in 0..arms.len() {
        if arms[k].guard.is_none() { continue; }
        let mut others = BTreeSet::new();
        idents(m.expr.to_token_stream(), &mut others);
        for (j, a) in arms.iter().enumerate() { if j != k { idents(a.to_token_stream(), &mut others); } }
        for b in bound(&arms[k].pat) {
            if !others.contains(&b) { continue; }
            *n += 1;
            let to = format!("{}__g{}", b.trim_start_matches('_'), n);
            let fine = !shorthand(&arms[k]);
            match rename(arms[k].to_token_stream(), &b, &to).and_then(|t| syn::parse2::<Arm>(t).ok()) {
                Some(a) if fine => { arms[k] = a; }
                _ => { errors.push("a guard whose arm hides a name".into()); return None; }
            }
        }
    }
    // `()` is what a match on a slice's pattern has become
    if twice(&m.expr) || matches!(&*m.expr, Expr::Tuple(t) if t.elems.is_empty()) { return Some(unguard(&m.expr, &arms)); }
    *n += 1;
    let id = Ident::new(&format!("g__{}", n), proc_macro2::Span::call_site());
    let x = &m.expr;
    let e = unguard(&parse_quote!(#id), &arms);
    Some(parse_quote!({ let #id = #x; #e }))
}

impl<'a> VisitMut for Desugar<'a> {
    fn visit_block_mut(&mut self, b: &mut Block) {
        visit_mut::visit_block_mut(self, b);
        // a statement needs no `;` only without the parentheses
        for s in b.stmts.iter_mut() {
            if let Stmt::Expr(e, None) = s {
                while let Expr::Paren(p) = e {
                    if !matches!(&*p.expr, Expr::Match(_) | Expr::If(_) | Expr::Block(_) | Expr::Paren(_)) { break; }
                    *e = (*p.expr).clone();
                }
            }
        }
    }
    fn visit_local_mut(&mut self, l: &mut Local) {
        // let [a, b] = *x else { .. };
        if let (true, Some(init)) = (has_slice(&l.pat), &mut l.init) {
            if let Some((_, els)) = init.diverge.take() {
                let scrut = &init.expr;
                if let Some((s, _, _)) = slice_of(&l.pat, scrut) {
                    let ids: Vec<Ident> = s.elems.iter().filter_map(|q| match q { Pat::Ident(i) => Some(i.ident.clone()), _ => None }).collect();
                    let p = l.pat.clone();
                    let x: Expr = parse_quote!(match #scrut { #p => (#(#ids,)*), _ => #els });
                    init.expr = Box::new(x);
                    l.pat = parse_quote!((#(#ids,)*));
                } else {
                    init.diverge = Some((Default::default(), els));
                }
            }
        }
        visit_mut::visit_local_mut(self, l);
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        if let Expr::Block(b) = e {
            if let Some(l) = &b.label {
                if let Some(n) = crate::inline::unlabel(&l.name, &b.block) { *e = Expr::Block(ExprBlock { attrs: vec![], label: None, block: n }); }
            }
        }
        if let Expr::If(i) = e {
            if let Expr::Let(l) = &*i.cond {
                if has_slice(&l.pat) {
                    let (p, x, t) = (&l.pat, &l.expr, &i.then_branch);
                    let els: Expr = match &i.else_branch { Some((_, b)) => (**b).clone(), None => parse_quote!({}) };
                    *e = parse_quote!((match #x { #p => #t, _ => #els }));
                }
            }
        }
        let inner = match &mut *e { Expr::Paren(p) => &mut *p.expr, x => x };
        if let Expr::Match(m) = inner {
            let m0 = m.clone();
            if !slice_match(m) { *m = m0; }
            if let Some(x) = unguard_match(m, &mut self.n, &mut self.errors) { *e = x; }
        }
        match e {
            Expr::MethodCall(m) => {
                let m2 = m.clone();
                if let Some(x) = self.method(&m2) { *e = x; }
            }
            // (an element's place: the precondition is the index's)
            Expr::Unary(ExprUnary { op: UnOp::Deref(_), expr, .. }) => {
                if let Expr::MethodCall(m) = peel(expr) {
                    if (m.method == "get_unchecked_mut" || m.method == "get_unchecked") && m.args.len() == 1 && !matches!(peel(&m.args[0]), Expr::Range(_)) {
                        let (r, a) = (&m.receiver, &m.args[0]);
                        if matches!(peel(r), Expr::Path(_)) { *e = parse_quote!(#r[#a]); }
                    }
                }
            }
            Expr::Try(t) => {
                let x = &t.expr;
                self.n += 1;
                let id = Ident::new(&format!("q__{}", self.n), proc_macro2::Span::call_site());
                let er = Ident::new(&format!("e__{}", self.n), proc_macro2::Span::call_site());
                match self.ret {
                    Some(Kind::Opt) => *e = parse_quote!((match #x { Some(#id) => #id, None => return None })),
                    // the crate's error types convert only to themselves
                    Some(Kind::Res) => *e = parse_quote!((match #x { Ok(#id) => #id, Err(#er) => return Err(#er) })),
                    None => self.errors.push("? operator".into()),
                }
            }
            _ => {}
        }
    }
    /// A `?` inside a closure returns from the closure.
    fn visit_expr_closure_mut(&mut self, c: &mut ExprClosure) {
        let r = self.ret.take();
        visit_mut::visit_expr_closure_mut(self, c);
        self.ret = r;
    }
}

/// Replaces each local helper's body once, before anything is inlined.
pub fn run(c: &mut Crate) {
    let keys: Vec<String> = c.mods.keys().cloned().collect();
    for k in keys {
        let names: Vec<String> = c.mods[&k].fns.keys().cloned().collect();
        for n in names {
            let mut b = (*c.mods[&k].fns[&n].item.block).clone();
            let b0 = b.clone();
            let ret = ret_kind(&c.mods[&k].fns[&n].item.sig.output);
            let mut d = Desugar { c, m: &c.mods[&k], ret, n: 0, errors: vec![] };
            if std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| d.visit_block_mut(&mut b))).is_err() {
                d.errors.push("the extractor failed".into());
                b = b0;
            }
            let er = d.errors;
            let f = c.mods.get_mut(&k).unwrap().fns.get_mut(&n).unwrap();
            *f.item.block = b;
            f.errors = er;
        }
    }
}
