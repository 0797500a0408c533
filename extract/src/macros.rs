//! Expansion of the crate's own `macro_rules!`, before anything else looks at
//! the code.  What cannot be expanded here with certainty (hygiene, unknown
//! fragments) is left as it stands, and the function is then not translatable.
use proc_macro2::{Delimiter, Group, Ident, Spacing, TokenStream, TokenTree};
use std::collections::{BTreeMap, BTreeSet};
use syn::parse::{ParseStream, Parser};
use syn::visit_mut::{self, VisitMut};
use syn::*;

#[derive(Clone, Default)]
pub struct Rules(Vec<(Vec<P>, TokenStream)>);

#[derive(Clone)]
enum P {
    Tok(TokenTree),
    Group(Delimiter, Vec<P>),
    Var(String, String),
    Rep(Vec<P>, Option<TokenTree>, char),
}
#[derive(Clone)]
enum Bind {
    One(TokenStream),
    Many(Vec<BTreeMap<String, Bind>>),
}
type Binds = BTreeMap<String, Bind>;

fn same(a: &TokenTree, b: &TokenTree) -> bool {
    match (a, b) {
        (TokenTree::Ident(x), TokenTree::Ident(y)) => x == y,
        (TokenTree::Punct(x), TokenTree::Punct(y)) => x.as_char() == y.as_char(),
        (TokenTree::Literal(x), TokenTree::Literal(y)) => x.to_string() == y.to_string(),
        _ => false,
    }
}

fn pattern(ts: TokenStream) -> Option<Vec<P>> {
    let t: Vec<TokenTree> = ts.into_iter().collect();
    let (mut out, mut i) = (vec![], 0);
    while i < t.len() {
        match &t[i] {
            TokenTree::Punct(p) if p.as_char() == '$' => match t.get(i + 1)? {
                TokenTree::Ident(n) => {
                    match (t.get(i + 2)?, t.get(i + 3)?) {
                        (TokenTree::Punct(c), TokenTree::Ident(f)) if c.as_char() == ':' => out.push(P::Var(n.to_string(), f.to_string())),
                        _ => return None,
                    }
                    i += 4;
                }
                TokenTree::Group(g) if g.delimiter() == Delimiter::Parenthesis => {
                    let inner = pattern(g.stream())?;
                    i += 2;
                    let op = |x: &TokenTree| match x { TokenTree::Punct(p) if "*+?".contains(p.as_char()) => Some(p.as_char()), _ => None };
                    let (sep, o) = match op(t.get(i)?) {
                        Some(o) => (None, o),
                        None => { i += 1; (Some(t[i - 1].clone()), op(t.get(i)?)?) }
                    };
                    i += 1;
                    out.push(P::Rep(inner, sep, o));
                }
                _ => return None,
            },
            TokenTree::Group(g) => { out.push(P::Group(g.delimiter(), pattern(g.stream())?)); i += 1; }
            x => { out.push(P::Tok(x.clone())); i += 1; }
        }
    }
    Some(out)
}

impl Rules {
    pub fn parse(ts: TokenStream) -> Option<Rules> {
        let t: Vec<TokenTree> = ts.into_iter().collect();
        let (mut arms, mut i) = (vec![], 0);
        while i < t.len() {
            match (t.get(i)?, t.get(i + 1)?, t.get(i + 2)?, t.get(i + 3)?) {
                (TokenTree::Group(p), TokenTree::Punct(a), TokenTree::Punct(b), TokenTree::Group(body)) if a.as_char() == '=' && b.as_char() == '>' => arms.push((pattern(p.stream())?, body.stream())),
                _ => return None,
            }
            i += 4;
            if let Some(TokenTree::Punct(p)) = t.get(i) { if p.as_char() == ';' { i += 1; } }
        }
        Some(Rules(arms))
    }
}

/// One fragment off the front of the tokens; the rest.
fn fragment(f: &str, t: TokenStream) -> Option<(TokenStream, TokenStream)> {
    fn take<T: quote::ToTokens>(t: TokenStream, p: impl Fn(ParseStream) -> Result<T>) -> Option<(TokenStream, TokenStream)> {
        (|i: ParseStream| {
            let x = p(i)?;
            let rest: TokenStream = i.parse()?;
            Ok((quote::quote!(#x), rest))
        }).parse2(t).ok()
    }
    let first = t.clone().into_iter().next()?;
    let single = || {
        let mut i = t.clone().into_iter();
        let a = i.next().unwrap();
        Some((TokenStream::from(a), i.collect()))
    };
    match f {
        "tt" => single(),
        "ident" => if matches!(first, TokenTree::Ident(_)) { single() } else { None },
        "literal" => take(t, |i| i.parse::<Lit>()),
        "expr" => {
            let (e, rest) = take(t, |i| i.parse::<Expr>())?;
            let e = if e.clone().into_iter().count() == 1 { e } else { TokenTree::Group(Group::new(Delimiter::Parenthesis, e)).into() };
            Some((e, rest))
        }
        "ty" => take(t, |i| i.parse::<Type>()),
        "path" => take(t, |i| i.parse::<Path>()),
        "pat" => take(t, |i| Pat::parse_multi_with_leading_vert(i)),
        "block" => take(t, |i| i.parse::<Block>()),
        "lifetime" => take(t, |i| i.parse::<Lifetime>()),
        _ => None,
    }
}

fn matches(p: &[P], t: TokenStream, b: &mut Binds) -> Option<TokenStream> {
    let mut t = t;
    for x in p {
        match x {
            P::Tok(k) => {
                let mut i = t.into_iter();
                if !same(k, &i.next()?) { return None; }
                t = i.collect();
            }
            P::Group(d, q) => {
                let mut i = t.into_iter();
                match i.next()? {
                    TokenTree::Group(g) if g.delimiter() == *d => { if !matches(q, g.stream(), b)?.is_empty() { return None; } }
                    _ => return None,
                }
                t = i.collect();
            }
            P::Var(n, f) => {
                let (a, rest) = fragment(f, t)?;
                b.insert(n.clone(), Bind::One(a));
                t = rest;
            }
            P::Rep(q, sep, op) => {
                let mut all = vec![];
                loop {
                    let mut s = t.clone();
                    if !all.is_empty() {
                        if let Some(k) = sep {
                            let mut i = s.into_iter();
                            match i.next() { Some(x) if same(k, &x) => {} _ => break }
                            s = i.collect();
                        }
                    }
                    if s.is_empty() { break; }
                    let mut nb = Binds::new();
                    match matches(q, s, &mut nb) { Some(rest) => t = rest, None => break }
                    all.push(nb);
                    if *op == '?' { break; }
                }
                if *op == '+' && all.is_empty() { return None; }
                let mut vars = BTreeSet::new();
                names(q, &mut vars);
                for v in vars { b.insert(v, Bind::Many(all.clone())); }
            }
        }
    }
    Some(t)
}
fn names(p: &[P], out: &mut BTreeSet<String>) {
    for x in p {
        match x {
            P::Var(n, _) => { out.insert(n.clone()); }
            P::Group(_, q) | P::Rep(q, _, _) => names(q, out),
            _ => {}
        }
    }
}

fn transcribe(body: TokenStream, b: &Binds) -> Option<TokenStream> {
    let t: Vec<TokenTree> = body.into_iter().collect();
    let (mut out, mut i) = (TokenStream::new(), 0);
    while i < t.len() {
        match &t[i] {
            TokenTree::Punct(p) if p.as_char() == '$' => match t.get(i + 1)? {
                TokenTree::Ident(n) => {
                    match b.get(&n.to_string()) {
                        Some(Bind::One(x)) => out.extend(x.clone()),
                        Some(Bind::Many(_)) => return None,
                        None if n == "crate" => out.extend([TokenTree::Ident(Ident::new("crate", n.span()))]),
                        None => return None,
                    }
                    i += 2;
                }
                TokenTree::Group(g) => {
                    i += 2;
                    let op = |x: &TokenTree| match x { TokenTree::Punct(p) => "*+?".contains(p.as_char()), _ => false };
                    let sep = if op(t.get(i)?) { None } else { i += 1; if !op(t.get(i)?) { return None; } Some(t[i - 1].clone()) };
                    i += 1;
                    let mut used = BTreeSet::new();
                    vars(g.stream(), &mut used);
                    let all = used.iter().find_map(|v| match b.get(v) { Some(Bind::Many(a)) => Some(a.clone()), _ => None })?;
                    for (k, inner) in all.iter().enumerate() {
                        let mut nb = b.clone();
                        for v in &used { if let Some(Bind::Many(a)) = b.get(v) { if a.len() != all.len() { return None; } nb.insert(v.clone(), a[k].get(v)?.clone()); } }
                        let _ = inner;
                        if k > 0 { if let Some(s) = &sep { out.extend([s.clone()]); } }
                        out.extend(transcribe(g.stream(), &nb)?);
                    }
                }
                _ => return None,
            },
            TokenTree::Group(g) => {
                let mut n = Group::new(g.delimiter(), transcribe(g.stream(), b)?);
                n.set_span(g.span());
                out.extend([TokenTree::Group(n)]);
                i += 1;
            }
            x => { out.extend([x.clone()]); i += 1; }
        }
    }
    Some(out)
}
fn vars(t: TokenStream, out: &mut BTreeSet<String>) {
    let t: Vec<TokenTree> = t.into_iter().collect();
    for (i, x) in t.iter().enumerate() {
        match x {
            TokenTree::Punct(p) if p.as_char() == '$' => if let Some(TokenTree::Ident(n)) = t.get(i + 1) { out.insert(n.to_string()); },
            TokenTree::Group(g) => vars(g.stream(), out),
            _ => {}
        }
    }
}

/// The names in a macro's body that may refer to variables.
fn free(t: TokenStream, out: &mut BTreeSet<String>) {
    let t: Vec<TokenTree> = t.into_iter().collect();
    let punct = |i: usize, c: char| matches!(t.get(i), Some(TokenTree::Punct(p)) if p.as_char() == c);
    for (i, x) in t.iter().enumerate() {
        match x {
            TokenTree::Ident(n) => {
                let dollar = i > 0 && punct(i - 1, '$');
                let dot = i > 0 && punct(i - 1, '.') && !(i > 1 && punct(i - 2, '.'));
                let field = punct(i + 1, ':') && !matches!(&t[i + 1], TokenTree::Punct(p) if p.spacing() == Spacing::Joint);
                let path = punct(i + 1, ':') && !field || i > 0 && punct(i - 1, ':') && i > 1 && punct(i - 2, ':');
                if !dollar && !dot && !field && !path && !punct(i + 1, '!') { out.insert(n.to_string()); }
            }
            TokenTree::Group(g) => free(g.stream(), out),
            _ => {}
        }
    }
}
fn all_idents(t: TokenStream, out: &mut BTreeSet<String>) {
    for x in t {
        match x {
            TokenTree::Ident(n) => { out.insert(n.to_string()); }
            TokenTree::Group(g) => all_idents(g.stream(), out),
            _ => {}
        }
    }
}
struct Bound(BTreeMap<String, usize>);
impl VisitMut for Bound {
    fn visit_pat_ident_mut(&mut self, p: &mut PatIdent) { *self.0.entry(p.ident.to_string()).or_insert(0) += 1; visit_mut::visit_pat_ident_mut(self, p); }
}

pub struct Expand<'a> {
    pub path: &'a [String],
    pub known: &'a BTreeMap<(Vec<String>, String), Rules>,
    pub local: Vec<(String, Option<Rules>)>,
    pub bound: BTreeMap<String, usize>, // of the function at hand
    pub depth: usize,
}
impl<'a> Expand<'a> {
    pub fn new(path: &'a [String], known: &'a BTreeMap<(Vec<String>, String), Rules>) -> Self {
        Expand { path, known, local: vec![], bound: BTreeMap::new(), depth: 0 }
    }
    fn find(&self, m: &Macro) -> Option<(Rules, bool)> {
        let n = m.path.segments.last()?.ident.to_string();
        if m.path.segments.len() == 1 {
            if let Some((_, r)) = self.local.iter().rev().find(|(x, _)| *x == n) { return r.clone().map(|r| (r, true)); }
            for k in (0..=self.path.len()).rev() {
                if let Some(r) = self.known.get(&(self.path[..k].to_vec(), n.clone())) { return Some((r.clone(), false)); }
            }
        }
        let mut all = self.known.iter().filter(|((_, x), _)| *x == n);
        match (all.next(), all.next()) { (Some((_, r)), None) => Some((r.clone(), false)), _ => None }
    }
    /// What the macro's call stands for, and the names its body itself brings in.
    fn tokens(&self, m: &Macro) -> Option<(TokenStream, BTreeSet<String>)> {
        let (r, local) = self.find(m)?;
        if self.depth > 16 { return None; }
        for (p, body) in &r.0 {
            let mut b = Binds::new();
            match matches(p, m.tokens.clone(), &mut b) { Some(rest) if rest.is_empty() => {} _ => continue }
            let out = transcribe(body.clone(), &b)?;
            let (mut own, mut args) = (BTreeSet::new(), BTreeSet::new());
            free(body.clone(), &mut own);
            all_idents(m.tokens.clone(), &mut args);
            // names bound in what the call expands to
            let mut v = Bound(BTreeMap::new());
            match Block::parse_within.parse2(out.clone()) {
                Ok(mut s) => for x in s.iter_mut() { v.visit_stmt_mut(x); },
                Err(_) => match parse2::<File>(out.clone()) { Ok(mut f) => v.visit_file_mut(&mut f), Err(_) => return None },
            }
            let bound: BTreeSet<String> = v.0.keys().filter(|k| own.contains(*k)).cloned().collect();
            // hygiene: a name the body binds must not be one of the call's,
            // and one it does not bind must be no variable of the caller's
            if bound.iter().any(|x| args.contains(x)) { return None; }
            if own.iter().any(|x| !bound.contains(x) && self.bound.get(x).map_or(false, |n| !local || *n > 1)) { return None; }
            return Some((out, bound));
        }
        None
    }
    fn stmts(&self, m: &Macro) -> Option<(Vec<Stmt>, BTreeSet<String>)> {
        let (t, b) = self.tokens(m)?;
        Some((Block::parse_within.parse2(t).ok()?, b))
    }
    /// In item position.
    pub fn items(&self, m: &Macro) -> Option<Vec<Item>> {
        let (t, _) = self.tokens(m)?;
        parse2::<File>(t).ok().map(|f| f.items)
    }
    fn of_fn(&mut self, names: BTreeMap<String, usize>, f: impl FnOnce(&mut Self)) {
        let old = std::mem::replace(&mut self.bound, names);
        let l = std::mem::take(&mut self.local);
        f(self);
        self.bound = old;
        self.local = l;
    }
}
impl<'a> VisitMut for Expand<'a> {
    fn visit_item_fn_mut(&mut self, f: &mut ItemFn) {
        let mut v = Bound(BTreeMap::new());
        v.visit_item_fn_mut(f);
        self.of_fn(v.0, |s| visit_mut::visit_item_fn_mut(s, f));
    }
    fn visit_impl_item_fn_mut(&mut self, f: &mut ImplItemFn) {
        let mut v = Bound(BTreeMap::new());
        v.visit_impl_item_fn_mut(f);
        self.of_fn(v.0, |s| visit_mut::visit_impl_item_fn_mut(s, f));
    }
    fn visit_block_mut(&mut self, b: &mut Block) {
        let n = self.local.len();
        let mut out = vec![];
        for s in std::mem::take(&mut b.stmts) {
            match &s {
                Stmt::Item(Item::Macro(m)) if m.mac.path.is_ident("macro_rules") && m.ident.is_some() => {
                    self.local.push((m.ident.as_ref().unwrap().to_string(), Rules::parse(m.mac.tokens.clone())));
                    continue;
                }
                Stmt::Macro(m) => if let Some((st, own)) = self.stmts(&m.mac) {
                    let value = m.semi_token.is_none();
                    let lets: Vec<bool> = st.iter().filter_map(|x| match x {
                        Stmt::Local(l) => { let mut v = Bound(BTreeMap::new()); v.visit_pat_mut(&mut l.pat.clone()); Some(v.0.keys().all(|k| own.contains(k))) }
                        _ => None,
                    }).collect();
                    let mut blk = Block { brace_token: Default::default(), stmts: st };
                    self.depth += 1;
                    self.visit_block_mut(&mut blk);
                    self.depth -= 1;
                    if lets.iter().all(|x| *x) {
                        if blk.stmts.len() == 1 && !matches!(blk.stmts[0], Stmt::Local(_) | Stmt::Item(_)) {
                            match blk.stmts.remove(0) {
                                Stmt::Expr(e, None) if !value => out.push(Stmt::Expr(e, Some(Default::default()))),
                                x => out.push(x),
                            }
                        } else {
                            let e = Expr::Block(ExprBlock { attrs: vec![], label: None, block: blk });
                            out.push(Stmt::Expr(e, if value { None } else { Some(Default::default()) }));
                        }
                        continue;
                    }
                    if lets.iter().all(|x| !*x) && !value {
                        // the lets are the caller's own names
                        if let Some(l) = blk.stmts.last_mut() { if let Stmt::Expr(_, semi @ None) = l { *semi = Some(Default::default()); } }
                        out.extend(blk.stmts);
                        continue;
                    }
                },
                _ => {}
            }
            let mut s = s;
            self.visit_stmt_mut(&mut s);
            out.push(s);
        }
        b.stmts = out;
        self.local.truncate(n);
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Macro(m) = e {
            if let Some((st, _)) = self.stmts(&m.mac) {
                let mut x = match (st.len(), st.last()) {
                    (1, Some(Stmt::Expr(x, None))) => parse_quote!((#x)),
                    (1, Some(Stmt::Macro(k))) if k.semi_token.is_none() => Expr::Macro(ExprMacro { attrs: vec![], mac: k.mac.clone() }),
                    (1, Some(Stmt::Expr(x, Some(_)))) if matches!(x, Expr::Return(_) | Expr::Break(_) | Expr::Continue(_)) => x.clone(),
                    _ => return, // several statements are no expression
                };
                self.depth += 1;
                self.visit_expr_mut(&mut x);
                self.depth -= 1;
                *e = x;
                return;
            }
        }
        visit_mut::visit_expr_mut(self, e);
    }
}
