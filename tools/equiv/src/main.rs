//! equiv FILE SEED [class,class..|all] [percent]  -- rewrites FILE in place by
//! behaviour-preserving steps chosen at random.
use quote::{quote, ToTokens};
use std::collections::{BTreeMap, BTreeSet};
use syn::visit::{self, Visit};
use syn::visit_mut::{self, VisitMut};
use syn::*;

struct Rng(u64);
impl Rng {
    fn next(&mut self) -> u64 { self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15); let mut z = self.0; z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9); z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB); z ^ (z >> 31) }
}
struct M { r: Rng, on: Option<BTreeSet<String>>, pct: u64, k: usize, done: BTreeMap<String, usize>, types: BTreeMap<String, String>, helpers: Vec<Item>, closure: usize }

fn id(s: &str) -> Ident { Ident::new(s, proc_macro2::Span::call_site()) }
fn is_let(e: &Expr) -> bool { struct L(bool); impl<'a> Visit<'a> for L { fn visit_expr_let(&mut self, _: &'a ExprLet) { self.0 = true; } } let mut l = L(false); l.visit_expr(e); l.0 }
fn simple(e: &Expr) -> bool {
    // no control flow, blocks, macros, closures or assignments inside
    struct L(bool);
    impl<'a> Visit<'a> for L {
        fn visit_expr(&mut self, e: &'a Expr) {
            match e {
                Expr::If(_) | Expr::Match(_) | Expr::Block(_) | Expr::Loop(_) | Expr::While(_) | Expr::ForLoop(_) | Expr::Closure(_) | Expr::Macro(_) | Expr::Break(_) | Expr::Continue(_)
                | Expr::Return(_) | Expr::Assign(_) | Expr::Unsafe(_) | Expr::Let(_) | Expr::Try(_) | Expr::Reference(_) => self.0 = false,
                Expr::MethodCall(m) if m.method == "next" || m.method == "encode_utf8" || m.method == "unwrap" => self.0 = false,
                _ => {}
            }
            visit::visit_expr(self, e);
        }
    }
    let mut l = L(true); l.visit_expr(e); l.0
}
fn idents(t: &impl ToTokens) -> BTreeSet<String> {
    fn go(t: proc_macro2::TokenStream, o: &mut BTreeSet<String>) { for x in t { match x { proc_macro2::TokenTree::Ident(i) => { o.insert(i.to_string()); } proc_macro2::TokenTree::Group(g) => go(g.stream(), o), _ => {} } } }
    let mut o = BTreeSet::new(); go(t.to_token_stream(), &mut o); o
}
fn free_vars(e: &Expr) -> BTreeSet<String> {
    struct V(BTreeSet<String>);
    impl<'a> Visit<'a> for V { fn visit_expr_path(&mut self, p: &'a ExprPath) { if let Some(i) = p.path.get_ident() { self.0.insert(i.to_string()); } } }
    let mut v = V(BTreeSet::new()); v.visit_expr(e); v.0
}
fn blk(stmts: Vec<Stmt>) -> Block { Block { brace_token: Default::default(), stmts } }
fn target(s: &Stmt) -> Option<(String, Option<String>, BTreeSet<String>)> {
    // (variable written, index text, all identifiers)
    let e = match s { Stmt::Expr(e, Some(_)) => e, _ => return None };
    if let Expr::Assign(a) = e {
        if !simple(&a.right) { return None; }
        match &*a.left {
            Expr::Path(p) => return Some((p.path.get_ident()?.to_string(), None, idents(&a.right))),
            Expr::Index(ix) => {
                let b = match &*ix.expr { Expr::Path(p) => p.path.get_ident()?.to_string(), _ => return None };
                let mut i = idents(&a.right); i.extend(idents(&ix.index));
                let t = ix.index.to_token_stream().to_string();
                return Some((b, Some(t), i));
            }
            _ => return None,
        }
    }
    if let Expr::Binary(b) = e {
        if matches!(b.op, BinOp::AddAssign(_) | BinOp::SubAssign(_)) && simple(&b.right) {
            if let Expr::Path(p) = &*b.left { return Some((p.path.get_ident()?.to_string(), None, idents(&b.right))); }
        }
    }
    None
}
fn swappable(a: &Stmt, b: &Stmt) -> bool {
    let (x, y) = match (target(a), target(b)) { (Some(x), Some(y)) => (x, y), _ => return false };
    if x.0 == y.0 {
        // same buffer at o and o + k
        match (&x.1, &y.1) {
            (Some(i), Some(j)) => {
                let n = |s: &str| -> Option<(String, u64)> { match s.split_once(" + ") { None => Some((s.to_string(), 0)), Some((v, k)) => Some((v.to_string(), k.parse().ok()?)) } };
                return matches!((n(i), n(j)), (Some((v, p)), Some((w, q))) if v == w && p != q) && !x.2.contains(&x.0) && !y.2.contains(&x.0);
            }
            _ => return false,
        }
    }
    !x.2.contains(&y.0) && !y.2.contains(&x.0)
}
fn assigned_value(b: &Block, x: &Ident) -> Option<Block> {
    let mut b = b.clone();
    match b.stmts.last_mut() {
        Some(s @ Stmt::Expr(_, None)) => {
            let e = match s { Stmt::Expr(e, _) => e.clone(), _ => unreachable!() };
            if let Expr::If(i) = &e {
                *s = Stmt::Expr(Expr::If(assign_if(i, x)?), None);
            } else {
                *s = parse_quote!(#x = #e;);
            }
        }
        Some(Stmt::Expr(Expr::Return(_), _)) | Some(Stmt::Expr(Expr::Break(_), _)) | Some(Stmt::Expr(Expr::Continue(_), _)) => {}
        _ => return None,
    }
    Some(b)
}
fn assign_if(i: &ExprIf, x: &Ident) -> Option<ExprIf> {
    let mut n = i.clone();
    n.then_branch = assigned_value(&i.then_branch, x)?;
    let e = match &*i.else_branch.as_ref()?.1 {
        Expr::Block(b) => { let bb = assigned_value(&b.block, x)?; parse_quote!(#bb) }
        Expr::If(j) => Expr::If(assign_if(j, x)?),
        _ => return None,
    };
    n.else_branch = Some((Default::default(), Box::new(e)));
    Some(n)
}

impl M {
    fn go(&mut self, c: &str) -> bool {
        let h = self.r.next() % 100 < self.pct;
        if !h || self.on.as_ref().map_or(false, |o| !o.contains(c)) { return false; }
        *self.done.entry(c.into()).or_insert(0) += 1;
        true
    }
    fn fresh(&mut self, p: &str) -> Ident { self.k += 1; id(&format!("{}_{}", p, self.k)) }
    fn stmts(&mut self, b: &mut Block) {
        let mut out: Vec<Stmt> = vec![];
        let n = b.stmts.len();
        for (i, s) in std::mem::take(&mut b.stmts).into_iter().enumerate() {
            let last = i + 1 == n;
            match s {
                Stmt::Expr(Expr::If(mut f), semi) if !is_let(&f.cond) && simple(&f.cond) => {
                    if self.go("hoistcond") { let c = self.fresh("cond"); let e = &f.cond; out.push(parse_quote!(let #c = #e;)); f.cond = Box::new(parse_quote!(#c)); }
                    else if self.go("closurecond") { let c = self.fresh("check"); let e = &f.cond; out.push(parse_quote!(let #c = || #e;)); f.cond = Box::new(parse_quote!(#c())); }
                    out.push(Stmt::Expr(Expr::If(f), semi));
                }
                Stmt::Expr(Expr::Assign(mut a), semi) => {
                    if let Expr::Index(ix) = &mut *a.left {
                        if !matches!(&*ix.index, Expr::Range(_)) && simple(&ix.index) && self.go("hoistidx") { let c = self.fresh("at"); let e = &ix.index; out.push(parse_quote!(let #c = #e;)); ix.index = Box::new(parse_quote!(#c)); }
                        if simple(&a.right) && !matches!(&*a.right, Expr::Lit(_)) && self.go("hoistrhs") { let c = self.fresh("v"); let e = &a.right; out.push(parse_quote!(let #c = #e;)); a.right = Box::new(parse_quote!(#c)); }
                    }
                    out.push(Stmt::Expr(Expr::Assign(a), semi));
                }
                Stmt::Expr(Expr::Return(r), _) if r.expr.is_some() && self.go("retvar") => {
                    let c = self.fresh("ret"); let e = r.expr.unwrap();
                    out.push(parse_quote!(let #c = #e;)); out.push(parse_quote!(return #c;));
                }
                Stmt::Local(mut l) => {
                    let pi = match &l.pat { Pat::Ident(p) if p.by_ref.is_none() && p.subpat.is_none() => Some(p.clone()), _ => None };
                    let mut hand = false;
                    if let (Some(p), Some(init)) = (&pi, &mut l.init) {
                        if init.diverge.is_none() {
                            if let Expr::If(f) = &*init.expr {
                                if !is_let(&f.cond) && p.mutability.is_none() && self.go("deferinit") {
                                    if let Some(n) = assign_if(f, &p.ident) { let x = &p.ident; out.push(parse_quote!(let #x;)); out.push(Stmt::Expr(Expr::If(n), None)); hand = true; }
                                }
                            }
                            if !hand && !matches!(&*init.expr, Expr::Closure(_) | Expr::Array(_) | Expr::Repeat(_)) && self.go("shadow") {
                                let c = self.fresh("tmp"); let e = &init.expr; out.push(parse_quote!(let #c = #e;)); init.expr = Box::new(parse_quote!(#c));
                            }
                            if !hand && simple(&init.expr) && self.go("blockval") { let e = &init.expr; init.expr = Box::new(parse_quote!({ #e })); }
                        }
                    }
                    if !hand { out.push(Stmt::Local(l)); }
                }
                s => out.push(s),
            }
            if last { break; }
            if !matches!(out.last(), Some(Stmt::Expr(Expr::Return(_), _)) | Some(Stmt::Expr(Expr::Break(_), _)) | Some(Stmt::Item(_)) | None) && self.go("deadlet") {
                let c = self.fresh("_unused"); out.push(parse_quote!(let #c = ();));
            }
        }
        for i in 1..out.len() { if swappable(&out[i - 1], &out[i]) && self.go("swap") { out.swap(i - 1, i); } }
        for s in out.iter_mut() {
            if let Stmt::Expr(e, semi) = s {
                if !matches!(e, Expr::Block(_)) && (semi.is_some() || matches!(e, Expr::If(_) | Expr::While(_) | Expr::ForLoop(_))) && !matches!(e, Expr::Return(_) | Expr::Break(_) | Expr::Continue(_)) && self.go("wrap") {
                    let (x, y) = (e.clone(), *semi);
                    let st = Stmt::Expr(x, y);
                    *s = Stmt::Expr(parse_quote!({ #st }), None);
                }
            }
        }
        b.stmts = out;
    }
    fn loop_body(&mut self, b: &mut Block) {
        if let Some(Stmt::Expr(Expr::If(i), _)) = b.stmts.last().cloned() {
            if let (Some((_, e)), true) = (&i.else_branch, self.go("earlycont")) {
                let mut n = i.clone();
                n.else_branch = None;
                if let Some(Stmt::Expr(_, s)) = n.then_branch.stmts.last_mut() { *s = Some(Default::default()); }
                if !matches!(n.then_branch.stmts.last(), Some(Stmt::Expr(Expr::Break(_), _)) | Some(Stmt::Expr(Expr::Return(_), _))) { n.then_branch.stmts.push(parse_quote!(continue;)); }
                b.stmts.pop();
                b.stmts.push(Stmt::Expr(Expr::If(n), None));
                match &**e { Expr::Block(x) => b.stmts.extend(x.block.stmts.clone()), x => b.stmts.push(Stmt::Expr(x.clone(), None)) }
            }
        }
    }
}
fn lenof(e: &Expr) -> Option<String> {
    if let Expr::MethodCall(m) = e { if m.method == "len" { if let Expr::Path(p) = &*m.receiver { return p.path.get_ident().map(|i| i.to_string()); } } }
    None
}
impl VisitMut for M {
    fn visit_item_mod_mut(&mut self, m: &mut ItemMod) {
        if m.attrs.iter().any(|a| a.to_token_stream().to_string().contains("test")) { return; }
        visit_mut::visit_item_mod_mut(self, m);
    }
    fn visit_item_const_mut(&mut self, _: &mut ItemConst) {}
    fn visit_macro_mut(&mut self, _: &mut Macro) {}
    fn visit_attribute_mut(&mut self, _: &mut Attribute) {}
    fn visit_type_mut(&mut self, _: &mut Type) {}
    fn visit_item_fn_mut(&mut self, f: &mut ItemFn) {
        self.types.clear();
        for a in &f.sig.inputs {
            if let FnArg::Typed(t) = a { if let Pat::Ident(p) = &*t.pat { let s = t.ty.to_token_stream().to_string().replace("& 'a mut [", "& [").replace("& 'a", "&").replace("& mut", "&"); self.types.insert(p.ident.to_string(), s); } }
        }
        for (n, t) in [("input_i", "usize"), ("output_i", "usize"), ("offset", "usize"), ("c", "char"), ("code_1", "u16"), ("code_2", "u16"), ("byte", "u8"), ("is_end", "bool"), ("output_len", "usize"), ("valid_up_to", "usize")] {
            self.types.entry(n.into()).or_insert(t.into());
        }
        let params: Vec<String> = f.sig.inputs.iter().filter_map(|a| if let FnArg::Typed(t) = a { if let Pat::Ident(p) = &*t.pat { return Some(p.ident.to_string()); } None } else { None }).collect();
        let mut b = (*f.block).clone();
        // lengths
        for p in &params {
            if !["input", "out_buffer", "output"].contains(&p.as_str()) || !self.go("lenhoist") { continue; }
            struct L<'x>(&'x str, Ident, usize);
            impl<'x> VisitMut for L<'x> { fn visit_expr_mut(&mut self, e: &mut Expr) { if lenof(e).as_deref() == Some(self.0) { let i = &self.1; *e = parse_quote!(#i); self.2 += 1; } visit_mut::visit_expr_mut(self, e); } }
            let n = id(&format!("{}_len_0", p));
            let mut l = L(p, n.clone(), 0);
            l.visit_block_mut(&mut b);
            if l.2 > 0 { let pi = id(p); self.types.insert(n.to_string(), "usize".into()); b.stmts.insert(0, parse_quote!(let #n = #pi.len();)); }
        }
        if let Some(Stmt::Expr(e, None)) = b.stmts.last().cloned() {
            if !matches!(e, Expr::If(_) | Expr::Match(_)) && self.go("tailret") { b.stmts.pop(); b.stmts.push(parse_quote!(return #e;)); }
        }
        self.visit_block_mut(&mut b);
        if self.go("rename") {
            struct B(BTreeSet<String>);
            impl<'a> Visit<'a> for B { fn visit_pat_ident(&mut self, p: &'a PatIdent) { if p.ident.to_string().chars().all(|c| !c.is_uppercase()) { self.0.insert(p.ident.to_string()); } visit::visit_pat_ident(self, p); } }
            let mut s = B(BTreeSet::new());
            for a in &f.sig.inputs { s.visit_fn_arg(a); }
            s.visit_block(&b);
            struct R(BTreeSet<String>);
            impl VisitMut for R {
                fn visit_pat_ident_mut(&mut self, p: &mut PatIdent) { if self.0.contains(&p.ident.to_string()) { p.ident = id(&format!("r_{}", p.ident)); } visit_mut::visit_pat_ident_mut(self, p); }
                fn visit_expr_path_mut(&mut self, p: &mut ExprPath) { if let Some(i) = p.path.get_ident() { if self.0.contains(&i.to_string()) { let n = id(&format!("r_{}", i)); p.path = parse_quote!(#n); } } }
                fn visit_field_value_mut(&mut self, f: &mut FieldValue) { if f.colon_token.is_none() { f.colon_token = Some(Default::default()); } self.visit_expr_mut(&mut f.expr); }
                fn visit_macro_mut(&mut self, _: &mut Macro) {}
            }
            let mut r = R(s.0);
            for a in f.sig.inputs.iter_mut() { r.visit_fn_arg_mut(a); }
            r.visit_block_mut(&mut b);
        }
        *f.block = b;
    }
    fn visit_block_mut(&mut self, b: &mut Block) {
        visit_mut::visit_block_mut(self, b);
        self.stmts(b);
    }
    fn visit_expr_closure_mut(&mut self, c: &mut ExprClosure) { self.closure += 1; visit_mut::visit_expr_closure_mut(self, c); self.closure -= 1; }
    fn visit_expr_loop_mut(&mut self, l: &mut ExprLoop) { visit_mut::visit_expr_loop_mut(self, l); self.loop_body(&mut l.body); }
    fn visit_expr_for_loop_mut(&mut self, l: &mut ExprForLoop) { visit_mut::visit_expr_for_loop_mut(self, l); self.loop_body(&mut l.body); }
    fn visit_expr_while_mut(&mut self, l: &mut ExprWhile) { visit_mut::visit_expr_while_mut(self, l); self.loop_body(&mut l.body); }
    fn visit_pat_mut(&mut self, _: &mut Pat) {}
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        // arrays' lengths and statics stay
        if let Expr::Repeat(r) = e { self.visit_expr_mut(&mut r.expr); return; }
        if let Expr::Lit(ExprLit { lit: Lit::Int(i), .. }) = e {
            if let (Ok(v), true) = (i.base10_parse::<u64>(), self.go("lit")) {
                let t = i.to_string();
                let n = if t.starts_with("0x") || t.starts_with("0b") { format!("{}{}", v, i.suffix()) } else { format!("0x{:x}{}", v, i.suffix()) };
                let l = LitInt::new(&n, i.span());
                if !(i.suffix().starts_with('f')) { *e = parse_quote!(#l); }
            }
            return;
        }
        visit_mut::visit_expr_mut(self, e);
        match e.clone() {
            Expr::Binary(mut b) => {
                let (l, r) = (&b.left, &b.right);
                let pure = simple(l) && simple(r);
                let sw = |o: &BinOp| -> Option<BinOp> { Some(match o { BinOp::Lt(_) => parse_quote!(>), BinOp::Gt(_) => parse_quote!(<), BinOp::Le(_) => parse_quote!(>=), BinOp::Ge(_) => parse_quote!(<=), BinOp::Eq(_) => parse_quote!(==), BinOp::Ne(_) => parse_quote!(!=), _ => return None }) };
                let ng = |o: &BinOp| -> Option<BinOp> { Some(match o { BinOp::Lt(_) => parse_quote!(>=), BinOp::Gt(_) => parse_quote!(<=), BinOp::Le(_) => parse_quote!(>), BinOp::Ge(_) => parse_quote!(<), BinOp::Eq(_) => parse_quote!(!=), BinOp::Ne(_) => parse_quote!(==), _ => return None }) };
                if let (Some(o), true) = (sw(&b.op), pure) {
                    if self.go("cmp") { *e = parse_quote!((#r) #o (#l)); return; }
                    if self.go("notcmp") { let o = ng(&b.op).unwrap(); *e = parse_quote!(!((#l) #o (#r))); return; }
                }
                if let BinOp::AddAssign(_) = b.op { if self.go("opassign") { *e = parse_quote!(#l = #l + (#r)); return; } }
                if let (BinOp::Add(_), true) = (&b.op, pure) { if self.go("addswap") { *e = parse_quote!(((#r) + (#l))); return; } }
                if !is_let(e) {
                    if let BinOp::And(_) = b.op {
                        if self.go("demorgan") { *e = parse_quote!(!(!(#l) || !(#r))); return; }
                        if self.go("andif") { *e = parse_quote!((if #l { #r } else { false })); return; }
                    }
                    if let BinOp::Or(_) = b.op {
                        if self.go("demorgan") { *e = parse_quote!(!(!(#l) && !(#r))); return; }
                        if self.go("andif") { *e = parse_quote!((if #l { true } else { #r })); return; }
                    }
                }
                let _ = &mut b;
            }
            Expr::If(f) => {
                if let Expr::Let(l) = &*f.cond {
                    if let Some((_, x)) = &f.else_branch { if self.go("ifletmatch") { let (p, v, t) = (&l.pat, &l.expr, &f.then_branch); let x: Expr = if let Expr::Block(_) = &**x { (**x).clone() } else { parse_quote!({ #x }) }; *e = parse_quote!(match #v { #p => #t, _ => #x }); } }
                    return;
                }
                if is_let(&f.cond) { return; }
                let mut f = f;
                // a helper for the condition
                let fv = free_vars(&f.cond);
                if self.closure == 0 && simple(&f.cond) && fv.iter().all(|v| self.types.contains_key(v)) && !f.cond.to_token_stream().to_string().contains('\u{FFFD}') && self.go("helperfn") {
                    let h = self.fresh("helper");
                    let c = &f.cond;
                    let (mut ps, mut args) = (vec![], vec![]);
                    for v in &fv { let t: Type = parse_str(&self.types[v]).unwrap(); let i = id(v); ps.push(quote!(#i: #t)); args.push(i); }
                    self.helpers.push(parse_quote!(fn #h(#(#ps),*) -> bool { #c }));
                    f.cond = Box::new(parse_quote!(#h(#(#args),*)));
                }
                let (c, t) = (&f.cond, &f.then_branch);
                match &f.else_branch {
                    Some((_, x)) => {
                        let xb: Expr = if let Expr::Block(_) = &**x { (**x).clone() } else { parse_quote!({ #x }) };
                        if self.go("ifneg") { *e = parse_quote!(if !(#c) #xb else #t); return; }
                        if self.go("matchbool") { *e = parse_quote!(match #c { true => #t, false => #xb }); return; }
                        if let (Expr::If(g), true) = (&**x, self.go("guardmatch")) {
                            if !is_let(&g.cond) { if let Some((_, y)) = &g.else_branch { let (gc, gt) = (&g.cond, &g.then_branch); let yb: Expr = if let Expr::Block(_) = &**y { (**y).clone() } else { parse_quote!({ #y }) }; *e = parse_quote!(match () { _ if #c => #t, _ if #gc => #gt, _ => #yb }); return; } }
                        }
                        if let (Expr::If(_), true) = (&**x, self.go("elsenest")) { *e = parse_quote!(if #c #t else { #x }); return; }
                    }
                    None => {
                        if let Expr::Binary(b) = &**c { if let (BinOp::And(_), true) = (&b.op, self.go("nestand")) { let (l, r) = (&b.left, &b.right); *e = parse_quote!(if #l { if #r #t }); return; } }
                    }
                }
                *e = Expr::If(f);
            }
            Expr::While(w) if !is_let(&w.cond) => {
                let (c, b) = (&w.cond, &w.body.stmts);
                let lab = &w.label;
                if self.go("whileloop") { *e = parse_quote!(#lab loop { if !(#c) { break; } #(#b)* }); }
            }
            Expr::While(w) => {
                if let Expr::Let(l) = &*w.cond { let (p, x, b) = (&l.pat, &l.expr, &w.body); let lab = &w.label;
                    if self.go("whilematch") { *e = parse_quote!(#lab loop { match #x { #p => #b, _ => break } }); } }
            }
            Expr::ForLoop(f) => {
                let (p, x, b, lab) = (&f.pat, &f.expr, &f.body, &f.label);
                if matches!(&**x, Expr::MethodCall(_)) && self.go("forwhile") { let it = self.fresh("it"); *e = parse_quote!({ let mut #it = #x; #lab while let Some(#p) = #it.next() #b }); }
            }
            Expr::Cast(c) => {
                if let (Expr::Path(p), true) = (&*c.expr, c.ty.to_token_stream().to_string() == "u32") { if p.path.is_ident("c") && self.go("castfrom") { *e = parse_quote!(u32::from(c)); } }
            }
            Expr::Range(r) => {
                if r.start.is_none() && r.end.is_some() && self.go("range0") { let x = &r.end; *e = parse_quote!(0..#x); }
            }
            _ => {}
        }
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let src = std::fs::read_to_string(&a[1]).unwrap();
    let mut f = parse_file(&src).unwrap();
    let on = a.get(3).and_then(|s| if s == "all" { None } else { Some(s.split(',').map(|x| x.to_string()).collect()) });
    let mut m = M { r: Rng(a[2].parse().unwrap()), on, pct: a.get(4).map_or(25, |x| x.parse().unwrap()), k: 0, done: BTreeMap::new(), types: BTreeMap::new(), helpers: vec![], closure: 0 };
    m.visit_file_mut(&mut f);
    let h = std::mem::take(&mut m.helpers);
    f.items.extend(h);
    std::fs::write(&a[1], f.to_token_stream().to_string()).unwrap();
    println!("{}", m.done.iter().map(|(k, v)| format!("{}:{}", k, v)).collect::<Vec<_>>().join(" "));
}
