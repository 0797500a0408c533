//! Mechanical extractor: reads the Rust sources of the crate, and prints, as
//! JSON, every non-test function in the form Verus accepts, with markers where
//! loop contracts go.  It never looks at contracts; it only rewrites syntax.
//!
//! usage: extract REPO CONTRACTED TABLES_OUT
//!   CONTRACTED: comma separated flat names of helper functions that keep their
//!   own contract (all other local helpers are inlined into their callers).
//!   TABLES_OUT: file that receives the text of all table constants.

mod macros;
mod desugar;
mod inline;
mod print;
mod rewrite;

use std::collections::{BTreeMap, BTreeSet};
use std::path::{Path, PathBuf};
use syn::visit_mut::VisitMut;
use syn::*;

pub struct FnRec {
    pub item: ItemFn,
    pub file: String,
    pub errors: Vec<String>,
}
pub struct ConstRec {
    pub ty: Type,
    pub init: Expr,
    pub file: String,
}
#[derive(Default)]
pub struct Module {
    pub path: Vec<String>,
    pub fns: BTreeMap<String, FnRec>,
    pub consts: BTreeMap<String, ConstRec>,
    pub globs: Vec<Vec<String>>,          // `use a::b::*`, as written
    pub uses: BTreeMap<String, Vec<String>>, // name -> path as written
    pub other_items: Vec<String>,         // local macros, impls ... by kind
}
pub struct Crate {
    pub mods: BTreeMap<String, Module>, // key: "a::b", "" for the root
    pub types: Vec<String>,             // printed struct/enum/type items of the root
    pub problems: Vec<String>,
    pub enums: BTreeMap<String, Vec<String>>, // of the root: name -> variants
    pub root_types: BTreeSet<String>,
    pub local_types: Vec<(String, Item)>,
    pub macros: BTreeMap<(Vec<String>, String), macros::Rules>,
}

fn is_test(attrs: &[Attribute]) -> bool {
    attrs.iter().any(|a| {
        a.path().is_ident("test")
            || (a.path().is_ident("cfg") && quote::quote!(#a).to_string().contains("test"))
    })
}

fn flatten_use(t: &UseTree, pre: &mut Vec<String>, m: &mut Module) {
    match t {
        UseTree::Path(p) => {
            pre.push(p.ident.to_string());
            flatten_use(&p.tree, pre, m);
            pre.pop();
        }
        UseTree::Name(n) => {
            let mut v = pre.clone();
            v.push(n.ident.to_string());
            m.uses.insert(n.ident.to_string(), v);
        }
        UseTree::Rename(n) => {
            let mut v = pre.clone();
            v.push(n.ident.to_string());
            m.uses.insert(n.rename.to_string(), v);
        }
        UseTree::Glob(_) => m.globs.push(pre.clone()),
        UseTree::Group(g) => {
            for t in &g.items {
                flatten_use(t, pre, m);
            }
        }
    }
}

struct SelfName<'a>(&'a str);
impl<'a> VisitMut for SelfName<'a> {
    fn visit_ident_mut(&mut self, i: &mut Ident) {
        if i == "Self" { *i = Ident::new(self.0, i.span()); }
    }
}

/// A type local to a module, if all it is made of is known to the verifier.
struct Plain<'a>(bool, &'a BTreeSet<String>);
impl<'a> VisitMut for Plain<'a> {
    fn visit_type_mut(&mut self, t: &mut Type) {
        match t {
            Type::Path(p) if p.qself.is_none() && p.path.segments.len() == 1 => {
                let n = p.path.segments[0].ident.to_string();
                let prim = ["u8", "u16", "u32", "u64", "usize", "i8", "i16", "i32", "i64", "isize", "char", "bool", "str", "Option", "Result"];
                if !prim.contains(&n.as_str()) && !self.1.contains(&n) { self.0 = false; }
            }
            Type::Reference(r) => { if r.mutability.is_some() { self.0 = false; } }
            Type::Array(a) => { if !matches!(a.len, Expr::Lit(_)) { self.0 = false; } }
            Type::Slice(_) | Type::Tuple(_) => {}
            _ => self.0 = false,
        }
        visit_mut::visit_type_mut(self, t);
    }
}
fn derives(attrs: &[Attribute]) -> BTreeSet<String> {
    let mut out = BTreeSet::new();
    for a in attrs {
        if a.path().is_ident("derive") {
            let _ = a.parse_nested_meta(|m| { if let Some(i) = m.path.segments.last() { out.insert(i.ident.to_string()); } Ok(()) });
        }
    }
    out
}
struct TypeName<'a> { from: &'a str, to: &'a str }
impl<'a> VisitMut for TypeName<'a> {
    fn visit_ident_mut(&mut self, i: &mut Ident) { if i == self.from { *i = Ident::new(self.to, i.span()); } }
}
/// The types local to the modules, each once its parts are known.  Where
/// two modules use a name, it gets the module's path.
fn local_types(c: &mut Crate) {
    let mut work: Vec<Item> = vec![];
    let mut seen: BTreeMap<String, usize> = BTreeMap::new();
    let name = |it: &Item| match it { Item::Struct(s) => s.ident.to_string(), Item::Enum(s) => s.ident.to_string(), _ => String::new() };
    for (_, it) in &c.local_types { *seen.entry(name(it)).or_insert(0) += 1; }
    let mut known: BTreeSet<String> = c.root_types.clone();
    for j in 0..c.local_types.len() {
        let (key, it) = c.local_types[j].clone();
        let n = name(&it);
        let mut it = it;
        if seen[&n] > 1 || known.contains(&n) {
            // several modules use the name: each gets its own
            let full = flat(&key, &n);
            if c.local_types.iter().filter(|(k, i)| *k == key && name(i) == n).count() > 1 { continue; }
            let mut v = TypeName { from: &n, to: &full };
            v.visit_item_mut(&mut it);
            let m = c.mods.get_mut(&key).unwrap();
            for f in m.fns.values_mut() { v.visit_item_fn_mut(&mut f.item); }
            for k in m.consts.values_mut() { v.visit_expr_mut(&mut k.init); v.visit_type_mut(&mut k.ty); }
            let mut others = vec![];
            for (k, i) in c.local_types.iter_mut() { if *k == key { others.push(i); } }
            for i in others { if name(i) != n { v.visit_item_mut(i); } }
        }
        work.push(it);
    }
    loop {
        let mut rest = vec![];
        let mut moved = false;
        for mut it in std::mem::take(&mut work) {
            let mut v = Plain(true, &known);
            let mut it0 = it.clone();
            let (name, d, unit) = match &mut it0 {
                Item::Struct(s) => { let d = derives(&s.attrs); s.attrs.clear(); v.0 = s.generics.type_params().count() == 0 && s.generics.const_params().count() == 0; for f in s.fields.iter_mut() { f.attrs.clear(); f.vis = parse_quote!(pub); v.visit_type_mut(&mut f.ty); } s.vis = parse_quote!(pub); (s.ident.to_string(), d, false) }
                Item::Enum(s) => {
                    let d = derives(&s.attrs); s.attrs.clear(); v.0 = s.generics.type_params().count() == 0 && s.generics.const_params().count() == 0;
                    for x in s.variants.iter_mut() { x.attrs.clear(); if x.discriminant.is_some() { v.0 = false; } for f in x.fields.iter_mut() { f.attrs.clear(); v.visit_type_mut(&mut f.ty); } }
                    s.vis = parse_quote!(pub);
                    (s.ident.to_string(), d, s.variants.iter().all(|x| x.fields.is_empty()))
                }
                _ => continue,
            };
            if !v.0 { rest.push(it); continue; }
            moved = true;
            let mut head: Vec<&str> = vec![];
            if d.contains("Copy") { head.extend(["Clone", "Copy"].iter()); }
            if unit && d.contains("PartialEq") && d.contains("Eq") { head.extend(["PartialEq", "Eq", "Structural"].iter()); }
            let mut text = print::plain(quote::quote!(#it0));
            if !head.is_empty() { text = format!("#[derive({})]\n{}", head.join(", "), text); }
            c.types.push(text);
            if let Item::Enum(s) = &mut it { c.enums.insert(name.clone(), s.variants.iter().map(|v| v.ident.to_string()).collect()); }
            known.insert(name);
        }
        work = rest;
        if !moved || work.is_empty() { break; }
    }
}

struct Hoist<'a> { taken: &'a mut BTreeSet<String>, types: Vec<Item>, fns: Vec<ItemFn>, consts: Vec<(String, Type, Expr)>, uses: Vec<UseTree> }
impl<'a> VisitMut for Hoist<'a> {
    fn visit_block_mut(&mut self, b: &mut Block) {
        let mut out = vec![];
        for s in std::mem::take(&mut b.stmts) {
            match s {
                Stmt::Item(Item::Fn(f)) if self.taken.insert(f.sig.ident.to_string()) => self.fns.push(f),
                Stmt::Item(Item::Const(k)) if self.taken.insert(k.ident.to_string()) => self.consts.push((k.ident.to_string(), *k.ty, *k.expr)),
                Stmt::Item(Item::Static(k)) if self.taken.insert(k.ident.to_string()) => self.consts.push((k.ident.to_string(), *k.ty, *k.expr)),
                Stmt::Item(it @ Item::Enum(_)) | Stmt::Item(it @ Item::Struct(_)) => self.types.push(it),
                Stmt::Item(Item::Use(u)) => {
                    let mut m = Module::default();
                    flatten_use(&u.tree, &mut vec![], &mut m);
                    if m.globs.is_empty() && m.uses.keys().all(|n| !self.taken.contains(n)) {
                        self.taken.extend(m.uses.keys().cloned());
                        self.uses.push(u.tree);
                    } else { out.push(Stmt::Item(Item::Use(u))); }
                }
                s => out.push(s),
            }
        }
        b.stmts = out;
        syn::visit_mut::visit_block_mut(self, b);
    }
}

/// Constants of core, by value.
struct CoreConsts<'a>(&'a BTreeMap<String, Vec<String>>);
impl<'a> CoreConsts<'a> {
    fn value(&self, p: &syn::Path) -> Option<Expr> {
        let mut s: Vec<String> = p.segments.iter().map(|x| x.ident.to_string()).collect();
        if let Some(u) = self.0.get(&s[0]) {
            if u[0] == "core" || u[0] == "std" { let mut v = u.clone(); v.extend(s.drain(1..)); s = v; }
        }
        let rooted = s[0] == "core" || s[0] == "std";
        if s.len() != if rooted { 3 } else { 2 } { return None; }
        let (ty, name) = (s[s.len() - 2].as_str(), s[s.len() - 1].as_str());
        match (ty, name) {
            ("char", "REPLACEMENT_CHARACTER") => Some(parse_quote!('\u{FFFD}')),
            ("char", "MAX") => Some(parse_quote!('\u{10FFFF}')),
            ("u8" | "u16" | "u32" | "u64" | "usize" | "i8" | "i16" | "i32" | "i64" | "isize", "MAX" | "MIN") if rooted => {
                let (t, n) = (Ident::new(ty, proc_macro2::Span::call_site()), Ident::new(name, proc_macro2::Span::call_site()));
                Some(parse_quote!(#t::#n))
            }
            _ => None,
        }
    }
}
impl<'a> VisitMut for CoreConsts<'a> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Path(p) = e { if p.qself.is_none() { if let Some(x) = self.value(&p.path) { *e = x; } } }
        visit_mut::visit_expr_mut(self, e);
    }
    fn visit_pat_mut(&mut self, q: &mut Pat) {
        if let Pat::Path(p) = q {
            if let Some(Expr::Lit(l)) = self.value(&p.path) { *q = Pat::Lit(l); }
        }
        visit_mut::visit_pat_mut(self, q);
    }
}

fn load(c: &mut Crate, path: Vec<String>, items: Vec<Item>, file: &Path, dir: &Path) {
    let mut m = Module { path: path.clone(), ..Default::default() };
    let mut work: Vec<(Vec<Item>, PathBuf)> = vec![(items, file.to_path_buf())];
    let mut depth = 0;
    while let Some((items, file)) = work.pop() {
        let fname = file.display().to_string();
        for it in &items {
            if let Item::Macro(ItemMacro { ident: Some(n), mac, .. }) = it {
                if let Some(r) = macros::Rules::parse(mac.tokens.clone()) { 
                    // defined twice: which one a call means is not decided here
                    if c.macros.insert((path.clone(), n.to_string()), r).is_some() { c.macros.insert((path.clone(), n.to_string()), Default::default()); }
                }
            }
        }
        for mut it in items {
            macros::Expand::new(&path, &c.macros).visit_item_mut(&mut it);
            match it {
                Item::Fn(f) => {
                    if !is_test(&f.attrs) {
                        m.fns.insert(f.sig.ident.to_string(), FnRec { item: f, file: fname.clone(), errors: vec![] });
                    }
                }
                Item::Const(k) => {
                    if !is_test(&k.attrs) {
                        m.consts.insert(k.ident.to_string(), ConstRec { ty: *k.ty, init: *k.expr, file: fname.clone() });
                    }
                }
                Item::Static(k) => {
                    if !is_test(&k.attrs) {
                        m.consts.insert(k.ident.to_string(), ConstRec { ty: *k.ty, init: *k.expr, file: fname.clone() });
                    }
                }
                Item::Use(u) => flatten_use(&u.tree, &mut vec![], &mut m),
                Item::Macro(mac) => {
                    if mac.mac.path.is_ident("include") {
                        let lit: LitStr = match mac.mac.parse_body() {
                            Ok(l) => l,
                            Err(_) => {
                                c.problems.push(format!("{}: include! of a non-literal", fname));
                                continue;
                            }
                        };
                        let p = file.parent().unwrap().join(lit.value());
                        match std::fs::read_to_string(&p).map_err(|e| e.to_string()).and_then(|s| parse_file(&s).map_err(|e| e.to_string())) {
                            Ok(f) => work.push((f.items, p)),
                            Err(e) => c.problems.push(format!("{}: {}", p.display(), e)),
                        }
                    } else if let Some(items) = if mac.ident.is_none() { macros::Expand::new(&path, &c.macros).items(&mac.mac) } else { None } {
                        depth += 1;
                        if depth < 1000 { work.push((items, file.clone())); }
                    } else {
                        m.other_items.push(format!("macro {}", mac.mac.path.segments.last().unwrap().ident));
                    }
                }
                Item::Mod(md) => {
                    if is_test(&md.attrs) {
                        continue;
                    }
                    let mut p2 = path.clone();
                    p2.push(md.ident.to_string());
                    if let Some((_, items)) = md.content {
                        load(c, p2, items, &file, dir);
                    } else {
                        let mut cand = vec![];
                        if path.is_empty() {
                            cand.push(dir.join(format!("{}.rs", md.ident)));
                            cand.push(dir.join(md.ident.to_string()).join("mod.rs"));
                        } else {
                            let d = dir.join(path.join("/"));
                            cand.push(d.join(format!("{}.rs", md.ident)));
                            cand.push(d.join(md.ident.to_string()).join("mod.rs"));
                        }
                        for a in &md.attrs {
                            if a.path().is_ident("path") {
                                if let Meta::NameValue(nv) = &a.meta {
                                    if let Expr::Lit(ExprLit { lit: Lit::Str(s), .. }) = &nv.value {
                                        cand.insert(0, file.parent().unwrap().join(s.value()));
                                    }
                                }
                            }
                        }
                        match cand.iter().find(|p| p.exists()) {
                            Some(p) => match std::fs::read_to_string(p).map_err(|e| e.to_string()).and_then(|s| parse_file(&s).map_err(|e| e.to_string())) {
                                Ok(f) => load(c, p2, f.items, &p.clone(), dir),
                                Err(e) => c.problems.push(format!("{}: {}", p.display(), e)),
                            },
                            None => c.problems.push(format!("module {} not found", p2.join("::"))),
                        }
                    }
                }
                Item::Struct(mut s) => {
                    if path.is_empty() { c.root_types.insert(s.ident.to_string()); }
                    else { c.local_types.push((path.join("::"), Item::Struct(s.clone()))); }
                    s.attrs.clear();
                    for f in s.fields.iter_mut() { f.attrs.clear(); }
                    if path.is_empty() { c.types.push(print::plain(quote::quote!(#s))); }
                    else { m.other_items.push(format!("struct {}", s.ident)); }
                }
                Item::Enum(mut s) => {
                    if path.is_empty() { c.root_types.insert(s.ident.to_string()); }
                    else { c.local_types.push((path.join("::"), Item::Enum(s.clone()))); }
                    s.attrs.clear();
                    for v in s.variants.iter_mut() { v.attrs.clear(); }
                    if path.is_empty() {
                        c.enums.insert(s.ident.to_string(), s.variants.iter().map(|v| v.ident.to_string()).collect());
                        c.types.push(print::plain(quote::quote!(#s)));
                    } else { m.other_items.push(format!("enum {}", s.ident)); }
                }
                Item::Type(mut s) => {
                    if path.is_empty() { c.root_types.insert(s.ident.to_string()); }
                    s.attrs.clear();
                    if path.is_empty() { c.types.push(print::plain(quote::quote!(#s))); }
                    else { m.other_items.push(format!("type {}", s.ident)); }
                }
                Item::Impl(im) => {
                    // associated functions of a type: a module of the type's name
                    let ty = match &*im.self_ty { Type::Path(p) if p.qself.is_none() && p.path.segments.len() == 1 && p.path.segments[0].arguments.is_empty() => Some(p.path.segments[0].ident.to_string()), _ => None };
                    if let (None, Some(ty)) = (&im.trait_, ty) {
                        let mut p2 = path.clone();
                        p2.push(ty.clone());
                        let mut sub = c.mods.remove(&p2.join("::")).unwrap_or(Module { path: p2.clone(), ..Default::default() });
                        sub.globs.push(vec!["super".into()]);
                        for ii in im.items {
                            if let ImplItem::Const(k) = &ii {
                                let (mut ty2, mut init) = (k.ty.clone(), k.expr.clone());
                                SelfName(&ty).visit_type_mut(&mut ty2);
                                SelfName(&ty).visit_expr_mut(&mut init);
                                sub.consts.insert(k.ident.to_string(), ConstRec { ty: ty2, init, file: fname.clone() });
                            }
                            if let ImplItem::Fn(f) = ii {
                                if f.sig.receiver().is_none() && !is_test(&f.attrs) {
                                    let mut item = ItemFn { attrs: vec![], vis: f.vis, sig: f.sig, block: Box::new(f.block) };
                                    SelfName(&ty).visit_item_fn_mut(&mut item);
                                    sub.fns.insert(item.sig.ident.to_string(), FnRec { item, file: fname.clone(), errors: vec![] });
                                }
                            }
                        }
                        c.mods.insert(p2.join("::"), sub);
                    }
                    m.other_items.push("impl".into())
                }
                Item::Trait(t) => m.other_items.push(format!("trait {}", t.ident)),
                _ => {}
            }
        }
    }
    // Items inside a function's body: as the module's, where no name clashes.
    let names: Vec<String> = m.fns.keys().cloned().collect();
    let mut taken: BTreeSet<String> = names.iter().cloned().chain(m.consts.keys().cloned()).chain(m.uses.keys().cloned()).collect();
    for n in names {
        let mut h = Hoist { taken: &mut taken, types: vec![], fns: vec![], consts: vec![], uses: vec![] };
        h.visit_item_fn_mut(&mut m.fns.get_mut(&n).unwrap().item);
        let (fns, consts, uses) = (h.fns, h.consts, h.uses);
        c.local_types.extend(h.types.into_iter().map(|t| (path.join("::"), t)));
        let f = m.fns[&n].file.clone();
        for x in fns { m.fns.insert(x.sig.ident.to_string(), FnRec { item: x, file: f.clone(), errors: vec![] }); }
        for (k, ty, init) in consts { m.consts.insert(k, ConstRec { ty, init, file: f.clone() }); }
        for u in uses { flatten_use(&u, &mut vec![], &mut m); }
    }
    let uses = m.uses.clone();
    let mut v = CoreConsts(&uses);
    for f in m.fns.values_mut() { v.visit_item_fn_mut(&mut f.item); }
    for k in m.consts.values_mut() { v.visit_expr_mut(&mut k.init); }
    c.mods.insert(path.join("::"), m);
}

impl Crate {
    /// A variant of one of the crate's enums imported by name.
    pub fn variant(&self, m: &Module, name: &str) -> Option<String> {
        let of = |u: &[String]| u.len() >= 1 && self.enums.get(&u[u.len() - 1]).map_or(false, |v| v.iter().any(|x| x == name));
        if let Some(u) = m.uses.get(name) {
            return if u.len() >= 2 && u[u.len() - 1] == name && of(&u[..u.len() - 1]) { Some(u[u.len() - 2].clone()) } else { None };
        }
        m.globs.iter().find(|g| of(g)).map(|g| g[g.len() - 1].clone())
    }
    /// Resolve a path written in module `m` to (module key, item name), if the
    /// item (fn or const) is defined in this crate.
    pub fn resolve(&self, m: &Module, segs: &[String], depth: usize) -> Option<(String, String)> {
        if depth > 6 || segs.is_empty() {
            return None;
        }
        let name = segs.last().unwrap().clone();
        let has = |md: &Module| md.fns.contains_key(&name) || md.consts.contains_key(&name);
        if segs.len() == 1 {
            if has(m) {
                return Some((m.path.join("::"), name));
            }
            if let Some(u) = m.uses.get(&name) {
                if u.len() > 1 || u[0] != name {
                    if let Some(r) = self.resolve_path(m, u, depth + 1) { return Some(r); }
                }
                // edition 2015: `use` paths are relative to the crate root
                if let Some(r) = self.resolve_path(&self.mods[""], u, depth + 1) { return Some(r); }
            }
            for g in &m.globs {
                let mut s = g.clone();
                s.push(name.clone());
                if let Some(r) = self.resolve_path(m, &s, depth + 1) { return Some(r); }
            }
            return None;
        }
        self.resolve_path(m, segs, depth)
    }
    fn resolve_path(&self, m: &Module, segs: &[String], depth: usize) -> Option<(String, String)> {
        let mut cur: Vec<String> = m.path.clone();
        let mut i = 0;
        let mut absolute = false;
        while i + 1 < segs.len() {
            match segs[i].as_str() {
                "self" => {}
                "super" => { cur.pop(); }
                "crate" => { cur = vec![]; absolute = true; }
                s => {
                    let mut c2 = cur.clone();
                    c2.push(s.to_string());
                    if self.mods.contains_key(&c2.join("::")) { cur = c2; }
                    else if i == 0 && self.mods.contains_key(s) && !absolute { cur = vec![s.to_string()]; }
                    else { return None; }
                }
            }
            i += 1;
        }
        let md = self.mods.get(&cur.join("::"))?;
        let name = segs.last().unwrap();
        if md.fns.contains_key(name) || md.consts.contains_key(name) {
            return Some((cur.join("::"), name.clone()));
        }
        if cur != m.path {
            return self.resolve(md, &[name.clone()], depth + 1);
        }
        None
    }
}

/// The crate root's types, by their names alone however they are reached.
struct RootPath<'a> { types: &'a BTreeSet<String>, uses: &'a BTreeMap<String, Vec<String>> }
impl<'a> VisitMut for RootPath<'a> {
    fn visit_path_mut(&mut self, p: &mut syn::Path) {
        visit_mut::visit_path_mut(self, p);
        let segs: Vec<String> = p.segments.iter().map(|s| s.ident.to_string()).collect();
        let n = segs.iter().take_while(|s| ["crate", "super", "self"].contains(&s.as_str())).count();
        if n < segs.len() && (n > 0 || p.leading_colon.is_some()) && self.types.contains(&segs[n]) {
            p.segments = p.segments.iter().skip(n).cloned().collect();
            p.leading_colon = None;
        } else if n == 0 && p.leading_colon.is_none() {
            // `use DecodeError as Error;`
            if let Some(u) = self.uses.get(&segs[0]) {
                let root = u[..u.len() - 1].iter().all(|s| ["crate", "super", "self"].contains(&s.as_str()));
                if root && u[u.len() - 1] != segs[0] && self.types.contains(&u[u.len() - 1]) { p.segments[0].ident = Ident::new(&u[u.len() - 1], p.segments[0].ident.span()); }
            }
        }
    }
}
fn root_paths(c: &mut Crate) {
    let local: BTreeSet<String> = c.local_types.iter().map(|(_, i)| match i { Item::Struct(s) => s.ident.to_string(), Item::Enum(s) => s.ident.to_string(), _ => String::new() }).collect();
    let types: BTreeSet<String> = c.root_types.iter().filter(|t| !local.contains(*t)).cloned().collect();
    for m in c.mods.values_mut() {
        let mut v = RootPath { types: &types, uses: &m.uses };
        for f in m.fns.values_mut() { v.visit_item_fn_mut(&mut f.item); }
        for k in m.consts.values_mut() { v.visit_type_mut(&mut k.ty); v.visit_expr_mut(&mut k.init); }
    }
    for (_, i) in c.local_types.iter_mut() { RootPath { types: &types, uses: &BTreeMap::new() }.visit_item_mut(i); }
}

pub fn flat(key: &str, name: &str) -> String {
    if key.is_empty() { name.to_string() } else { format!("{}__{}", key.replace("::", "__"), name) }
}

fn is_table(ty: &Type) -> bool {
    match ty {
        Type::Array(a) => match &*a.elem {
            Type::Path(p) => p.path.is_ident("char"),
            Type::Tuple(_) => true,
            _ => false,
        },
        _ => false,
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let repo = PathBuf::from(&a[1]);
    let contracted: BTreeSet<String> = a[2].split(',').filter(|s| !s.is_empty()).map(|s| s.to_string()).collect();
    let src = repo.join("src");
    let root = src.join("lib.rs");
    let mut c = Crate { mods: BTreeMap::new(), types: vec![], problems: vec![], enums: BTreeMap::new(), root_types: BTreeSet::new(), local_types: vec![], macros: BTreeMap::new() };
    let f = parse_file(&std::fs::read_to_string(&root).expect("lib.rs")).expect("parse lib.rs");
    load(&mut c, vec![], f.items, &root, &src);
    root_paths(&mut c);
    local_types(&mut c);
    desugar::run(&mut c);

    // Tables.
    if let Some(out) = a.get(3) {
        let mut s = String::new();
        let mut list = String::new();
        for (key, m) in &c.mods {
            for (n, k) in &m.consts {
                if is_table(&k.ty) {
                    let (ty, init) = (&k.ty, &k.init);
                    s.push_str(&format!("pub static {}: {} = {};\n", flat(key, n).to_uppercase(), print::plain(quote::quote!(#ty)), print::plain(quote::quote!(#init))));
                    list.push_str(&format!("// {} {} {}\n", flat(key, n), k.file, print::plain(quote::quote!(#ty))));
                }
            }
        }
        std::fs::write(out, list + &s).expect("write tables");
    }

    let mut o = print::Json::new();
    o.obj();
    o.key("types"); o.arr(); for t in &c.types { o.str(t); } o.end_arr();
    o.key("problems"); o.arr(); for t in &c.problems { o.str(t); } o.end_arr();
    o.key("consts"); o.obj();
    for (key, m) in &c.mods {
        for (n, k) in &m.consts {
            let (ty, init) = (&k.ty, &k.init);
            o.key(&flat(key, n));
            o.obj();
            o.key("file"); o.str(&k.file);
            o.key("ty"); o.str(&print::plain(quote::quote!(#ty)));
            o.key("table"); o.bool(is_table(ty));
            if !is_table(ty) {
                o.key("init"); o.str(&print::plain(quote::quote!(#init)));
            }
            o.end_obj();
        }
    }
    o.end_obj();
    o.key("fns"); o.obj();
    for (key, m) in &c.mods {
        for (n, r) in &m.fns {
            o.key(&flat(key, n));
            let o0 = o.clone();
            let done = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| rewrite::emit_fn(&c, m, key, n, r, &contracted, &mut o)));
            if done.is_err() {
                o = o0;
                let mut r2 = FnRec { item: r.item.clone(), file: r.file.clone(), errors: vec!["the extractor failed".into()] };
                *r2.item.block = parse_quote!({ loop {} });
                rewrite::emit_fn(&c, m, key, n, &r2, &contracted, &mut o);
            }
        }
    }
    o.end_obj();
    o.end_obj();
    println!("{}", o.s);
}
