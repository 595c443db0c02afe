//! Functions of the crate that have no contract are inlined into their callers where that is possible:
//! the call is replaced by a block that binds the parameters and holds the callee's body. Callers with a
//! call left over are reported ("opaque"): they are not counted as proved.
use crate::emit::{norm_trait, norm_ty};
use crate::info::{tname, Info};
use crate::rewrite::unparen;
use quote::ToTokens;
use serde_json::Value;
use std::collections::{BTreeMap, BTreeSet};
use syn::visit::{self, Visit};
use syn::visit_mut::{self, VisitMut};
use syn::*;

#[derive(Clone)]
struct Cand { key: String, module: String, owner: Option<String>, sig: Signature, block: Block, generic: BTreeSet<String> }

#[derive(Default)]
struct World {
    cands: Vec<Cand>,
    /// method name -> number of inherent or trait methods of that name in the crate
    methods: BTreeMap<String, usize>,
    /// module -> names it defines or imports from the crate
    names: BTreeMap<String, BTreeSet<String>>,
}

const STD_METHODS: [&str; 40] = ["len", "iter", "push", "clone", "into", "is_empty", "map", "map_err", "get", "min", "max", "pow", "from", "unwrap", "expect", "ok", "err", "as_ref", "as_mut", "as_slice", "to_vec", "to_string", "try_into", "next", "first", "last", "rev", "zip", "take", "skip", "read", "write", "write_bits", "read_bits", "to_writer", "from_reader_with_ctx", "update", "deku_id", "to_bytes", "or"];

fn join(p: &str, x: &str) -> String { if p.is_empty() { x.to_string() } else { format!("{p}::{x}") } }
fn lower(s: &str) -> bool { s.chars().next().map_or(false, |c| c.is_lowercase() || c == '_') }

fn use_names(t: &UseTree, o: &mut BTreeSet<String>) {
    match t {
        UseTree::Path(p) => use_names(&p.tree, o),
        UseTree::Name(n) => { o.insert(n.ident.to_string()); }
        UseTree::Rename(n) => { o.insert(n.rename.to_string()); }
        UseTree::Group(g) => for x in &g.items { use_names(x, o) },
        UseTree::Glob(_) => {}
    }
}

impl World {
    fn collect(&mut self, items: &[Item], path: &str, con: &Value) {
        let known = |k: &str| !con["fns"][k].is_null();
        for it in items {
            match it {
                Item::Mod(m) => if let Some((_, its)) = &m.content {
                    self.names.entry(path.to_string()).or_default().insert(m.ident.to_string());
                    self.collect(its, &join(path, &m.ident.to_string()), con);
                },
                Item::Use(u) => {
                    let s = u.tree.to_token_stream().to_string();
                    let root = s.split(|c: char| !c.is_alphanumeric() && c != '_').find(|x| !x.is_empty()).unwrap_or("").to_string();
                    if u.leading_colon.is_none() && !["std", "core", "alloc", "deku", "mutually_exclusive_features", "enum_dispatch"].contains(&root.as_str()) {
                        use_names(&u.tree, self.names.entry(path.to_string()).or_default());
                    }
                }
                Item::Struct(s) => { self.names.entry(path.to_string()).or_default().insert(s.ident.to_string()); }
                Item::Enum(s) => { self.names.entry(path.to_string()).or_default().insert(s.ident.to_string()); }
                Item::Type(s) => { self.names.entry(path.to_string()).or_default().insert(s.ident.to_string()); }
                Item::Fn(f) => {
                    self.names.entry(path.to_string()).or_default().insert(f.sig.ident.to_string());
                    let key = format!("{path}::{}", f.sig.ident);
                    if !known(&key) { self.add(key, path, None, &f.sig, &f.block, &Generics::default()); }
                }
                Item::Impl(i) => {
                    let tn = tname(&i.self_ty);
                    for x in &i.items {
                        if let ImplItem::Fn(f) = x {
                            if f.sig.receiver().is_some() { *self.methods.entry(f.sig.ident.to_string()).or_default() += 1; }
                            if i.trait_.is_none() {
                                let key = format!("{path}::{tn}::{}", f.sig.ident);
                                if !known(&key) { self.add(key, path, Some(tn.clone()), &f.sig, &f.block, &i.generics); }
                            }
                        }
                    }
                }
                _ => {}
            }
        }
    }
    fn add(&mut self, key: String, path: &str, owner: Option<String>, sig: &Signature, block: &Block, g: &Generics) {
        if sig.unsafety.is_some() || sig.asyncness.is_some() || owner.as_deref() == Some("TransientDropper") { return; }
        let mut generic = BTreeSet::new();
        for p in sig.generics.params.iter().chain(g.params.iter()) {
            match p { GenericParam::Type(t) => { generic.insert(t.ident.to_string()); } GenericParam::Const(t) => { generic.insert(t.ident.to_string()); } _ => {} }
        }
        let mut block = block.clone();
        crate::iter::block(&mut block);
        self.cands.push(Cand { key, module: path.to_string(), owner, sig: sig.clone(), block, generic });
    }
    fn by_path(&self, p: &ExprPath, module: &str, owner: &Option<String>) -> Option<&Cand> {
        if p.qself.is_some() { return None; }
        let s: Vec<String> = p.path.segments.iter().map(|x| x.ident.to_string()).collect();
        let n = s.len();
        let name = &s[n - 1];
        let c: Vec<&Cand> = self.cands.iter().filter(|c| c.sig.ident == name.as_str()).collect();
        if c.is_empty() { return None; }
        let pick = |v: Vec<&'_ Cand>| -> Option<usize> {
            let same: Vec<&&Cand> = v.iter().filter(|c| c.module == module).collect();
            let k = if same.len() == 1 { same[0].key.clone() } else if v.len() == 1 { v[0].key.clone() } else { return None };
            self.cands.iter().position(|c| c.key == k)
        };
        let k = if n == 1 {
            if !self.names.get(module).map_or(false, |m| m.contains(name)) { return None; }
            pick(c.into_iter().filter(|c| c.owner.is_none()).collect())
        } else {
            let prev = s[n - 2].clone();
            if prev == "Self" { let o = owner.clone()?; pick(c.into_iter().filter(|c| c.owner.as_ref() == Some(&o) && c.module == module).collect()) }
            else if lower(&prev) {
                let any = ["self", "super", "crate"].contains(&prev.as_str());
                pick(c.into_iter().filter(|c| c.owner.is_none() && (any || c.module.rsplit("::").next() == Some(prev.as_str()))).collect())
            } else { pick(c.into_iter().filter(|c| c.owner.as_ref() == Some(&prev)).collect()) }
        };
        k.map(|k| &self.cands[k])
    }
    fn by_method(&self, m: &ExprMethodCall, module: &str, owner: &Option<String>) -> Option<&Cand> {
        let name = m.method.to_string();
        let c: Vec<&Cand> = self.cands.iter().filter(|c| c.sig.ident == name.as_str() && c.sig.receiver().is_some()).collect();
        if let Expr::Path(p) = unparen(&m.receiver) {
            if p.path.is_ident("self") {
                let d: Vec<&&Cand> = c.iter().filter(|c| &c.owner == owner && c.module == module).collect();
                if d.len() == 1 { return Some(d[0]); }
            }
        }
        if c.len() == 1 && self.methods.get(&name) == Some(&1) && !STD_METHODS.contains(&name.as_str()) { return Some(c[0]); }
        None
    }
}

// ---------------------------------------------------------------- names
fn idents_of<T: ToTokens>(x: &T) -> BTreeSet<String> {
    let mut o = BTreeSet::new();
    fn go(ts: proc_macro2::TokenStream, o: &mut BTreeSet<String>) {
        for t in ts { match t { proc_macro2::TokenTree::Ident(i) => { o.insert(i.to_string()); } proc_macro2::TokenTree::Group(g) => go(g.stream(), o), _ => {} } }
    }
    go(x.to_token_stream(), &mut o);
    o
}
struct Bound(BTreeSet<String>);
impl<'x> Visit<'x> for Bound {
    fn visit_pat_ident(&mut self, p: &'x PatIdent) { let s = p.ident.to_string(); if lower(&s) { self.0.insert(s); } visit::visit_pat_ident(self, p); }
}
struct Rename<'a>(&'a BTreeMap<String, String>);
impl<'a> VisitMut for Rename<'a> {
    fn visit_pat_ident_mut(&mut self, p: &mut PatIdent) {
        if let Some(n) = self.0.get(&p.ident.to_string()) { p.ident = Ident::new(n, p.ident.span()); }
        visit_mut::visit_pat_ident_mut(self, p);
    }
    fn visit_field_pat_mut(&mut self, f: &mut FieldPat) { if f.colon_token.is_none() { if let Pat::Ident(i) = &*f.pat { if self.0.contains_key(&i.ident.to_string()) { f.colon_token = Some(Default::default()); } } } visit_mut::visit_field_pat_mut(self, f); }
    fn visit_expr_path_mut(&mut self, p: &mut ExprPath) {
        if p.qself.is_none() { if let Some(i) = p.path.get_ident() { if let Some(n) = self.0.get(&i.to_string()) { p.path = Ident::new(n, i.span()).into(); } } }
        visit_mut::visit_expr_path_mut(self, p);
    }
    fn visit_expr_struct_mut(&mut self, s: &mut ExprStruct) {
        for f in s.fields.iter_mut() { f.colon_token = Some(Default::default()); }
        visit_mut::visit_expr_struct_mut(self, s);
    }
}
/// plain substitution of names by expressions; `muts`: names standing for `&mut PLACE`
struct Sub<'a> { m: &'a BTreeMap<String, Expr>, muts: &'a BTreeMap<String, Expr> }
impl<'a> Sub<'a> {
    fn place(&self, e: &Expr) -> Option<Expr> { if let Expr::Path(p) = unparen(e) { p.path.get_ident().and_then(|i| self.muts.get(&i.to_string()).cloned()) } else { None } }
}
impl<'a> VisitMut for Sub<'a> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        match e {
            Expr::Unary(ExprUnary { op: UnOp::Deref(_), expr, .. }) => if let Some(x) = self.place(expr) { *e = x; return; },
            Expr::Field(f) => if let Some(x) = self.place(&f.base) { f.base = Box::new(x); return; },
            Expr::MethodCall(m) => if let Some(x) = self.place(&m.receiver) { m.receiver = Box::new(x); for a in m.args.iter_mut() { self.visit_expr_mut(a); } return; },
            Expr::Struct(s) => for f in s.fields.iter_mut() { f.colon_token = Some(Default::default()); },
            Expr::Path(p) if p.qself.is_none() => if let Some(i) = p.path.get_ident() {
                if let Some(x) = self.m.get(&i.to_string()) { *e = x.clone(); return; }
                if let Some(x) = self.muts.get(&i.to_string()) { *e = parse_quote!(&mut #x); return; }
            },
            _ => {}
        }
        visit_mut::visit_expr_mut(self, e);
    }
}
/// `Self` and module-relative names of another module, made absolute
struct Qualify<'a> { self_path: Option<Path>, module: &'a str, names: Option<&'a BTreeSet<String>>, bound: &'a BTreeSet<String> }
impl<'a> VisitMut for Qualify<'a> {
    fn visit_path_mut(&mut self, p: &mut Path) {
        visit_mut::visit_path_mut(self, p);
        let first = p.segments[0].ident.to_string();
        if first == "Self" {
            if let Some(s) = &self.self_path { let rest: Vec<PathSegment> = p.segments.iter().skip(1).cloned().collect(); let mut q = s.clone(); for r in rest { q.segments.push(r); } *p = q; }
            return;
        }
        if p.leading_colon.is_some() { return; }
        if let Some(n) = self.names {
            if n.contains(&first) && !(p.segments.len() == 1 && self.bound.contains(&first)) {
                let mut q: Path = syn::parse_str(&format!("crate::{}", self.module)).unwrap();
                if self.module.is_empty() { q = parse_quote!(crate); }
                for r in p.segments.iter() { q.segments.push(r.clone()); }
                *p = q;
            }
        }
    }
}
#[derive(Default)]
struct Leaves { rets: Vec<Expr>, bare: usize, tries: usize }
impl<'x> Visit<'x> for Leaves {
    fn visit_expr_closure(&mut self, _: &'x ExprClosure) {}
    fn visit_item(&mut self, _: &'x Item) {}
    fn visit_expr_return(&mut self, r: &'x ExprReturn) { match &r.expr { Some(e) => self.rets.push((**e).clone()), None => self.bare += 1 } visit::visit_expr_return(self, r); }
    fn visit_expr_try(&mut self, r: &'x ExprTry) { self.tries += 1; visit::visit_expr_try(self, r); }
}
fn leaves(b: &Block) -> Leaves { let mut l = Leaves::default(); l.visit_block(b); l }

// ---------------------------------------------------------------- early returns
fn blk(e: &Expr) -> Block { match unparen(e) { Expr::Block(b) if b.label.is_none() => b.block.clone(), o => { let o = o.clone(); parse_quote!({ #o }) } } }
/// the value of a block that always ends in `return X`
fn ret_value(b: &Block) -> Option<Block> {
    let mut b = b.clone();
    let v = match b.stmts.last() { Some(Stmt::Expr(Expr::Return(r), _)) => match &r.expr { Some(e) => (**e).clone(), None => parse_quote!(()) }, _ => return None };
    b.stmts.pop();
    b.stmts.push(Stmt::Expr(v, None));
    Some(b)
}
fn push_tail(e: Expr) -> Stmt { Stmt::Expr(e, None) }
/// statement-level early exits become branches: `if c { return X; } rest` -> `if c { X } else { rest }`
fn norm(b: &mut Block, with_try: Option<bool>) {
    let mut i = 0;
    while i < b.stmts.len() {
        let rest = |b: &Block| -> Vec<Stmt> { b.stmts[i + 1..].to_vec() };
        let last = i + 1 == b.stmts.len();
        let s = b.stmts[i].clone();
        let mut new: Option<Expr> = None;
        match &s {
            Stmt::Expr(Expr::Return(r), _) => { new = Some(r.expr.as_ref().map(|e| (**e).clone()).unwrap_or(parse_quote!(()))); }
            Stmt::Expr(Expr::If(f), semi) if !(last && semi.is_none() && f.else_branch.is_some()) => {
                let c = &f.cond;
                if let Some(v) = ret_value(&f.then_branch) {
                    let r = rest(b);
                    let el: Vec<Stmt> = match &f.else_branch { Some((_, e)) => { let mut x = blk(e).stmts; if let Some(Stmt::Expr(_, q @ None)) = x.last_mut() { *q = Some(Default::default()); } x.extend(r); x } None => r };
                    new = Some(parse_quote!(if #c #v else { #(#el)* }));
                } else if let Some((_, e)) = &f.else_branch {
                    if let Some(v) = ret_value(&blk(e)) {
                        let mut t = f.then_branch.stmts.clone();
                        if let Some(Stmt::Expr(_, q @ None)) = t.last_mut() { *q = Some(Default::default()); }
                        t.extend(rest(b));
                        new = Some(parse_quote!(if #c { #(#t)* } else #v));
                    }
                }
            }
            Stmt::Local(l) => if let Some(init) = &l.init {
                let pat = &l.pat;
                let r = rest(b);
                if let Some((_, d)) = &init.diverge {
                    if let Some(v) = ret_value(&blk(d)) {
                        let e = &init.expr;
                        new = Some(parse_quote!(match #e { #pat => { #(#r)* } _ => #v }));
                    }
                } else if let Expr::Match(m) = unparen(&init.expr) {
                    let is_ret = |a: &Arm| ret_value(&blk(&a.body)).is_some();
                    if m.arms.iter().any(is_ret) && m.arms.iter().filter(|a| !is_ret(a)).count() == 1 {
                        let mut m = m.clone();
                        for a in m.arms.iter_mut() {
                            let bb = blk(&a.body);
                            let nb: Block = match ret_value(&bb) { Some(v) => v, None => { let e = &a.body; parse_quote!({ let #pat = #e; #(#r)* }) } };
                            a.body = Box::new(parse_quote!(#nb));
                        }
                        new = Some(Expr::Match(m));
                    }
                } else if let (Some(opt), Expr::Try(t)) = (with_try, unparen(&init.expr)) {
                    let e = &t.expr;
                    new = Some(if opt { parse_quote!(match #e { Some(#pat) => { #(#r)* } None => None }) } else { parse_quote!(match #e { Ok(#pat) => { #(#r)* } Err(__e) => Err(__e) }) });
                }
            },
            Stmt::Expr(Expr::Try(t), Some(_)) if with_try.is_some() && !last => {
                let (e, r) = (&t.expr, rest(b));
                new = Some(if with_try == Some(true) { parse_quote!(match #e { Some(_) => { #(#r)* } None => None }) } else { parse_quote!(match #e { Ok(_) => { #(#r)* } Err(__e) => Err(__e) }) });
            }
            _ => {}
        }
        if let Some(e) = new {
            b.stmts.truncate(i);
            b.stmts.push(push_tail(e));
            break;
        }
        i += 1;
    }
    if let Some(Stmt::Expr(e, None)) = b.stmts.last_mut() { norm_tail(e, with_try); }
}
fn norm_tail(e: &mut Expr, t: Option<bool>) {
    match e {
        Expr::Paren(p) => norm_tail(&mut p.expr, t),
        Expr::Group(p) => norm_tail(&mut p.expr, t),
        Expr::Block(b) if b.label.is_none() => norm(&mut b.block, t),
        Expr::If(f) => { norm(&mut f.then_branch, t); if let Some((_, x)) = &mut f.else_branch { norm_tail(x, t); } }
        Expr::Match(m) => for a in m.arms.iter_mut() { norm_tail(&mut a.body, t); },
        Expr::Return(r) => { let x = r.expr.as_ref().map(|e| (**e).clone()).unwrap_or(parse_quote!(())); *e = x; norm_tail(e, t); }
        Expr::Call(c) if t.is_some() && c.args.len() == 1 => {
            // Ok(E?) -> match E { Ok(v) => Ok(v), .. }
            if let Expr::Try(x) = unparen(&c.args[0]) {
                let (f, x) = (&c.func, &x.expr);
                *e = if t == Some(true) { parse_quote!(match #x { Some(__v) => #f(__v), None => None }) } else { parse_quote!(match #x { Ok(__v) => #f(__v), Err(__e) => Err(__e) }) };
            }
        }
        _ => {}
    }
}
/// TAIL becomes TAIL?
fn try_tail_b(b: &mut Block) -> bool {
    match b.stmts.last_mut() { Some(Stmt::Expr(e, None)) => { try_tail(e); true } _ => false }
}
fn try_tail(e: &mut Expr) {
    match e {
        Expr::Paren(p) => return try_tail(&mut p.expr),
        Expr::Group(p) => return try_tail(&mut p.expr),
        Expr::Block(b) if b.label.is_none() && matches!(b.block.stmts.last(), Some(Stmt::Expr(_, None))) => { try_tail_b(&mut b.block); return; }
        Expr::If(f) if f.else_branch.is_some() => { if try_tail_b(&mut f.then_branch) { if let Some((_, x)) = &mut f.else_branch { try_tail(x); } return; } }
        Expr::Match(m) => { for a in m.arms.iter_mut() { try_tail(&mut a.body); } return; }
        Expr::Call(c) if c.args.len() == 1 => if let Expr::Path(p) = unparen(&c.func) {
            if p.path.is_ident("Ok") || p.path.is_ident("Some") { let x = c.args[0].clone(); *e = x; return; }
            if p.path.is_ident("Err") { let x = c.clone(); *e = parse_quote!(return #x); return; }
        },
        Expr::Path(p) if p.path.is_ident("None") => { *e = parse_quote!(return None); return; }
        Expr::Return(_) => return,
        _ => {}
    }
    let x = e.clone();
    *e = parse_quote!((#x)?);
}

// ---------------------------------------------------------------- the pass
#[derive(Clone, Copy, PartialEq)]
enum Mode { Plain, Try, Tail }

struct GSub { ty: Option<Type>, ex: Option<Expr>, bound: Option<Path>, infer: bool }
struct Subst<'a> { m: &'a BTreeMap<String, GSub>, bad: bool }
impl<'a> VisitMut for Subst<'a> {
    fn visit_type_mut(&mut self, t: &mut Type) {
        if let Type::Path(p) = t {
            if p.qself.is_none() {
                if let Some(i) = p.path.get_ident() { if let Some(GSub { ty: Some(x), .. }) = self.m.get(&i.to_string()) { *t = x.clone(); return; } }
                else if p.path.segments.len() > 1 && self.m.contains_key(&p.path.segments[0].ident.to_string()) { self.bad = true; }
            }
        }
        visit_mut::visit_type_mut(self, t);
    }
    fn visit_generic_argument_mut(&mut self, g: &mut GenericArgument) {
        if let GenericArgument::Type(Type::Path(p)) = g {
            if let Some(i) = p.path.get_ident() { if let Some(GSub { ex: Some(x), .. }) = self.m.get(&i.to_string()) { *g = GenericArgument::Const(x.clone()); return; } }
        }
        visit_mut::visit_generic_argument_mut(self, g);
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Path(p) = e {
            if p.qself.is_none() {
                if let Some(i) = p.path.get_ident() {
                    if let Some(GSub { ex: Some(x), .. }) = self.m.get(&i.to_string()) { *e = parse_quote!((#x)); return; }
                } else if let Some(GSub { ty: Some(t), bound, infer, .. }) = self.m.get(&p.path.segments[0].ident.to_string()) {
                    let mut rest = p.path.clone();
                    rest.segments = p.path.segments.iter().skip(1).cloned().collect();
                    let t = t.clone();
                    match bound {
                        Some(b) => { let b = b.clone(); *e = parse_quote!(<#t as #b>::#rest); }
                        None if *infer => self.bad = true,
                        None => { *e = parse_quote!(<#t>::#rest); }
                    }
                    return;
                }
            }
        }
        visit_mut::visit_expr_mut(self, e);
    }
}

struct Inl<'a> { w: &'a World, module: String, owner: Option<String>, self_ref: bool, generic: BTreeSet<String>, stack: Vec<String>, n: &'a mut usize }

impl<'a> Inl<'a> {
    fn target(&self, e: &Expr) -> Option<(Cand, Vec<Expr>, bool)> {
        match unparen(e) {
            Expr::Call(c) => if let Expr::Path(p) = unparen(&c.func) {
                let k = self.w.by_path(p, &self.module, &self.owner)?;
                let tf = match &p.path.segments.last().unwrap().arguments { PathArguments::AngleBracketed(x) => Some(x), _ => None };
                return Some((self.instance(k, tf), c.args.iter().cloned().collect(), false));
            },
            Expr::MethodCall(m) => {
                let k = self.w.by_method(m, &self.module, &self.owner)?;
                let mut a = vec![(*m.receiver).clone()];
                a.extend(m.args.iter().cloned());
                return Some((self.instance(k, m.turbofish.as_ref()), a, true));
            }
            _ => {}
        }
        None
    }
    /// The callee with its own type and const parameters replaced: by the arguments written at the call, else (where the
    /// caller has no parameter of that name) by `_`, left to inference.
    fn instance(&self, k: &Cand, tf: Option<&AngleBracketedGenericArguments>) -> Cand {
        let mut c = k.clone();
        let given: Vec<&GenericArgument> = tf.iter().flat_map(|x| x.args.iter()).filter(|a| !matches!(a, GenericArgument::Lifetime(_))).collect();
        let mut m = BTreeMap::new();
        let own: Vec<&GenericParam> = c.sig.generics.params.iter().filter(|p| !matches!(p, GenericParam::Lifetime(_))).collect();
        let mut gone = vec![];
        for (i, p) in own.iter().enumerate() {
            let arg = if given.len() == own.len() { Some(given[i].clone()) } else { None };
            match p {
                GenericParam::Type(t) => {
                    let n = t.ident.to_string();
                    let ty = match arg { Some(GenericArgument::Type(Type::Infer(_))) | None => None, Some(GenericArgument::Type(t)) => Some(t), _ => continue };
                    if ty.is_none() && self.generic.contains(&n) { continue; }
                    let mut bs: Vec<Path> = t.bounds.iter().filter_map(|b| if let TypeParamBound::Trait(b) = b { Some(b.path.clone()) } else { None }).collect();
                    if let Some(w) = &c.sig.generics.where_clause {
                        for q in &w.predicates { if let WherePredicate::Type(q) = q { if q.bounded_ty.to_token_stream().to_string() == n {
                            bs.extend(q.bounds.iter().filter_map(|b| if let TypeParamBound::Trait(b) = b { Some(b.path.clone()) } else { None }));
                        } } }
                    }
                    bs.retain(|b| !["Read", "Write", "Seek", "Clone", "Copy", "Debug", "Sized", "PartialEq", "Eq"].contains(&b.segments.last().unwrap().ident.to_string().as_str()));
                    let infer = ty.is_none();
                    m.insert(n.clone(), GSub { ty: Some(ty.unwrap_or_else(|| parse_quote!(_))), ex: None, bound: if infer && bs.len() == 1 { bs.pop() } else { None }, infer });
                    gone.push(n);
                }
                GenericParam::Const(t) => {
                    let n = t.ident.to_string();
                    let ex: Expr = match arg { Some(GenericArgument::Const(e)) => e, Some(GenericArgument::Type(Type::Path(t))) => { let p = &t.path; parse_quote!(#p) } _ => continue };
                    m.insert(n.clone(), GSub { ty: None, ex: Some(ex), bound: None, infer: false });
                    gone.push(n);
                }
                _ => {}
            }
        }
        if m.is_empty() { return c; }
        let used = idents_of(&c.block);
        // an associated function of a parameter left to inference needs its trait
        let mut s = Subst { m: &m, bad: false };
        let (mut b, mut sig) = (c.block.clone(), c.sig.clone());
        s.visit_block_mut(&mut b);
        for a in sig.inputs.iter_mut() { if let FnArg::Typed(t) = a { s.visit_type_mut(&mut t.ty); } }
        if let ReturnType::Type(_, t) = &mut sig.output { s.visit_type_mut(t); }
        if s.bad && gone.iter().any(|g| used.contains(g)) { return c; }
        for g in gone { c.generic.remove(&g); }
        c.block = b;
        c.sig = sig;
        c
    }
    fn expand(&mut self, c: Cand, args: Vec<Expr>, method: bool, mode: Mode) -> Option<Expr> {
        if self.stack.contains(&c.key) || self.stack.len() > 6 || c.sig.inputs.len() != args.len() { return None; }
        let mut body = c.block.clone();
        crate::rewrite::unwrap_tail_closure(&mut body);
        let (ropt, rres) = match &c.sig.output { ReturnType::Type(_, t) => (tname(t) == "Option", matches!(tname(t).as_str(), "Result")), _ => (false, false) };
        norm(&mut body, None);
        let mut l = leaves(&body);
        match mode {
            Mode::Tail => if l.bare > 0 { return None; },
            Mode::Try => {
                if !(ropt || rres) { return None; }
                if rres { let s = c.sig.output.to_token_stream().to_string(); if !(s.contains("DekuError") || s.contains("Error")) { return None; } }
                for r in &l.rets {
                    let s = r.to_token_stream().to_string();
                    if !(s.starts_with("Err (") || s.starts_with("Err(") || (ropt && s == "None")) { return None; }
                }
                if l.bare > 0 { return None; }
            }
            Mode::Plain => {
                if l.tries > 0 && (ropt || rres) { norm(&mut body, Some(ropt)); l = leaves(&body); }
                if l.tries > 0 || l.bare > 0 || !l.rets.is_empty() { return None; }
            }
        }
        if mode == Mode::Try && !try_tail_b(&mut body) { return None; }
        // type parameters the caller does not have under the same name
        let used = idents_of(&body);
        for g in &c.generic { if used.contains(g) && !self.generic.contains(g) { return None; } }
        let same_mod = c.module == self.module;
        // hygiene
        let mut bnd = Bound(Default::default());
        bnd.visit_block(&body);
        for a in &c.sig.inputs { if let FnArg::Typed(t) = a { bnd.visit_pat(&t.pat); } }
        let mut argids = BTreeSet::new();
        for a in &args { argids.extend(idents_of(a)); }
        *self.n += 1;
        let ren: BTreeMap<String, String> = bnd.0.iter().filter(|x| argids.contains(*x)).map(|x| (x.clone(), format!("{x}__h{}", *self.n))).collect();
        let mut sig = c.sig.clone();
        Rename(&ren).visit_block_mut(&mut body);
        for a in sig.inputs.iter_mut() { if let FnArg::Typed(t) = a { Rename(&ren).visit_pat_mut(&mut t.pat); } }
        let bound2: BTreeSet<String> = bnd.0.iter().map(|x| ren.get(x).unwrap_or(x).clone()).collect();
        let self_path: Option<Path> = c.owner.as_ref().and_then(|o| if Some(o) == self.owner.as_ref() && same_mod { None } else { syn::parse_str(&format!("crate::{}", join(&c.module, o))).ok() });
        let owner_ty: Option<Type> = c.owner.as_ref().and_then(|o| syn::parse_str(&format!("crate::{}", join(&c.module, o))).ok());
        let mut q = Qualify { self_path, module: &c.module, names: if same_mod { None } else { self.w.names.get(&c.module) }, bound: &bound2 };
        q.visit_block_mut(&mut body);
        for a in sig.inputs.iter_mut() { if let FnArg::Typed(t) = a { q.visit_type_mut(&mut t.ty); } }
        if let ReturnType::Type(_, t) = &mut sig.output { q.visit_type_mut(t); }
        let mygen = self.generic.clone();
        let closed = |t: &Type| { let s = t.to_token_stream().to_string(); let ids = idents_of(t); !s.contains('\'') && !s.contains("impl ") && !s.contains("dyn ") && !ids.contains("_") && c.generic.iter().all(|g| !ids.contains(g) || mygen.contains(g)) };
        // parameters
        let (mut m, mut muts) = (BTreeMap::new(), BTreeMap::new());
        let mut lets: Vec<Stmt> = vec![];
        for (p, a) in sig.inputs.iter().zip(args.iter()) {
            let a = a.clone();
            let plain_arg = matches!(unparen(&a), Expr::Path(p) if p.qself.is_none() && p.path.get_ident().map_or(false, |i| lower(&i.to_string())));
            match p {
                FnArg::Receiver(r) => {
                    let is_self = matches!(unparen(&a), Expr::Path(p) if p.path.is_ident("self"));
                    let byref = r.reference.is_some();
                    if is_self { if !byref && self.self_ref && method { m.insert("self".into(), parse_quote!((*self))); } continue; }
                    let t = owner_ty.clone()?;
                    let g: Ident = Ident::new(&format!("__self{}", *self.n), proc_macro2::Span::call_site());
                    if byref && r.mutability.is_some() {
                        let place = match unparen(&a) { Expr::Reference(x) if !method => (*x.expr).clone(), o => o.clone() };
                        muts.insert("self".to_string(), place);
                    } else {
                        let x: Stmt = match (byref, method) { (true, true) => parse_quote!(let #g: &#t = &#a;), (true, false) => parse_quote!(let #g: &#t = #a;), _ => parse_quote!(let #g: #t = #a;) };
                        lets.push(x);
                        m.insert("self".to_string(), parse_quote!(#g));
                    }
                }
                FnArg::Typed(t) => {
                    let mref = matches!(&*t.ty, Type::Reference(r) if r.mutability.is_some());
                    if let Pat::Ident(i) = &*t.pat { if i.mutability.is_none() && i.subpat.is_none() {
                        if plain_arg { m.insert(i.ident.to_string(), a); continue; }
                        if mref { if let Expr::Reference(x) = unparen(&a) { if x.mutability.is_some() { muts.insert(i.ident.to_string(), (*x.expr).clone()); continue; } } }
                    } }
                    if matches!(&*t.pat, Pat::Wild(_)) { lets.push(parse_quote!(let _ = #a;)); continue; }
                    let pat = &t.pat;
                    let ty = &t.ty;
                    lets.push(if closed(ty) { parse_quote!(let #pat: #ty = #a;) } else { parse_quote!(let #pat = #a;) });
                }
            }
        }
        Sub { m: &m, muts: &muts }.visit_block_mut(&mut body);
        // helpers called by the helper: same scope as the caller now, so resolve with the helper's own view
        let (om, oo, os) = (self.module.clone(), self.owner.clone(), self.self_ref);
        self.stack.push(c.key.clone());
        if same_mod { self.owner = if c.owner.is_some() { c.owner.clone() } else { oo.clone() }; }
        self.fn_body(&mut body, mode == Mode::Tail);
        self.stack.pop();
        self.module = om; self.owner = oo; self.self_ref = os;
        let mut stmts = lets;
        let plain_ty = match &sig.output { ReturnType::Type(_, t) if mode == Mode::Plain && closed(t) => Some((**t).clone()), _ => None };
        match plain_ty {
            Some(t) if body.stmts.len() > 1 || !stmts.is_empty() => { stmts.push(parse_quote!(let __r: #t = #body;)); stmts.push(push_tail(parse_quote!(__r))); }
            Some(t) => { stmts.push(parse_quote!(let __r: #t = #body;)); stmts.push(push_tail(parse_quote!(__r))); }
            None => stmts.extend(body.stmts),
        }
        Some(parse_quote!(({ #(#stmts)* })))
    }
    fn fn_body(&mut self, b: &mut Block, tail: bool) {
        if tail { if let Some(Stmt::Expr(e, None)) = b.stmts.last_mut() { self.tail(e); } }
        self.visit_block_mut(b);
    }
    fn tail(&mut self, e: &mut Expr) {
        match e {
            Expr::Paren(p) => self.tail(&mut p.expr),
            Expr::Group(p) => self.tail(&mut p.expr),
            Expr::Block(b) if b.label.is_none() => if let Some(Stmt::Expr(x, None)) = b.block.stmts.last_mut() { self.tail(x); },
            Expr::If(f) => { if let Some(Stmt::Expr(x, None)) = f.then_branch.stmts.last_mut() { self.tail(x); } if let Some((_, x)) = &mut f.else_branch { self.tail(x); } }
            Expr::Match(m) => for a in m.arms.iter_mut() { self.tail(&mut a.body); },
            _ => if let Some((c, mut args, meth)) = self.target(e) {
                for a in args.iter_mut() { self.visit_expr_mut(a); }
                if let Some(x) = self.expand(c, args, meth, Mode::Tail) { *e = x; }
            }
        }
    }
}
impl<'a> VisitMut for Inl<'a> {
    fn visit_item_mut(&mut self, _: &mut Item) {}
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Try(t) = e {
            if let Some((c, mut args, meth)) = self.target(&t.expr) {
                for a in args.iter_mut() { self.visit_expr_mut(a); }
                if let Some(x) = self.expand(c, args, meth, Mode::Try) { *e = x; return; }
            }
        }
        if let Expr::Return(r) = e { if let Some(x) = &mut r.expr { self.tail(x); } }
        if let Some((c, mut args, meth)) = self.target(e) {
            for a in args.iter_mut() { self.visit_expr_mut(a); }
            if let Some(x) = self.expand(c, args, meth, Mode::Plain) { *e = x; return; }
        }
        visit_mut::visit_expr_mut(self, e);
    }
}

struct Refs<'a> { w: &'a World, module: String, owner: Option<String>, out: BTreeSet<String> }
impl<'a, 'x> Visit<'x> for Refs<'a> {
    fn visit_expr_path(&mut self, p: &'x ExprPath) { if let Some(c) = self.w.by_path(p, &self.module, &self.owner) { self.out.insert(c.key.clone()); } visit::visit_expr_path(self, p); }
    fn visit_expr_method_call(&mut self, m: &'x ExprMethodCall) { if let Some(c) = self.w.by_method(m, &self.module, &self.owner) { self.out.insert(c.key.clone()); } visit::visit_expr_method_call(self, m); }
}

fn gnames(g: &Generics, o: &mut BTreeSet<String>) {
    for p in &g.params { match p { GenericParam::Type(t) => { o.insert(t.ident.to_string()); } GenericParam::Const(t) => { o.insert(t.ident.to_string()); } _ => {} } }
}

fn walk(items: &mut [Item], path: &str, w: &World, n: &mut usize, opaque: &mut BTreeMap<String, BTreeSet<String>>) {
    let mut one = |key: String, sig: &Signature, block: &mut Block, owner: Option<String>, g: &Generics| {
        let mut generic = BTreeSet::new();
        gnames(g, &mut generic);
        gnames(&sig.generics, &mut generic);
        crate::iter::block(block);
        let self_ref = sig.receiver().map_or(false, |r| r.reference.is_some());
        Inl { w, module: path.to_string(), owner: owner.clone(), self_ref, generic, stack: vec![key.clone()], n }.fn_body(block, true);
        let mut r = Refs { w, module: path.to_string(), owner, out: Default::default() };
        r.visit_block(block);
        if !r.out.is_empty() { opaque.insert(key, r.out); }
    };
    for it in items.iter_mut() {
        match it {
            Item::Fn(f) => { let s = f.sig.clone(); one(format!("{path}::{}", s.ident), &s, &mut f.block, None, &Generics::default()) }
            Item::Impl(i) => {
                let tn = tname(&i.self_ty);
                let g = i.generics.clone();
                let base = match &i.trait_ { None => format!("{path}::{tn}"), Some((_, tp, _)) => format!("{path}|{}|{}", norm_trait(tp), norm_ty(&i.self_ty)) };
                for x in i.items.iter_mut() { if let ImplItem::Fn(f) = x { let s = f.sig.clone(); one(format!("{base}::{}", s.ident), &s, &mut f.block, Some(tn.clone()), &g) } }
            }
            _ => {}
        }
    }
    for it in items.iter_mut() {
        if let Item::Mod(m) = it { let p = join(path, &m.ident.to_string()); if let Some((_, its)) = &mut m.content { walk(its, &p, w, n, opaque); } }
    }
}

pub fn run(f: &mut syn::File, con: &Value, info: &mut Info) {
    let mut w = World::default();
    w.collect(&f.items, "", con);
    let mut n = 0;
    let mut opaque = BTreeMap::new();
    walk(&mut f.items, "", &w, &mut n, &mut opaque);
    let cands: BTreeSet<String> = w.cands.iter().map(|c| c.key.clone()).collect();
    // what is left to emit: uncontracted functions still referred to by something emitted
    let mut live: BTreeSet<String> = opaque.iter().filter(|(k, _)| !cands.contains(*k)).flat_map(|(_, v)| v.iter().cloned()).collect();
    loop {
        let more: BTreeSet<String> = opaque.iter().filter(|(k, _)| live.contains(*k)).flat_map(|(_, v)| v.iter().cloned()).filter(|x| !live.contains(x)).collect();
        if more.is_empty() { break; }
        live.extend(more);
    }
    let omit: BTreeSet<String> = con["omit"].as_array().map(|a| a.iter().map(|x| x.as_str().unwrap().to_string()).collect()).unwrap_or_default();
    info.inlined = cands.into_iter().filter(|k| !live.contains(k) || omit.contains(k)).collect();
    info.opaque = opaque.into_iter().filter(|(k, _)| !info.inlined.contains(k)).map(|(k, v)| (k, v.into_iter().collect())).collect();
}
