//! Expression-, type- and pattern-level rewrites (syntax only: no rule changes what a body computes).
use crate::info::{lit_int, tname, Info};
use quote::{quote, ToTokens};
use std::collections::BTreeMap;
use syn::visit_mut::{self, VisitMut};
use syn::*;

pub fn strip_path(p: &mut Path) {
    p.leading_colon = None;
    const ROOTS: [&str; 16] = ["core", "std", "alloc", "deku", "no_std_io", "cmp", "fmt", "mem", "ptr", "slice", "bitvec", "ctx", "convert", "borrow", "vec", "result"];
    if p.segments.len() > 1 && ROOTS.contains(&p.segments[0].ident.to_string().as_str()) {
        let mut k = 0;
        while k + 1 < p.segments.len() && p.segments[k].ident.to_string().chars().next().unwrap().is_lowercase() { k += 1; }
        p.segments = p.segments.iter().skip(k).cloned().collect();
    }
    for s in p.segments.iter_mut() {
        let n = s.ident.to_string();
        if matches!(n.as_str(), "DekuReader" | "DekuContainerRead" | "DekuEnumExt") {
            if let PathArguments::AngleBracketed(a) = &mut s.arguments {
                a.args = a.args.iter().filter(|x| !matches!(x, GenericArgument::Lifetime(_))).cloned().collect();
                if a.args.is_empty() { s.arguments = PathArguments::None; }
            }
        }
        if n == "String" || n == "str" { s.ident = Ident::new("Str", s.ident.span()); }
    }
    if p.segments.len() == 2 && p.segments[0].ident == "Self" && p.segments[1].ident == "Error" {
        *p = parse_quote!(DekuError);
    }
}

pub struct Rw<'a> {
    pub info: &'a Info,
    pub self_ty: Option<String>,
    pub ret_opt: bool,
    /// locals and parameters whose type is known to be an `Option` (true) or a `Result` (false)
    pub vars: BTreeMap<String, bool>,
    /// invariants for the loops of this function, in source order
    pub loops: Vec<String>,
    pub nloops: usize,
    pub closures: Vec<BTreeMap<String, ExprClosure>>,
    pub mutrefs: Vec<String>,
}

pub struct Subst<'a> { pub m: &'a BTreeMap<String, Expr> }
impl<'a> VisitMut for Subst<'a> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Path(p) = e {
            if p.qself.is_none() {
                if let Some(id) = p.path.get_ident() {
                    if let Some(x) = self.m.get(&id.to_string()) { *e = x.clone(); return; }
                }
            }
        }
        if let Expr::Struct(s) = e {
            for f in s.fields.iter_mut() { if f.colon_token.is_none() { f.colon_token = Some(Default::default()); } }
        }
        visit_mut::visit_expr_mut(self, e);
    }
}

fn path_of(e: &Expr) -> Option<String> {
    if let Expr::Path(p) = unparen(e) {
        if p.qself.is_none() {
            return Some(p.path.segments.iter().map(|s| s.ident.to_string()).collect::<Vec<_>>().join("::"));
        }
    }
    None
}
pub fn unparen(e: &Expr) -> &Expr {
    match e { Expr::Paren(p) => unparen(&p.expr), Expr::Group(p) => unparen(&p.expr), _ => e }
}
fn last_path(e: &Expr) -> Option<String> {
    if let Expr::Path(p) = unparen(e) { return p.path.segments.last().map(|s| s.ident.to_string()); }
    None
}
/// `*((X).borrow())` -> X
fn unborrow(e: &Expr) -> Expr {
    if let Expr::Unary(ExprUnary { op: UnOp::Deref(_), expr, .. }) = unparen(e) {
        if let Expr::MethodCall(m) = unparen(expr) {
            if m.method == "borrow" { return unparen(&m.receiver).clone(); }
        }
    }
    e.clone()
}
fn pat_to_closure_arg(p: &Pat) -> Option<String> {
    match p {
        Pat::Ident(i) if i.subpat.is_none() => Some(i.ident.to_string()),
        Pat::Type(t) => pat_to_closure_arg(&t.pat),
        Pat::Wild(_) => Some("_".into()),
        _ => None,
    }
}
fn clos_pat(c: &ExprClosure) -> Pat {
    match c.inputs.first() { Some(Pat::Type(t)) => (*t.pat).clone(), Some(p) => p.clone(), None => parse_quote!(_) }
}
/// apply a one-argument function value (closure or path) to `v`
fn apply(f: &Expr, v: &Ident) -> (Pat, Expr) {
    match unparen(f) {
        Expr::Closure(c) => (clos_pat(c), (*c.body).clone()),
        Expr::Path(p) => {
            let q = p.clone();
            let mut pth = q;
            strip_path(&mut pth.path);
            (parse_quote!(#v), parse_quote!(#pth(#v)))
        }
        o => (parse_quote!(#v), parse_quote!((#o)(#v))),
    }
}

impl<'a> Rw<'a> {
    /// Whether `e` is an `Option` (true) or a `Result` (false), where its form tells.
    pub fn is_opt(&self, e: &Expr) -> Option<bool> {
        let head = |h: &str| match h { "Option" => Some(true), "Result" => Some(false), _ => None };
        match unparen(e) {
            Expr::MethodCall(m) => match m.method.to_string().as_str() {
                "as_ref" | "as_mut" | "map" | "or" | "or_else" | "and_then" | "clone" | "as_deref" | "copied" | "cloned" | "inspect" => self.is_opt(&m.receiver),
                "first" | "last" | "get" | "next" | "find" | "find_map" | "position" | "rposition" | "ok" | "err" | "checked_add" | "checked_sub" | "checked_mul" | "checked_div" | "checked_ilog2" | "checked_rem" | "checked_pow" | "strip_prefix" | "split_first" | "split_last" | "then" | "then_some" | "pop" | "zip" | "xor" | "take" | "replace" => Some(true),
                "map_err" | "ok_or" | "ok_or_else" | "try_into" | "seek" | "seek_relative" | "stream_position" => Some(false),
                n => self.info.heads.get(n).and_then(|h| head(h)),
            },
            Expr::Call(c) => if let Expr::Path(p) = unparen(&c.func) {
                let n = p.path.segments.last().unwrap().ident.to_string();
                match n.as_str() { "Some" => Some(true), "Ok" | "Err" => Some(false), "try_from" | "from_utf8" => Some(false), n => self.info.heads.get(n).and_then(|h| head(h)) }
            } else { None },
            Expr::Path(p) => p.path.get_ident().and_then(|i| if i == "None" { Some(true) } else { self.vars.get(&i.to_string()).copied() }),
            Expr::Field(f) => if let Member::Named(i) = &f.member { self.info.fields.get(&i.to_string()).and_then(|h| head(h)) } else { None },
            Expr::Reference(r) => self.is_opt(&r.expr),
            Expr::Block(b) => match b.block.stmts.last() { Some(Stmt::Expr(e, None)) => self.is_opt(e), _ => None },
            Expr::If(i) => match i.then_branch.stmts.last() { Some(Stmt::Expr(e, None)) => self.is_opt(e), _ => None },
            Expr::Match(m) => m.arms.iter().find_map(|a| self.is_opt(&a.body)),
            _ => None,
        }
    }
    /// Notes the locals of a body (in order of appearance) for `is_opt`.
    pub fn note_vars(&mut self, sig: &Signature, b: &Block) {
        struct L(Vec<(String, Option<Type>, Option<Expr>)>);
        impl<'x> syn::visit::Visit<'x> for L {
            fn visit_local(&mut self, l: &'x Local) {
                let (p, t) = match &l.pat { Pat::Type(t) => ((*t.pat).clone(), Some((*t.ty).clone())), p => (p.clone(), None) };
                if let Pat::Ident(i) = p { self.0.push((i.ident.to_string(), t, l.init.as_ref().filter(|x| x.diverge.is_none()).map(|x| (*x.expr).clone()))); }
                syn::visit::visit_local(self, l);
            }
        }
        let mut l = L(vec![]);
        for a in &sig.inputs { if let FnArg::Typed(t) = a { if let Pat::Ident(i) = &*t.pat { l.0.push((i.ident.to_string(), Some((*t.ty).clone()), None)); } } }
        syn::visit::Visit::visit_block(&mut l, b);
        for (n, t, e) in l.0 {
            let k = match (&t, &e) { (Some(t), _) => match tname(t).as_str() { "Option" => Some(true), "Result" => Some(false), _ => None }, (_, Some(e)) => self.is_opt(e), _ => None };
            match (k, self.vars.get(&n)) { (Some(k), None) => { self.vars.insert(n, k); } (Some(k), Some(o)) if k == *o => {} (None, None) => {} _ => { self.vars.remove(&n); } }
        }
    }
    fn const_expr(&self, path: &str) -> Option<(Type, Expr)> {
        let key = if let Some(r) = path.strip_prefix("Self::") { format!("{}::{}", self.self_ty.as_ref()?, r) } else {
            let v: Vec<&str> = path.split("::").collect();
            if v.len() >= 2 { v[v.len() - 2..].join("::") } else { path.to_string() }
        };
        self.info.consts.get(&key).cloned()
    }
    fn disc(&self, e: &Expr) -> Option<i128> {
        let p = path_of(e)?;
        let key = if let Some(r) = p.strip_prefix("Self::") { format!("{}::{}", self.self_ty.as_ref()?, r) } else {
            let v: Vec<&str> = p.split("::").collect();
            if v.len() < 2 { return None; }
            v[v.len() - 2..].join("::")
        };
        self.info.disc.get(&key).cloned()
    }
    fn inv(&mut self) -> Stmt { self.inv_with(None, None) }
    /// the annotation of the next loop; `__iK` is the loop's counter, whatever its name
    fn inv_with(&mut self, counter: Option<String>, bound: Option<String>) -> Stmt {
        let k = self.nloops;
        let mut t = self.loops.get(k).cloned().unwrap_or_default();
        self.nloops += 1;
        if let Some(c) = counter { t = t.replace(&format!("__i{k}"), &c); }
        if let (Some(b), Some(r)) = (bound, t.strip_prefix("invariant ")) { t = format!("invariant __n{k} == {b}, {r}"); }
        parse_quote!(__inv!(#t);)
    }
    fn has_try(e: &Expr) -> bool { e.to_token_stream().to_string().contains('?') }
}

impl<'a> VisitMut for Rw<'a> {
    fn visit_path_mut(&mut self, p: &mut Path) {
        strip_path(p);
        visit_mut::visit_path_mut(self, p);
    }
    fn visit_expr_path_mut(&mut self, p: &mut ExprPath) {
        let n = p.path.segments.len();
        visit_mut::visit_expr_path_mut(self, p);
        let m = p.path.segments.len();
        if let Some(q) = &mut p.qself { if q.position > 0 { q.position -= n - m; } else { p.path.leading_colon = Some(Default::default()); } }
    }
    fn visit_type_path_mut(&mut self, p: &mut TypePath) {
        let n = p.path.segments.len();
        visit_mut::visit_type_path_mut(self, p);
        let m = p.path.segments.len();
        if let Some(q) = &mut p.qself { if q.position > 0 { q.position -= n - m; } else { p.path.leading_colon = Some(Default::default()); } }
    }
    fn visit_type_mut(&mut self, t: &mut Type) {
        visit_mut::visit_type_mut(self, t);
        match t {
            Type::Array(a) => { let (e, l) = (&a.elem, &a.len); *t = parse_quote!(Arr<#e, {#l}>); }
            Type::Paren(p) => { *t = (*p.elem).clone(); }
            _ => {}
        }
    }
    fn visit_pat_mut(&mut self, p: &mut Pat) {
        if let Pat::Path(pp) = p {
            if pp.qself.is_none() {
                let s = pp.path.segments.iter().map(|s| s.ident.to_string()).collect::<Vec<_>>().join("::");
                if let Some((_, e)) = self.const_expr(&s) {
                    let ts = e.to_token_stream();
                    if let Ok(np) = syn::parse::Parser::parse2(Pat::parse_multi, ts) { *p = np; }
                }
            }
        }
        if let Pat::Ident(i) = p { if i.by_ref.is_some() { i.by_ref = None; i.mutability = None; } }
        visit_mut::visit_pat_mut(self, p);
    }
    fn visit_block_mut(&mut self, b: &mut Block) {
        let mut m = BTreeMap::new();
        let mut out = vec![];
        for s in b.stmts.drain(..) {
            match &s {
                Stmt::Item(Item::Use(_)) | Stmt::Item(Item::ExternCrate(_)) => continue,
                Stmt::Local(l) => {
                    if let Some(init) = &l.init {
                        if let (Some(n), Expr::Closure(c)) = (pat_to_closure_arg(&l.pat), unparen(&init.expr)) {
                            m.insert(n, c.clone());
                            continue;
                        }
                        if let (Some(n), Expr::Reference(r)) = (pat_to_closure_arg(&l.pat), unparen(&init.expr)) {
                            if r.mutability.is_some() { self.mutrefs.push(n); }
                        }
                    }
                }
                _ => {}
            }
            out.push(s);
        }
        b.stmts = out;
        self.closures.push(m);
        visit_mut::visit_block_mut(self, b);
        self.closures.pop();
    }
    fn visit_stmt_mut(&mut self, s: &mut Stmt) {
        if let Stmt::Local(l) = s { l.attrs.clear(); }
        // a bare call to a Result-returning function as `let _ = e;` stays as it is
        visit_mut::visit_stmt_mut(self, s);
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        // ---- before descending
        match e {
            Expr::Call(c) => {
                // error payloads (messages) are dropped
                if let Expr::Path(p) = unparen(&c.func) {
                    let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                    if segs.len() >= 2 && segs[segs.len() - 2] == "DekuError" {
                        let v = &p.path.segments.last().unwrap().ident;
                        *e = parse_quote!(DekuError::#v);
                        return;
                    }
                    if segs.iter().any(|s| s == "panicking" || s == "panic_fmt") { *e = parse_quote!(vpanic()); return; }
                    // drop(x): x goes out of scope here
                    if segs.last().unwrap() == "drop" && c.args.len() == 1 && (segs.len() == 1 || segs[segs.len() - 2] == "mem") {
                        let a = c.args.first().unwrap().clone();
                        *e = parse_quote!({ let __d = #a; });
                        self.visit_expr_mut(e);
                        return;
                    }
                    if segs.last().map(|s| s.as_str()) == Some("try_from") {
                        let owner = match &p.qself { Some(q) => tname(&q.ty), None if segs.len() >= 2 => segs[segs.len() - 2].clone(), None => String::new() };
                        if owner == "usize" {
                            let a = unborrow(c.args.first().unwrap());
                            *e = parse_quote!(to_count(#a));
                            self.visit_expr_mut(e);
                            return;
                        }
                        if owner == "u8" || owner == "u16" || owner == "u32" {
                            let a = c.args.first().unwrap().clone();
                            let f = Ident::new(&format!("{owner}_try_from"), proc_macro2::Span::call_site());
                            *e = parse_quote!(#f(#a));
                            self.visit_expr_mut(e);
                            return;
                        }
                    }
                    if p.qself.is_none() && segs.len() == 2 && segs[1] == "from" && ["u8", "u16", "u32", "u64", "u128", "usize", "i8", "i16", "i32", "i64", "isize"].contains(&segs[0].as_str()) {
                        let (t, a) = (Ident::new(&segs[0], proc_macro2::Span::call_site()), c.args.clone());
                        *e = parse_quote!(<#t as From<_>>::from(#a));
                        self.visit_expr_mut(e);
                        return;
                    }
                    // the conversion traits are those of verus/pre.rs, not the standard ones also in scope
                    if p.qself.is_none() && segs.len() >= 2 && c.args.len() == 1 && (segs.last().unwrap() == "from" || segs.last().unwrap() == "try_from") {
                        let owner = &segs[segs.len() - 2];
                        if owner.starts_with(|x: char| x.is_uppercase()) && !["String", "Vec", "Box", "From", "TryFrom", "Rc", "Arc", "Cow", "Option"].contains(&owner.as_str()) {
                            let mut t = p.path.clone();
                            let m = t.segments.pop().unwrap().into_value().ident;
                            t.segments.pop_punct();
                            let (tr, a) = (Ident::new(if m == "from" { "From" } else { "TryFrom" }, proc_macro2::Span::call_site()), c.args.clone());
                            *e = parse_quote!(<#t as #tr<_>>::#m(#a));
                            self.visit_expr_mut(e);
                            return;
                        }
                    }
                    // vec![x] by value (expansion of the vec! macro)
                    if segs.last().map(|s| s.as_str()) == Some("box_assume_init_into_vec_unsafe") || segs.last().map(|s| s.as_str()) == Some("into_vec") {
                        let ts = c.args.to_token_stream();
                        if let Some(arr) = find_array(&c.args.first().unwrap().clone()) {
                            let n = arr.elems.len();
                            let el = &arr.elems;
                            *e = if n == 1 { parse_quote!(vec1(#el)) } else { parse_quote!(vec_lit([#el])) };
                            self.visit_expr_mut(e);
                            return;
                        }
                        let _ = ts;
                    }
                    // call of a let-bound closure
                    if segs.len() == 1 {
                        let cl = self.closures.iter().rev().find_map(|m| m.get(&segs[0])).cloned();
                        if let Some(cl) = cl {
                            if let Some(x) = inline_call(cl.inputs.iter().cloned().collect(), &c.args.iter().cloned().collect::<Vec<_>>(), &cl.body) {
                                *e = x;
                                self.visit_expr_mut(e);
                                return;
                            }
                        }
                    }
                }
            }
            Expr::MethodCall(m) => {
                let name = m.method.to_string();
                if name == "write_bits" && m.args.len() == 1 {
                    if let Some((b, n)) = find_repeat(m.args.first().unwrap()) {
                        let r = &m.receiver;
                        *e = parse_quote!(#r.write_rep(#b, #n));
                        self.visit_expr_mut(e);
                        return;
                    }
                }
                if name == "count" && m.args.is_empty() {
                    if let Expr::MethodCall(z) = unparen(&m.receiver) { if z.method == "chars" && z.args.is_empty() {
                        let r = &z.receiver;
                        *e = parse_quote!(#r.chars_count());
                        self.visit_expr_mut(e);
                        return;
                    } }
                }
                if name == "clone_from_slice" || name == "copy_from_slice" {
                    if let Some(x) = arr_copy(m) { *e = x; self.visit_expr_mut(e); return; }
                }
                if let Some(mut x) = crate::iter::inner(&Expr::MethodCall(m.clone())) { self.visit_expr_mut(&mut x); *e = x; return; }
                let clos = m.args.last().map_or(false, |a| matches!(unparen(a), Expr::Closure(c) if !Self::has_try(&c.body) && !c.body.to_token_stream().to_string().contains("return")));
                if clos {
                    let r = &m.receiver;
                    let v: Ident = parse_quote!(__x);
                    let new: Option<Expr> = match (name.as_str(), m.args.len()) {
                        ("map_or", 2) => { let (d, (p, b)) = (&m.args[0], apply(&m.args[1], &v)); Some(parse_quote!((match #r { Some(#p) => #b, None => #d }))) }
                        ("map_or_else", 2) => { let ((_, d), (p, b)) = (apply(&m.args[0], &v), apply(&m.args[1], &v)); Some(parse_quote!((match #r { Some(#p) => #b, None => #d }))) }
                        ("is_some_and", 1) => { let (p, b) = apply(&m.args[0], &v); Some(parse_quote!((match #r { Some(#p) => #b, None => false }))) }
                        ("is_none_or", 1) => { let (p, b) = apply(&m.args[0], &v); Some(parse_quote!((match #r { Some(#p) => #b, None => true }))) }
                        ("is_ok_and", 1) => { let (p, b) = apply(&m.args[0], &v); Some(parse_quote!((match #r { Ok(#p) => #b, Err(_) => false }))) }
                        ("ok_or_else", 1) => { let (_, b) = apply(&m.args[0], &v); Some(parse_quote!((match #r { Some(__v) => Ok(__v), None => Err(#b) }))) }
                        ("and_then", 1) => { let (p, b) = apply(&m.args[0], &v); Some(if self.is_opt(r).unwrap_or(self.ret_opt) { parse_quote!((match #r { Some(#p) => #b, None => None })) } else { parse_quote!((match #r { Ok(#p) => #b, Err(__e) => Err(__e) })) }) }
                        ("or_else", 1) if self.is_opt(r).unwrap_or(self.ret_opt) => { let (_, b) = apply(&m.args[0], &v); Some(parse_quote!((match #r { Some(__v) => Some(__v), None => #b }))) }
                        ("then", 1) => { let (_, b) = apply(&m.args[0], &v); Some(parse_quote!((if #r { Some(#b) } else { None }))) }
                        _ => None,
                    };
                    if let Some(x) = new { *e = x; self.visit_expr_mut(e); return; }
                }
                if name == "unwrap_or_default" && m.args.is_empty() {
                    let r = &m.receiver;
                    let none: Pat = if self.is_opt(r).unwrap_or(true) { parse_quote!(None) } else { parse_quote!(Err(_)) };
                    let some: Ident = if self.is_opt(r).unwrap_or(true) { parse_quote!(Some) } else { parse_quote!(Ok) };
                    *e = parse_quote!((match #r { #some(__v) => __v, #none => Default::default() }));
                    self.visit_expr_mut(e);
                    return;
                }
                if name == "ok_or" && m.args.len() == 1 { let (r, d) = (&m.receiver, &m.args[0]); *e = parse_quote!((match #r { Some(__v) => Ok(__v), None => Err(#d) })); self.visit_expr_mut(e); return; }
                if (name == "map" || name == "map_err") && m.args.len() == 1 && matches!(unparen(&m.args[0]), Expr::Closure(_) | Expr::Path(_)) {
                    let r = &m.receiver;
                    let v: Ident = parse_quote!(__x);
                    let (p, b) = apply(&m.args[0], &v);
                    *e = if name == "map_err" { parse_quote!((match #r { Ok(__v) => Ok(__v), Err(#p) => Err(#b) })) }
                        else if self.is_opt(r).unwrap_or(self.ret_opt) { parse_quote!((match #r { Some(#p) => Some(#b), None => None })) }
                        else { parse_quote!((match #r { Ok(#p) => Ok(#b), Err(__e) => Err(__e) })) };
                    self.visit_expr_mut(e);
                    return;
                }
            }
            Expr::Match(m) => {
                m.attrs.clear();
                // match *x { T { ref a } => .. }  ->  match x { T { a } => .. }
                if let Expr::Unary(ExprUnary { op: UnOp::Deref(_), expr, .. }) = unparen(&m.expr) {
                    let has_ref = m.arms.iter().any(|a| a.pat.to_token_stream().to_string().contains("ref "));
                    if has_ref { let x = expr.clone(); *m.expr = *x; }
                }
                // match &x { &P => .. }  ->  match x { P => .. }
                if m.arms.iter().any(|a| has_ref_pat(&a.pat)) {
                    let x = match unparen(&m.expr) { Expr::Reference(r) => (*r.expr).clone(), o => { let o = o.clone(); parse_quote!(*#o) } };
                    m.expr = Box::new(x);
                    for a in m.arms.iter_mut() { strip_ref_pat(&mut a.pat); }
                }
            }
            Expr::Cast(c) => {
                if let Some(d) = self.disc(&c.expr) {
                    let ty = c.ty.to_token_stream().to_string();
                    let l = LitInt::new(&format!("{d}{ty}"), proc_macro2::Span::call_site());
                    *e = parse_quote!(#l);
                    return;
                }
            }
            Expr::Binary(b) => {
                if matches!(b.op, BinOp::Ge(_) | BinOp::Le(_) | BinOp::Lt(_) | BinOp::Gt(_) | BinOp::Eq(_) | BinOp::Ne(_)) {
                    let cst = |s: &Self, x: &Expr| path_of(x).and_then(|p| s.const_expr(&p)).map_or(false, |(t, _)| {
                        let n = tname(&t);
                        s.info.newtypes.contains(&n) || (n == "Self" && s.self_ty.as_ref().map_or(false, |t| s.info.newtypes.contains(t)))
                    });
                    if cst(self, &b.right) || cst(self, &b.left) {
                        for x in [&mut b.left, &mut b.right] {
                            let y = match unparen(x) { Expr::Unary(ExprUnary { op: UnOp::Deref(_), expr, .. }) => (**expr).clone(), o => o.clone() };
                            **x = parse_quote!((#y).0);
                        }
                    }
                }
            }
            Expr::Reference(r) => {
                // &vec![v] used as a slice
                if r.mutability.is_none() {
                    if let Expr::Call(c) = unparen(&r.expr) {
                        if let Some(n) = last_path(&c.func) {
                            if n == "box_assume_init_into_vec_unsafe" || n == "into_vec" {
                                if let Some(arr) = find_array(&c.args[0]) {
                                    if arr.elems.len() == 1 { let x = &arr.elems[0]; *e = parse_quote!(slice1(#x)); self.visit_expr_mut(e); return; }
                                }
                            }
                        }
                    }
                    if let Expr::Array(a) = unparen(&r.expr) {
                        if a.elems.is_empty() { *e = parse_quote!(slice_empty()); return; }
                        if a.elems.len() == 1 { let x = &a.elems[0]; *e = parse_quote!(slice1(#x)); self.visit_expr_mut(e); return; }
                    }
                    if let Expr::Index(ix) = unparen(&r.expr) {
                        if let Expr::Range(rg) = unparen(&ix.index) {
                            let x = &ix.expr;
                            if let (Some(s), None) = (&rg.start, &rg.end) { *e = parse_quote!(slice_from(#x, #s)); self.visit_expr_mut(e); return; }
                            if let (None, Some(s), RangeLimits::HalfOpen(_)) = (&rg.start, &rg.end, &rg.limits) { *e = parse_quote!(slice_to(#x, #s)); self.visit_expr_mut(e); return; }
                        }
                    }
                } else if let Some(p) = path_of(&r.expr) {
                    if self.mutrefs.contains(&p) { let x = r.expr.clone(); *e = *x; return; }
                }
            }
            Expr::Repeat(r) => {
                let (x, n) = (&r.expr, &r.len);
                *e = parse_quote!(arr_rep::<_, {#n}>(#x));
            }
            Expr::While(w) if w.body.stmts.first().map_or(true, |s| !s.to_token_stream().to_string().starts_with("__inv")) => {
                let c = counter_of(&w.cond, false);
                let inv = self.inv_with(c, None);
                if Self::has_try(&w.cond) || matches!(*w.cond, Expr::Let(_)) {
                    let (c, b) = (&w.cond, &w.body.stmts);
                    *e = parse_quote!(loop { #inv if #c { #(#b)* } else { break; } });
                } else {
                    w.body.stmts.insert(0, inv);
                }
            }
            Expr::Loop(l) if l.label.is_none() && break_guard(&l.body).is_some() => {
                // loop { if C { break; } REST }  ->  while !(C) { REST }
                let c = break_guard(&l.body).unwrap();
                let inv = self.inv_with(counter_of(&c, true), None);
                let rest = &l.body.stmts[1..];
                *e = parse_quote!(while !(#c) { #inv #(#rest)* });
            }
            Expr::Loop(l) => {
                if !l.body.stmts.iter().any(|s| s.to_token_stream().to_string().starts_with("__inv")) {
                    let inv = self.inv();
                    l.body.stmts.insert(0, inv);
                }
            }
            Expr::ForLoop(f) => {
                let k = self.nloops;
                let bound = match unparen(&f.expr) { Expr::Range(ExprRange { end: Some(x), .. }) if lit_int(x).is_some() || path_of(x).is_some() => Some(x.to_token_stream().to_string()), _ => None };
                let inv = self.inv_with(None, bound);
                let i = Ident::new(&format!("__i{k}"), proc_macro2::Span::call_site());
                let (pat, body) = (&f.pat, &f.body.stmts);
                let (ex, enumd) = match unparen(&f.expr) {
                    Expr::MethodCall(m) if m.method == "enumerate" => ((*m.receiver).clone(), true),
                    o => (o.clone(), false),
                };
                match unparen(&ex) {
                    Expr::Range(rg) if rg.start.is_some() && rg.end.is_some() && !enumd => {
                        let (a, b) = (&rg.start, &rg.end);
                        let n = Ident::new(&format!("__n{k}"), proc_macro2::Span::call_site());
                        *e = match rg.limits {
                            RangeLimits::HalfOpen(_) => parse_quote!({ let mut #i = #a; let #n = #b; while #i < #n { #inv let #pat = #i; #i = #i + 1; #(#body)* } }),
                            _ => parse_quote!({ let mut #i = #a; let #n = #b; while #i <= #n { #inv let #pat = #i; #i = #i + 1; #(#body)* } }),
                        };
                    }
                    o => {
                        let x: Expr = match o {
                            Expr::MethodCall(m) if (m.method == "iter" || m.method == "into_iter") && m.args.is_empty() => (*m.receiver).clone(),
                            Expr::Reference(r) => (*r.expr).clone(),
                            o => o.clone(),
                        };
                        if enumd {
                            *e = parse_quote!({ let mut #i: usize = 0; while #i < #x.len() { #inv let #pat = (#i, #x.at(#i)); #i = #i + 1; #(#body)* } });
                        } else {
                            *e = parse_quote!({ let mut #i: usize = 0; while #i < #x.len() { #inv let #pat = #x.at(#i); #i = #i + 1; #(#body)* } });
                        }
                    }
                }
            }
            Expr::Path(p) if p.qself.is_none() => {
                let s = p.path.segments.iter().map(|s| s.ident.to_string()).collect::<Vec<_>>().join("::");
                if let Some((_, x)) = self.const_expr(&s) { *e = parse_quote!((#x)); self.visit_expr_mut(e); return; }
                let bits = match s.as_str() { "u8::BITS" => Some("8u32"), "u16::BITS" => Some("16u32"), "u32::BITS" => Some("32u32"), "u64::BITS" => Some("64u32"), _ => None };
                if let Some(b) = bits { let l = LitInt::new(b, proc_macro2::Span::call_site()); *e = parse_quote!(#l); return; }
            }
            _ => {}
        }
        visit_mut::visit_expr_mut(self, e);
        // ---- after descending
        match e {
            Expr::MethodCall(m) => {
                let name = m.method.to_string();
                let r = &m.receiver;
                let a = &m.args;
                match name.as_str() {
                    "pow" => *e = parse_quote!(pow_u32(#r, #a)),
                    "checked_ilog2" => *e = parse_quote!(checked_ilog2_u32(#r)),
                    "ilog2" => *e = parse_quote!(ilog2_u32(#r)),
                    "leading_zeros" => *e = parse_quote!(leading_zeros_u32(#r)),
                    "or" if a.len() == 1 => *e = parse_quote!(opt_or(#r, #a)),
                    "into" if a.is_empty() => *e = parse_quote!(Into::into(#r)),
                    "try_into" if a.is_empty() => *e = parse_quote!(TryInto::try_into(#r)),
                    "is_empty" => *e = parse_quote!(IsEmpty::is_empty_(&#r)),
                    "max" if a.len() == 1 => *e = parse_quote!(max_u32(#r, #a)),
                    "min" if a.len() == 1 => *e = parse_quote!(min(#r, #a)),
                    "saturating_sub" if a.len() == 1 => *e = parse_quote!(SatSub::sat_sub(#r, #a)),
                    "div_ceil" if a.len() == 1 => *e = parse_quote!(div_ceil_u32(#r, #a)),
                    _ => {}
                }
            }
            Expr::Index(ix) if !matches!(unparen(&ix.index), Expr::Range(_)) => {
                let (x, i) = (&ix.expr, &ix.index);
                *e = parse_quote!((*#x.at(#i)));
            }
            Expr::Paren(p) if lit_int(&p.expr).is_some() && matches!(*p.expr, Expr::Lit(_)) => { let x = (*p.expr).clone(); *e = x; }
            _ => {}
        }
    }
}

/// `f(args)` with f's body: parameters that are plain names bound to plain names are substituted,
/// the others are bound by one tuple `let`
pub fn inline_call(params: Vec<Pat>, args: &[Expr], body: &Expr) -> Option<Expr> {
    if params.len() != args.len() { return None; }
    let mut m = BTreeMap::new();
    let (mut ps, mut es): (Vec<Pat>, Vec<Expr>) = (vec![], vec![]);
    for (p, a) in params.into_iter().zip(args) {
        let (pat, ty) = match &p { Pat::Type(t) => ((*t.pat).clone(), Some((*t.ty).clone())), o => (o.clone(), None) };
        let plain = match &pat { Pat::Ident(i) if i.mutability.is_none() && i.subpat.is_none() => Some(i.ident.to_string()), _ => None };
        let arg_plain = path_of(a).map_or(false, |s| !s.contains("::"));
        match (plain, arg_plain) {
            (Some(n), true) if n != "_" => { m.insert(n, a.clone()); }
            _ => {
                let simple = ty.as_ref().map_or(false, |t| matches!(t.to_token_stream().to_string().as_str(), "u8" | "u16" | "u32" | "u64" | "usize" | "bool" | "i8" | "i32" | "i64"));
                ps.push(pat);
                let closed = ty.as_ref().map_or(false, |t| { let s = t.to_token_stream().to_string(); !s.contains('_') && !s.contains('&') && !s.contains('\'') });
                es.push(if simple || closed { let t = ty.unwrap(); parse_quote!({ let __a: #t = #a; __a }) } else { a.clone() });
            }
        }
    }
    let mut b = body.clone();
    Subst { m: &m }.visit_expr_mut(&mut b);
    Some(match ps.len() {
        0 => parse_quote!(({ #b })),
        1 => { let (p, x) = (&ps[0], &es[0]); parse_quote!(({ let #p = #x; #b })) }
        _ => parse_quote!(({ let (#(#ps),*) = (#(#es),*); #b })),
    })
}

/// the variable a loop condition counts with: `i < n`, `n > i`, `i != n` (`exit`: `i >= n`, `i == n`)
pub fn counter_of(c: &Expr, exit: bool) -> Option<String> {
    if let Expr::Binary(b) = unparen(c) {
        let (l, r) = (path_of(&b.left).filter(|s| !s.contains("::")), path_of(&b.right).filter(|s| !s.contains("::")));
        return match (&b.op, exit) {
            (BinOp::Lt(_) | BinOp::Le(_) | BinOp::Ne(_), false) | (BinOp::Ge(_) | BinOp::Gt(_) | BinOp::Eq(_), true) => l,
            (BinOp::Gt(_) | BinOp::Ge(_), false) | (BinOp::Le(_) | BinOp::Lt(_), true) => r,
            (BinOp::And(_), false) => counter_of(&b.left, false).or(counter_of(&b.right, false)),
            _ => None,
        };
    }
    None
}
/// C of a block that starts with `if C { break; }`
pub fn break_guard(b: &Block) -> Option<Expr> {
    if let Some(Stmt::Expr(Expr::If(f), _)) = b.stmts.first() {
        let one = f.then_branch.stmts.len() == 1 && matches!(&f.then_branch.stmts[0], Stmt::Expr(Expr::Break(x), _) if x.expr.is_none() && x.label.is_none());
        let simple = !f.cond.to_token_stream().to_string().contains('?') && !f.cond.to_token_stream().to_string().contains("let ");
        if one && f.else_branch.is_none() && simple { return Some((*f.cond).clone()); }
    }
    None
}

fn has_ref_pat(p: &Pat) -> bool {
    match p { Pat::Reference(_) => true, Pat::Or(o) => o.cases.iter().any(has_ref_pat), Pat::Paren(q) => has_ref_pat(&q.pat), _ => false }
}
fn strip_ref_pat(p: &mut Pat) {
    match p {
        Pat::Reference(r) => { let q = (*r.pat).clone(); *p = q; }
        Pat::Or(o) => for c in o.cases.iter_mut() { strip_ref_pat(c); },
        Pat::Paren(q) => strip_ref_pat(&mut q.pat),
        _ => {}
    }
}
fn find_array(e: &Expr) -> Option<ExprArray> {
    struct F(Option<ExprArray>);
    impl<'x> syn::visit::Visit<'x> for F {
        fn visit_expr_array(&mut self, a: &'x ExprArray) { if self.0.is_none() { self.0 = Some(a.clone()); } }
    }
    let mut f = F(None);
    syn::visit::Visit::visit_expr(&mut f, e);
    f.0
}
fn find_repeat(e: &Expr) -> Option<(Expr, Expr)> {
    match unparen(e) {
        Expr::MethodCall(m) if m.method == "as_bitslice" => find_repeat(&m.receiver),
        Expr::Reference(r) => find_repeat(&r.expr),
        Expr::Call(c) if last_path(&c.func).as_deref() == Some("repeat") && c.args.len() == 2 => Some((c.args[0].clone(), c.args[1].clone())),
        _ => None,
    }
}
/// X[a..b].clone_from_slice(&Y.as_bytes()[c..d])
fn arr_copy(m: &ExprMethodCall) -> Option<Expr> {
    let rng = |e: &Expr| -> Option<(Expr, Expr, Expr)> {
        if let Expr::Index(ix) = unparen(e) {
            if let Expr::Range(r) = unparen(&ix.index) {
                if !matches!(r.limits, RangeLimits::HalfOpen(_)) { return None; }
                let s: Expr = match &r.start { Some(s) => (**s).clone(), None => parse_quote!(0usize) };
                let z = &ix.expr;
                let t: Expr = match &r.end { Some(s) => (**s).clone(), None => parse_quote!(#z.len()) };
                return Some(((*ix.expr).clone(), s, t));
            }
        }
        None
    };
    let (x, a, b) = rng(&m.receiver)?;
    let arg = match unparen(m.args.first()?) { Expr::Reference(r) => (*r.expr).clone(), o => o.clone() };
    let (y, c, d) = rng(&arg)?;
    match unparen(&y) { Expr::MethodCall(z) if z.method == "as_bytes" => {} Expr::Path(_) => {} _ => return None };
    Some(parse_quote!(arr_copy(&mut #x, #a, #b, &#y, #c, #d)))
}
/// a function whose tail is an immediately called closure: its body replaces the call
/// (`?` and `return` then leave the function, which is where the closure's value went)
pub fn unwrap_tail_closure(b: &mut Block) {
    let n = b.stmts.len();
    let mut found: Option<(usize, ExprClosure, Vec<Expr>, Expr)> = None;
    if let Some(Stmt::Expr(e, None)) = b.stmts.last() {
        match unparen(e) {
            Expr::Call(c) => if let Expr::Closure(cl) = unparen(&c.func) { found = Some((n - 1, cl.clone(), c.args.iter().cloned().collect(), (*cl.body).clone())); },
            Expr::Closure(cl) => if let Expr::Call(c) = unparen(&cl.body) { if matches!(unparen(&c.func), Expr::Block(_)) { found = Some((n - 1, cl.clone(), c.args.iter().cloned().collect(), (*c.func).clone())); } },
            Expr::Tuple(_) | Expr::Paren(_) if n >= 2 => {
                if let Stmt::Expr(p, None) = &b.stmts[n - 2] { if let Expr::Closure(cl) = unparen(p) {
                    let args = match e { Expr::Tuple(t) => t.elems.iter().cloned().collect(), Expr::Paren(p) => vec![(*p.expr).clone()], _ => vec![] };
                    found = Some((n - 2, cl.clone(), args, (*cl.body).clone()));
                } }
            }
            _ => if n >= 2 { if let (Stmt::Expr(p, None), Expr::Paren(a)) = (&b.stmts[n - 2], e) { if let Expr::Closure(cl) = unparen(p) {
                found = Some((n - 2, cl.clone(), vec![(*a.expr).clone()], (*cl.body).clone()));
            } } }
        }
    }
    if let Some((k, cl, args, body)) = found {
        if let Some(x) = inline_call(cl.inputs.iter().cloned().collect(), &args, &body) {
            b.stmts.truncate(k);
            b.stmts.push(Stmt::Expr(x, None));
        }
    }
}
pub fn _unused() { let _ = quote!(); }
