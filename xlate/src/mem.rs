//! Lowering of hand-managed storage: a local array of MaybeUninit elements and a local guard whose Drop impl
//! drops a prefix of it. Everything the compiler does implicitly (running the guard's destructor when the function
//! is left) becomes explicit, so that its preconditions are obligations:
//!   let X: [MaybeUninit<T>; N] = (uninitialised)     ->  let mut __mu: MuArr<T, {N}> = mu_uninit();
//!   X[i].write(v) / X[i] = MaybeUninit::new(v)       ->  __mu.write_at(i, v)
//!   X.map(|e| e.assume_init())                       ->  __mu.assume_init_all()
//!   X.as_mut_ptr() (as *mut T)                       ->  __mu.base()
//!   let D = Guard { f: a, g: b };                    ->  let mut __g_f = a; let mut __g_g = b;   (__ptr, __cnt: the two the destructor uses)
//!   leaving by `?`, return or the end while D lives  ->  the body of Guard::drop, with drop_in_place(from_raw_parts_mut(p, n)) as __mu.drop_prefix(p, n), then leaving
//!   mem::forget(D)                                   ->  D no longer lives
//!   drop(D)                                          ->  the body of Guard::drop, and D no longer lives
use std::collections::HashMap;
use syn::visit_mut::{self, VisitMut};
use syn::*;
use quote::ToTokens;
use crate::rewrite::unparen;

type Drops = HashMap<String, (Vec<Stmt>, String, String)>;

fn last(p: &Path) -> String { p.segments.last().map(|s| s.ident.to_string()).unwrap_or_default() }
fn strip(e: &Expr) -> &Expr {
    match unparen(e) {
        Expr::Unsafe(u) if u.block.stmts.len() == 1 => match &u.block.stmts[0] { Stmt::Expr(x, _) => strip(x), _ => e },
        Expr::Block(u) if u.label.is_none() && u.block.stmts.len() == 1 => match &u.block.stmts[0] { Stmt::Expr(x, _) => strip(x), _ => e },
        x => x,
    }
}
fn is_var(e: &Expr, n: &str) -> bool { matches!(strip(e), Expr::Path(p) if p.path.is_ident(n)) }

/// Guard::drop whose body is `drop_in_place(from_raw_parts_mut(self.p, self.n))`
fn collect(items: &[Item], out: &mut Drops) {
    for i in items {
        match i {
            Item::Mod(m) => if let Some((_, v)) = &m.content { collect(v, out); },
            Item::Impl(im) => {
                if !im.trait_.as_ref().map_or(false, |t| last(&t.1) == "Drop") { continue; }
                let ty = match &*im.self_ty { Type::Path(p) => last(&p.path), _ => continue };
                for f in &im.items { if let ImplItem::Fn(f) = f {
                    if f.block.stmts.len() != 1 { continue; }
                    let e = match &f.block.stmts[0] { Stmt::Expr(x, _) => strip(x), _ => continue };
                    if let Expr::Call(c) = e { if let (Expr::Path(p), Some(a)) = (unparen(&c.func), c.args.first()) { if last(&p.path) == "drop_in_place" {
                        if let Expr::Call(d) = strip(a) { if let Expr::Path(q) = unparen(&d.func) { if last(&q.path).starts_with("from_raw_parts_mut") && d.args.len() == 2 {
                            let fld = |e: &Expr| match unparen(e) { Expr::Field(x) if is_var(&x.base, "self") => Some(x.member.to_token_stream().to_string()), _ => None };
                            if let (Some(a), Some(b)) = (fld(&d.args[0]), fld(&d.args[1])) { out.insert(ty.clone(), (vec![], a, b)); }
                        } } }
                    } } }
                } }
            }
            _ => {}
        }
    }
}

struct Low<'a> { drops: &'a Drops, mu: Option<String>, guard: Option<(String, String, String)>, live: bool }
impl<'a> Low<'a> {
    fn cleanup(&self) -> Option<Stmt> { if self.live { Some(parse_quote!(__mu.drop_prefix(&__ptr, __cnt);)) } else { None } }
}
impl<'a> VisitMut for Low<'a> {
    fn visit_item_mut(&mut self, _: &mut Item) {}
    fn visit_block_mut(&mut self, b: &mut Block) {
        let mut out: Vec<Stmt> = vec![];
        let (outer, n) = (self.live, b.stmts.len());
        for (k, mut s) in std::mem::take(&mut b.stmts).into_iter().enumerate() {
            // declarations
            if let Stmt::Local(l) = &s {
                if let (Pat::Type(pt), Some(init)) = (&l.pat, &l.init) {
                    if let (Pat::Ident(id), Type::Array(a)) = (&*pt.pat, &*pt.ty) {
                        if let Type::Path(tp) = &*a.elem { if last(&tp.path) == "MaybeUninit" && self.mu.is_none() && uninit(&init.expr) {
                            if let PathArguments::AngleBracketed(g) = &tp.path.segments.last().unwrap().arguments {
                                let (t, len) = (&g.args, &a.len);
                                self.mu = Some(id.ident.to_string());
                                out.push(parse_quote!(let mut __mu: MuArr<#t, {#len}> = mu_uninit();));
                                continue;
                            }
                        } }
                    }
                }
                let id = match &l.pat { Pat::Ident(i) => Some(i.ident.to_string()), Pat::Type(t) => match &*t.pat { Pat::Ident(i) => Some(i.ident.to_string()), _ => None }, _ => None };
                if let (Some(id), Some(init), None) = (id, &l.init, &self.guard) {
                    if let Expr::Struct(st) = unparen(&init.expr) { if let Some((_, p, c)) = self.drops.get(&last(&st.path)) {
                        let mut ok = st.rest.is_none();
                        let mut lets: Vec<Stmt> = vec![];
                        for f in &st.fields {
                            let m = f.member.to_token_stream().to_string();
                            let mut e = f.expr.clone();
                            self.visit_expr_mut(&mut e);
                            if m == *p { lets.push(parse_quote!(let __ptr = #e;)); } else if m == *c { lets.push(parse_quote!(let mut __cnt: usize = #e;)); } else { ok = false; }
                        }
                        if ok { self.guard = Some((id, p.clone(), c.clone())); self.live = true; out.extend(lets); continue; }
                    } }
                }
            }
            // forget
            if let (Some((g, ..)), Stmt::Expr(Expr::Call(c), Some(_))) = (&self.guard, &s) {
                if let Expr::Path(p) = unparen(&c.func) { if last(&p.path) == "forget" && c.args.len() == 1 && is_var(&c.args[0], g) { self.live = false; continue; }
                    if last(&p.path) == "drop" && c.args.len() == 1 && is_var(&c.args[0], g) { out.extend(self.cleanup()); self.live = false; continue; } }
            }
            self.visit_stmt_mut(&mut s);
            // the end of the block that declared the guard
            if k + 1 == n && !outer {
                if let Some(cl) = self.cleanup() {
                    match s {
                        Stmt::Expr(e, None) => { out.push(parse_quote!(let __r = #e;)); out.push(cl); out.push(Stmt::Expr(parse_quote!(__r), None)); self.live = false; continue; }
                        s => { out.push(s); out.push(cl); self.live = false; continue; }
                    }
                }
            }
            out.push(s);
        }
        b.stmts = out;
        if outer { self.live = outer; }
    }
    fn visit_expr_closure_mut(&mut self, _: &mut ExprClosure) {}
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        let mu = self.mu.clone().unwrap_or_default();
        let isx = |x: &Expr| !mu.is_empty() && is_var(x, &mu);
        let new: Option<Expr> = match &*e {
            Expr::Cast(c) => match (strip(&c.expr), &*c.ty) { (Expr::MethodCall(m), Type::Ptr(_)) if m.method == "as_mut_ptr" && isx(&m.receiver) => Some(parse_quote!(__mu.base())), _ => None },
            Expr::MethodCall(m) if m.method == "as_mut_ptr" && isx(&m.receiver) => Some(parse_quote!(__mu.base())),
            Expr::MethodCall(m) if m.method == "write" && m.args.len() == 1 => match unparen(&m.receiver) {
                Expr::Index(ix) if isx(&ix.expr) => { let (i, v) = (&ix.index, &m.args[0]); Some(parse_quote!({ let __x = #v; __mu.write_at(#i, __x) })) }
                _ => None,
            },
            Expr::Assign(a) => match (unparen(&a.left), unparen(&a.right)) {
                (Expr::Index(ix), Expr::Call(c)) if isx(&ix.expr) && c.args.len() == 1 && matches!(unparen(&c.func), Expr::Path(p) if p.path.segments.iter().any(|s| s.ident == "MaybeUninit") && last(&p.path) == "new") => {
                    let (i, v) = (&ix.index, &c.args[0]); Some(parse_quote!({ let __x = #v; __mu.write_at(#i, __x) }))
                }
                _ => None,
            },
            Expr::MethodCall(m) if m.method == "map" && m.args.len() == 1 && isx(&m.receiver) => match unparen(&m.args[0]) {
                Expr::Closure(c) if c.inputs.len() == 1 => match strip(&c.body) { Expr::MethodCall(z) if z.method == "assume_init" => Some(parse_quote!(__mu.assume_init_all())), _ => None },
                _ => None,
            },
            Expr::Field(f) => match &self.guard {
                Some((g, p, c)) if is_var(&f.base, g) => { let m = f.member.to_token_stream().to_string(); if m == *p { Some(parse_quote!(__ptr)) } else if m == *c { Some(parse_quote!(__cnt)) } else { None } }
                _ => None,
            },
            Expr::Try(t) if self.live => { let (x, cl) = (&t.expr, self.cleanup()); Some(parse_quote!(match #x { Ok(__v) => __v, Err(__e) => { #cl return Err(__e); } })) }
            Expr::Return(r) if self.live => { let (x, cl) = (&r.expr, self.cleanup()); Some(match x { Some(x) => parse_quote!({ let __r = #x; #cl return __r; }), None => parse_quote!({ #cl return; }) }) }
            _ => None,
        };
        if let Some(x) = new {
            *e = x;
            let live = std::mem::replace(&mut self.live, false);
            // what was inside still has to be lowered, but the exits made here are final
            if live { let mut t = Inner(self); t.visit(e); self.live = true; } else { self.visit_expr_mut_children(e); }
            return;
        }
        visit_mut::visit_expr_mut(self, e);
    }
}
impl<'a> Low<'a> { fn visit_expr_mut_children(&mut self, e: &mut Expr) { visit_mut::visit_expr_mut(self, e); } }
struct Inner<'a, 'b>(&'a mut Low<'b>);
impl<'a, 'b> Inner<'a, 'b> {
    fn visit(&mut self, e: &mut Expr) {
        match e {
            // match X { .. }: lower X with the guard alive
            Expr::Match(m) => { self.0.live = true; self.0.visit_expr_mut(&mut m.expr); }
            Expr::Block(b) => { if let Some(Stmt::Local(l)) = b.block.stmts.first_mut() { if let Some(i) = &mut l.init { self.0.live = true; self.0.visit_expr_mut(&mut i.expr); } } }
            _ => { self.0.live = true; visit_mut::visit_expr_mut(self.0, e); }
        }
    }
}
/// MaybeUninit::uninit().assume_init(), [const { MaybeUninit::uninit() }; N], MaybeUninit::uninit_array()
fn uninit(e: &Expr) -> bool {
    match strip(e) {
        Expr::MethodCall(m) => m.method == "assume_init" && uninit(&m.receiver),
        Expr::Call(c) => matches!(unparen(&c.func), Expr::Path(p) if p.path.segments.iter().any(|s| s.ident == "MaybeUninit") && matches!(last(&p.path).as_str(), "uninit" | "uninit_array")),
        Expr::Repeat(r) => match strip(&r.expr) { Expr::Const(c) => c.block.stmts.len() == 1 && matches!(&c.block.stmts[0], Stmt::Expr(x, None) if uninit(x)), x => uninit(x) },
        _ => false,
    }
}
struct Fns<'a>(&'a Drops);
impl<'a> VisitMut for Fns<'a> {
    fn visit_item_fn_mut(&mut self, f: &mut ItemFn) {
        if !f.block.to_token_stream().to_string().contains("MaybeUninit") { return; }
        let mut b = (*f.block).clone();
        let mut l = Low { drops: self.0, mu: None, guard: None, live: false };
        l.visit_block_mut(&mut b);
        // the array or the guard still mentioned: not this shape, leave the function as it is
        let t = b.to_token_stream().to_string();
        let word = |w: &str| t.split(|c: char| !c.is_alphanumeric() && c != '_').any(|x| x == w);
        if l.mu.as_deref().map_or(true, |m| word(m)) || l.guard.as_ref().map_or(false, |g| word(&g.0)) { return; }
        *f.block = b;
    }
}
pub fn run(f: &mut File) {
    let mut d = Drops::new();
    collect(&f.items, &mut d);
    Fns(&d).visit_file_mut(f);
}
