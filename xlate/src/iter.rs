//! Iterator chains over a slice or vector in tail position are written out as the loop they stand for.
use crate::rewrite::unparen;
use quote::ToTokens;
use syn::*;

fn base(e: &Expr) -> Option<Expr> {
    if let Expr::MethodCall(m) = unparen(e) { if (m.method == "iter" || m.method == "into_iter") && m.args.is_empty() { return Some(e.clone()); } }
    None
}
/// receiver, parameter pattern and body of `.name(|p| b)`
fn step(e: &Expr, names: &[&str]) -> Option<(String, Expr, Pat, Expr)> {
    if let Expr::MethodCall(m) = unparen(e) {
        let n = m.method.to_string();
        if names.contains(&n.as_str()) && m.args.len() == 1 {
            if let Expr::Closure(c) = unparen(&m.args[0]) {
                let p = match c.inputs.first()? { Pat::Type(t) => (*t.pat).clone(), p => p.clone() };
                let s = c.body.to_token_stream().to_string();
                if s.contains("return") || (s.contains('?') && n != "try_for_each") || c.inputs.len() != 1 { return None; }
                return Some((n, (*m.receiver).clone(), p, (*c.body).clone()));
            }
        }
    }
    None
}
/// `filter` and `find` hand out a reference to the item: one level of reference is taken off
fn deref_pat(p: Pat) -> Pat { match p { Pat::Reference(r) => *r.pat, p => p } }

fn range(e: &Expr) -> bool { matches!(unparen(e), Expr::Range(r) if r.start.is_some() && r.end.is_some()) }
fn source(e: &Expr) -> Option<Expr> { if range(e) { Some(unparen(e).clone()) } else { base(e) } }
/// the binding of the parameter of `find`/`filter`, which is handed a reference to the item
fn by_ref(x: &Expr, p: Pat) -> Stmt {
    match p {
        Pat::Reference(r) => { let p = r.pat; parse_quote!(let #p = __it;) }
        p if range(x) => parse_quote!(let #p = &__it;),
        p => parse_quote!(let #p = __it;),
    }
}
/// The same anywhere else in an expression: the loop ends with `break` and leaves its result in a local.
pub fn inner(e: &Expr) -> Option<Expr> {
    if let Some((n, x, p, f)) = step(e, &["find_map", "find", "any", "all", "position"]) {
        let x = source(&x)?;
        let r = by_ref(&x, p.clone());
        return Some(match n.as_str() {
            "find_map" => parse_quote!({ let mut __f = None; for __it in #x { let #p = __it; __f = #f; if __f.is_some() { break; } } __f }),
            "find" => parse_quote!({ let mut __f = None; for __it in #x { #r if #f { __f = Some(__it); break; } } __f }),
            "any" => parse_quote!({ let mut __f = false; for __it in #x { let #p = __it; if #f { __f = true; break; } } __f }),
            "all" => parse_quote!({ let mut __f = true; for __it in #x { let #p = __it; if !(#f) { __f = false; break; } } __f }),
            _ => parse_quote!({ let mut __f = None; let mut __k = 0usize; for __it in #x { let #p = __it; if #f { __f = Some(__k); break; } __k = __k + 1; } __f }),
        });
    }
    if let Expr::MethodCall(m) = unparen(e) {
        let n = m.method.to_string();
        if n == "fold" && m.args.len() == 2 {
            let x = source(&m.receiver)?;
            if let Expr::Closure(c) = unparen(&m.args[1]) {
                if c.inputs.len() != 2 { return None; }
                let s = c.body.to_token_stream().to_string();
                if s.contains("return") || s.contains('?') { return None; }
                let bare = |p: &Pat| match p { Pat::Type(t) => (*t.pat).clone(), p => p.clone() };
                let (a, p) = (bare(&c.inputs[0]), bare(&c.inputs[1]));
                let a = match a { Pat::Ident(i) => i.ident, _ => return None };
                let (f, d) = (&c.body, &m.args[0]);
                return Some(parse_quote!({ let mut #a = #d; for __it in #x { let #p = __it; #a = #f; } #a }));
            }
        }
        if n == "count" && m.args.is_empty() {
            let (_, x, p, f) = step(&m.receiver, &["filter"])?;
            let x = source(&x)?;
            let r = by_ref(&x, p);
            return Some(parse_quote!({ let mut __k = 0usize; for __it in #x { #r if #f { __k = __k + 1; } } __k }));
        }
    }
    None
}

pub fn expand(e: &Expr) -> Option<Vec<Stmt>> {
    let b: Block = if let Some((n, x, p, f)) = step(e, &["find_map", "find", "any", "all", "try_for_each"]) {
        let x = base(&x)?;
        match n.as_str() {
            "find_map" => parse_quote!({ for __it in #x { let #p = __it; if let Some(__v) = #f { return Some(__v); } } None }),
            "find" => { let p = deref_pat(p); parse_quote!({ for __it in #x { let #p = __it; if #f { return Some(__it); } } None }) }
            "any" => parse_quote!({ for __it in #x { let #p = __it; if #f { return true; } } false }),
            "all" => parse_quote!({ for __it in #x { let #p = __it; if !(#f) { return false; } } true }),
            _ => parse_quote!({ for __it in #x { let #p = __it; (#f)?; } Ok(()) }),
        }
    } else if let Expr::MethodCall(m) = unparen(e) {
        if !m.args.is_empty() { return None; }
        let (n, x, p, f) = step(&m.receiver, &["filter_map", "filter", "map"])?;
        let x = base(&x)?;
        match (m.method.to_string().as_str(), n.as_str()) {
            ("next", "filter_map") => parse_quote!({ for __it in #x { let #p = __it; if let Some(__v) = #f { return Some(__v); } } None }),
            ("next", "filter") => { let p = deref_pat(p); parse_quote!({ for __it in #x { let #p = __it; if #f { return Some(__it); } } None }) }
            ("collect", "filter_map") => parse_quote!({ let mut __c = Vec::new(); for __it in #x { let #p = __it; if let Some(__v) = #f { __c.push(__v); } } __c }),
            ("collect", "filter") => { let p = deref_pat(p); parse_quote!({ let mut __c = Vec::new(); for __it in #x { let #p = __it; if #f { __c.push(__it); } } __c }) }
            ("collect", "map") => parse_quote!({ let mut __c = Vec::new(); for __it in #x { let #p = __it; __c.push(#f); } __c }),
            _ => return None,
        }
    } else { return None };
    Some(b.stmts)
}
fn mentions(t: impl ToTokens, n: &Ident) -> usize {
    fn go(t: proc_macro2::TokenStream, n: &Ident) -> usize { t.into_iter().map(|x| match x { proc_macro2::TokenTree::Group(g) => go(g.stream(), n), proc_macro2::TokenTree::Ident(i) => (i == *n) as usize, _ => 0 }).sum() }
    go(t.to_token_stream(), n)
}
/// `let mut it = x.iter(); .. while let Some(p) = it.next() { .. }` with no other use of `it` is `for p in x.iter() { .. }`
fn while_next(b: &mut Block) {
    for i in 0..b.stmts.len() {
        let Stmt::Local(l) = &b.stmts[i] else { continue };
        let (Pat::Ident(id), Some(init)) = (&l.pat, &l.init) else { continue };
        let (id, Some(x)) = (id.ident.clone(), base(&init.expr)) else { continue };
        let Expr::MethodCall(m) = unparen(&x) else { continue };
        if !matches!(unparen(&m.receiver), Expr::Path(_) | Expr::Field(_)) { continue }
        if b.stmts[i + 1..].iter().map(|s| mentions(s, &id)).sum::<usize>() != 1 { continue }
        for j in i + 1..b.stmts.len() {
            let Stmt::Expr(Expr::While(w), _) = &b.stmts[j] else { continue };
            let Expr::Let(c) = &*w.cond else { continue };
            let Pat::TupleStruct(p) = &*c.pat else { continue };
            let Expr::MethodCall(n) = unparen(&c.expr) else { continue };
            if n.method != "next" || n.receiver.to_token_stream().to_string() != id.to_string() || p.elems.len() != 1 || p.path.segments.last().map(|s| s.ident != "Some").unwrap_or(true) { continue }
            // a pattern that may not match would end the loop
            let q = p.elems[0].clone();
            if !matches!(&q, Pat::Ident(i) if i.subpat.is_none()) && !matches!(&q, Pat::Wild(_)) { continue }
            let (lb, body) = (&w.label, &w.body);
            let f: Expr = parse_quote!(#lb for #q in #x #body);
            b.stmts[j] = Stmt::Expr(f, None);
            b.stmts.remove(i);
            return while_next(b);
        }
    }
}
pub fn block(b: &mut Block) {
    while_next(b);
    if let Some(Stmt::Expr(e, None)) = b.stmts.last_mut() {
        if let Some(s) = expand(e) { b.stmts.pop(); b.stmts.extend(s); } else { tail(e); }
    }
}
fn tail(e: &mut Expr) {
    match e {
        Expr::Paren(p) => tail(&mut p.expr),
        Expr::Block(b) if b.label.is_none() => block(&mut b.block),
        Expr::If(f) => { block(&mut f.then_branch); if let Some((_, x)) = &mut f.else_branch { tail(x); } }
        Expr::Match(m) => for a in m.arms.iter_mut() { if let Some(s) = expand(&a.body) { a.body = Box::new(parse_quote!({ #(#s)* })); } else { tail(&mut a.body); } },
        _ => {}
    }
}
