use std::collections::{BTreeMap, BTreeSet};
use syn::*;

/// facts about the crate that the rewriting needs
#[derive(Default)]
pub struct Info {
    /// "Type::CONST" -> (type, expression)
    pub consts: BTreeMap<String, (Type, Expr)>,
    /// names of types with a Copy impl (by module path)
    pub copy: BTreeSet<String>,
    /// "Enum::Variant" -> discriminant
    pub disc: BTreeMap<String, i128>,
    /// names of structs with exactly one unnamed field
    pub newtypes: BTreeSet<String>,
    /// functions inlined into their callers
    pub inlined: Vec<String>,
    /// functions that still call functions without a contract
    pub opaque: BTreeMap<String, Vec<String>>,
    /// "mod::Type" of every struct/enum defined in the crate
    pub types: BTreeSet<String>,
    /// name of a function -> head of its return type ("" when functions of that name differ)
    pub heads: BTreeMap<String, String>,
    /// name of a field -> head of its type ("" when fields of that name differ)
    pub fields: BTreeMap<String, String>,
}

fn note(m: &mut BTreeMap<String, String>, k: String, v: String) {
    m.entry(k).and_modify(|x| if *x != v { x.clear(); }).or_insert(v);
}

pub fn tname(t: &Type) -> String {
    match t {
        Type::Path(p) => p.path.segments.last().unwrap().ident.to_string(),
        Type::Reference(r) => tname(&r.elem),
        Type::Paren(p) => tname(&p.elem),
        Type::Group(p) => tname(&p.elem),
        _ => "?".into(),
    }
}

pub fn lit_int(e: &Expr) -> Option<i128> {
    match e {
        Expr::Lit(ExprLit { lit: Lit::Int(i), .. }) => i.base10_parse::<i128>().ok(),
        Expr::Paren(p) => lit_int(&p.expr),
        Expr::Group(p) => lit_int(&p.expr),
        Expr::Cast(c) => lit_int(&c.expr),
        Expr::Unary(ExprUnary { op: UnOp::Neg(_), expr, .. }) => lit_int(expr).map(|x| -x),
        Expr::Binary(b) => {
            let (x, y) = (lit_int(&b.left)?, lit_int(&b.right)?);
            match b.op {
                BinOp::Add(_) => x.checked_add(y),
                BinOp::Sub(_) => x.checked_sub(y),
                BinOp::Mul(_) => x.checked_mul(y),
                BinOp::BitOr(_) => Some(x | y),
                BinOp::Shl(_) => x.checked_shl(y as u32),
                _ => None,
            }
        }
        _ => None,
    }
}

impl Info {
    fn head(&mut self, s: &Signature) {
        note(&mut self.heads, s.ident.to_string(), match &s.output { ReturnType::Type(_, t) => tname(t), _ => "()".into() });
    }
    pub fn collect(&mut self, items: &[Item], path: &str) {
        for it in items {
            match it {
                Item::Mod(m) => {
                    if let Some((_, its)) = &m.content {
                        let p = if path.is_empty() { m.ident.to_string() } else { format!("{path}::{}", m.ident) };
                        self.collect(its, &p);
                    }
                }
                Item::Struct(s) => {
                    self.types.insert(format!("{path}::{}", s.ident));
                    for f in &s.fields { if let Some(i) = &f.ident { note(&mut self.fields, i.to_string(), tname(&f.ty)); } }
                    if let Fields::Unnamed(u) = &s.fields {
                        if u.unnamed.len() == 1 { self.newtypes.insert(s.ident.to_string()); }
                    }
                }
                Item::Enum(e) => {
                    self.types.insert(format!("{path}::{}", e.ident));
                    let mut next = 0i128;
                    for v in &e.variants {
                        if let Some((_, d)) = &v.discriminant { if let Some(x) = lit_int(d) { next = x; } }
                        self.disc.insert(format!("{}::{}", e.ident, v.ident), next);
                        next += 1;
                    }
                }
                Item::Fn(f) => self.head(&f.sig),
                Item::Const(c) => { self.consts.insert(c.ident.to_string(), ((*c.ty).clone(), (*c.expr).clone())); }
                Item::Impl(i) => {
                    let tn = tname(&i.self_ty);
                    for x in &i.items { if let ImplItem::Fn(f) = x { self.head(&f.sig); } }
                    if let Some((_, tp, _)) = &i.trait_ {
                        if tp.segments.last().unwrap().ident == "Copy" { self.copy.insert(format!("{path}::{tn}")); }
                    } else {
                        for x in &i.items {
                            if let ImplItem::Const(c) = x {
                                self.consts.insert(format!("{tn}::{}", c.ident), (c.ty.clone(), c.expr.clone()));
                            }
                        }
                    }
                }
                _ => {}
            }
        }
    }
}
