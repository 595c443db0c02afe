use crate::info::{tname, Info};
use crate::rewrite::{strip_path, unwrap_tail_closure, Rw};
use proc_macro2::{Delimiter, TokenStream, TokenTree};
use quote::ToTokens;
use serde_json::{json, Value};
use std::collections::BTreeSet;
use syn::visit_mut::VisitMut;
use syn::*;

pub struct Em<'a> {
    out: String,
    mention: String,
    line: usize,
    con: &'a Value,
    info: &'a Info,
    index: Vec<Value>,
    skipped: Vec<String>,
    demote: BTreeSet<String>,
    used: BTreeSet<String>,
}

/// tokens to text, one statement per line; a leading `__inv!("text");` in a block moves before its brace
pub fn toks(ts: TokenStream, o: &mut String) {
    let v: Vec<TokenTree> = ts.into_iter().collect();
    let mut joint = false;
    for t in v.iter() {
        match t {
            TokenTree::Group(g) => {
                let (a, b) = match g.delimiter() { Delimiter::Brace => ("{\n", "\n}\n"), Delimiter::Bracket => ("[", "]"), Delimiter::Parenthesis => ("(", ")"), Delimiter::None => (" ", " ") };
                if g.delimiter() == Delimiter::Brace {
                    let inner: Vec<TokenTree> = g.stream().into_iter().collect();
                    if inner.len() >= 4 && inner[0].to_string() == "__inv" {
                        if let TokenTree::Group(ig) = &inner[2] {
                            let lit: LitStr = syn::parse2(ig.stream()).unwrap();
                            o.push('\n'); o.push_str(&lit.value()); o.push('\n');
                            o.push_str("{\n");
                            toks(inner[4..].iter().cloned().collect(), o);
                            o.push_str("\n}\n");
                            continue;
                        }
                    }
                }
                o.push_str(a);
                toks(g.stream(), o);
                o.push_str(b);
                joint = false;
            }
            TokenTree::Punct(p) => {
                if !joint { o.push(' '); }
                o.push(p.as_char());
                if p.as_char() == ';' { o.push('\n'); }
                joint = p.spacing() == proc_macro2::Spacing::Joint;
            }
            x => { if !(joint && o.ends_with('\'')) { o.push(' '); } o.push_str(&x.to_string()); joint = false; }
        }
    }
}
pub fn ts<T: ToTokens>(x: &T) -> String { let mut s = String::new(); toks(x.to_token_stream(), &mut s); s }
fn nospace(s: &str) -> String { s.split_whitespace().collect::<Vec<_>>().join("") }

struct LtStrip;
impl VisitMut for LtStrip {
    fn visit_type_reference_mut(&mut self, r: &mut TypeReference) {
        if r.lifetime.as_ref().map_or(false, |l| l.ident == "_" || l.ident == "__deku") { r.lifetime = None; }
        syn::visit_mut::visit_type_reference_mut(self, r);
    }
    fn visit_path_mut(&mut self, p: &mut Path) { strip_path(p); syn::visit_mut::visit_path_mut(self, p); }
    fn visit_type_mut(&mut self, t: &mut Type) {
        syn::visit_mut::visit_type_mut(self, t);
        if let Type::Paren(p) = t { *t = (*p.elem).clone(); }
    }
}
/// The loops of a body (`f`or, `w`hile, `l`oop, in order) or, of a translated body, its closures (`c`).
fn shape_of(b: &Block, loops: bool) -> String {
    struct S(String, bool);
    impl<'x> syn::visit::Visit<'x> for S {
        fn visit_expr(&mut self, e: &'x Expr) {
            match e {
                Expr::ForLoop(_) if self.1 => self.0.push('f'),
                Expr::While(_) if self.1 => self.0.push('w'),
                Expr::Loop(_) if self.1 => self.0.push('l'),
                Expr::Closure(_) if !self.1 => self.0.push('c'),
                _ => {}
            }
            syn::visit::visit_expr(self, e);
        }
    }
    let mut s = S(String::new(), loops);
    syn::visit::Visit::visit_block(&mut s, b);
    s.0
}
pub fn norm_trait(p: &Path) -> String {
    let mut q = p.clone();
    LtStrip.visit_path_mut(&mut q);
    let s = nospace(&q.to_token_stream().to_string());
    match s.as_str() { "DekuReader" => "DekuReader<()>".into(), "DekuWriter" => "DekuWriter<()>".into(), _ => s.replace("OpCode,", "OpCode") }
}
pub fn norm_ty(t: &Type) -> String {
    let mut q = t.clone();
    LtStrip.visit_type_mut(&mut q);
    nospace(&q.to_token_stream().to_string())
}

const KEEP: [&str; 11] = ["DekuReader", "DekuWriter", "DekuContainerRead", "DekuContainerWrite", "DekuEnumExt", "DekuUpdate", "TryFrom", "From", "Into", "Default", "TryInto"];

impl<'a> Em<'a> {
    fn p(&mut self, s: &str) {
        self.line += s.matches('\n').count();
        self.out.push_str(s);
    }
    fn rw(&self, self_ty: Option<String>, ret_opt: bool, loops: Vec<String>) -> Rw<'a> {
        Rw { info: self.info, self_ty, ret_opt, vars: Default::default(), loops, nloops: 0, closures: vec![], mutrefs: vec![] }
    }
    fn ty(&self, t: &Type) -> String { let mut t = t.clone(); self.rw(None, false, vec![]).visit_type_mut(&mut t); ts(&t) }

    fn items(&mut self, items: &[Item], path: &str) {
        for it in items {
            match it {
                Item::Mod(m) => {
                    if m.attrs.iter().any(|a| a.to_token_stream().to_string().contains("cfg")) && m.ident == "test" { continue; }
                    if let Some((_, its)) = &m.content {
                        let p = if path.is_empty() { m.ident.to_string() } else { format!("{path}::{}", m.ident) };
                        self.p(&format!("pub mod {} {{\n#[allow(unused_imports)] use vstd::prelude::*;\n#[allow(unused_imports)] use crate::pre::*;\n", m.ident));
                        self.items(its, &p);
                        self.p("}\n");
                    }
                }
                Item::Use(u) => {
                    let s = u.tree.to_token_stream().to_string();
                    let root = s.split(|c: char| !c.is_alphanumeric() && c != '_').find(|x| !x.is_empty()).unwrap_or("").to_string();
                    if u.leading_colon.is_some() || ["std", "core", "alloc", "deku", "mutually_exclusive_features", "enum_dispatch"].contains(&root.as_str()) { continue; }
                    self.p(&format!("#[allow(unused_imports)] pub use {};\n", s));
                }
                Item::Struct(s) => {
                    if s.ident == "TransientDropper" { continue; }
                    self.der(path, &s.ident.to_string());
                    let g = &s.generics;
                    let mut o = format!("pub struct {} {} ", s.ident, ts(g));
                    match &s.fields {
                        Fields::Named(n) => { o.push_str("{ "); for f in &n.named { o.push_str(&format!("pub {}: {}, ", f.ident.as_ref().unwrap(), self.ty(&f.ty))); } o.push_str("}\n"); }
                        Fields::Unnamed(n) => { o.push_str("( "); for f in &n.unnamed { o.push_str(&format!("pub {}, ", self.ty(&f.ty))); } o.push_str(");\n"); }
                        Fields::Unit => o.push_str(";\n"),
                    }
                    self.p(&o);
                }
                Item::Enum(e) => {
                    self.der(path, &e.ident.to_string());
                    let mut o = format!("pub enum {} {} {{ ", e.ident, ts(&e.generics));
                    for v in &e.variants {
                        o.push_str(&v.ident.to_string());
                        match &v.fields {
                            Fields::Named(n) => { o.push_str("{ "); for f in &n.named { o.push_str(&format!("{}: {}, ", f.ident.as_ref().unwrap(), self.ty(&f.ty))); } o.push('}'); }
                            Fields::Unnamed(n) => { o.push('('); for f in &n.unnamed { o.push_str(&format!("{}, ", self.ty(&f.ty))); } o.push(')'); }
                            Fields::Unit => {}
                        }
                        o.push_str(", ");
                    }
                    o.push_str("}\n");
                    self.p(&o);
                }
                Item::Impl(i) => self.imp(i, path),
                Item::Fn(f) => {
                    let key = format!("{path}::{}", f.sig.ident);
                    if self.info.inlined.contains(&key) { continue; }
                    self.func(&key, &f.sig, &f.block, None, true, false);
                }
                Item::Type(t) => { let s = self.ty(&t.ty); self.p(&format!("pub type {} {} = {};\n", t.ident, ts(&t.generics), s)); }
                Item::Trait(t) => self.p(&format!("pub trait {} {{ }}\n", t.ident)),
                Item::Const(_) | Item::ExternCrate(_) | Item::Macro(_) => {}
                o => { let s = o.to_token_stream().to_string(); self.skipped.push(format!("{path}: {}", &s[..s.len().min(80)])); }
            }
        }
    }
    fn der(&mut self, path: &str, n: &str) {
        if self.info.copy.contains(&format!("{path}::{n}")) { self.p("#[derive(Clone, Copy)]\n"); }
    }
    fn imp(&mut self, i: &ItemImpl, path: &str) {
        let tn = tname(&i.self_ty);
        let nty = norm_ty(&i.self_ty);
        let mut gen = i.generics.clone();
        self.clean_generics(&mut gen);
        let g = ts(&gen);
        let wh = ts(&gen.where_clause);
        let sty = self.ty(&i.self_ty);
        match &i.trait_ {
            None => {
                if tn == "TransientDropper" { return; }
                self.p(&format!("impl {g} {sty} {wh} {{\n"));
                for x in &i.items {
                    match x {
                        ImplItem::Fn(f) => {
                            let key = format!("{path}::{tn}::{}", f.sig.ident);
                            if self.info.inlined.contains(&key) { continue; }
                            self.func(&key, &f.sig, &f.block, Some(tn.clone()), true, false);
                        }
                        ImplItem::Const(c) => self.cst(&format!("{path}::{tn}::const {}", c.ident), &c.ident, &c.ty, &c.expr, &tn),
                        _ => {}
                    }
                }
                self.p("}\n");
            }
            Some((_, tp, _)) => {
                let t = tp.segments.last().unwrap().ident.to_string();
                if t == "SystemFile" {
                    // associated constants only
                    self.p(&format!("impl {g} {sty} {wh} {{\n"));
                    for x in &i.items {
                        if let ImplItem::Const(c) = x { self.cst(&format!("{path}|SystemFile|{nty}::const {}", c.ident), &Ident::new(&format!("SystemFile_{}", c.ident), c.ident.span()), &c.ty, &c.expr, &tn); }
                    }
                    self.p("}\n");
                    return;
                }
                if !KEEP.contains(&t.as_str()) || nty.contains("BitVec") { return; }
                let nt = norm_trait(tp);
                let mut ik = format!("{path}|{nt}|{nty}");
                let mut spec = self.con["impls"][&ik].as_str().map(|s| s.to_string());
                if spec.is_none() {
                    // `impl From<A> for B` in the place of `impl Into<B> for A`, or the other way round: the same conversion
                    if let Some((k, x)) = self.swapped(&path, &t, tp, &nty) { self.used.insert(ik); ik = k; spec = Some(x); }
                }
                self.used.insert(ik.clone());
                let known = spec.is_some() || t == "DekuContainerRead" || t == "DekuContainerWrite";
                let mut tp2 = tp.clone();
                LtStrip.visit_path_mut(&mut tp2);
                self.rw(None, false, vec![]).visit_path_mut(&mut tp2);
                self.p(&format!("impl {g} {} for {sty} {wh} {{\n", ts(&tp2)));
                if let Some(s) = &spec { self.p(s); self.p("\n"); }
                if !known {
                    self.index.push(json!({"key": ik, "kind": "unknown-impl", "start": self.line, "end": self.line}));
                    let targ = match &tp2.segments.last().unwrap().arguments { PathArguments::AngleBracketed(a) => a.args.last().map(|x| ts(x)).unwrap_or("()".into()), _ => "()".into() };
                    let s = match t.as_str() {
                        "DekuReader" => format!("open spec fn ral() -> int {{ -1 }} uninterp spec fn dec(s: Seq<bool>, p: int, ctx: {targ}) -> Option<(Self, int)>;\n"),
                        "DekuWriter" => format!("uninterp spec fn wr(&self, out: Seq<bool>, ctx: {targ}) -> Option<Seq<bool>>;\n"),
                        "DekuEnumExt" => format!("uninterp spec fn id_spec(&self) -> Option<{targ}>;\n"),
                        "DekuUpdate" => "uninterp spec fn upd(self) -> Option<Self>;\n".into(),
                        "TryFrom" => format!("open spec fn tf_req(v: {targ}) -> bool {{ true }} uninterp spec fn tf(v: {targ}) -> Option<Self>;\n"),
                        "From" => format!("open spec fn fr_req(v: {targ}) -> bool {{ true }} uninterp spec fn fr(v: {targ}) -> Self;\n"),
                        "Into" => format!("open spec fn in_req(self) -> bool {{ true }} uninterp spec fn in_spec(self) -> {targ};\n"),
                        "Default" => "uninterp spec fn dflt() -> Self;\n".into(),
                        _ => String::new(),
                    };
                    self.p(&s);
                }
                for x in &i.items {
                    if let ImplItem::Fn(f) = x {
                        let key = if ik.contains("|Into<") && t == "From" { format!("{ik}::into") } else if ik.contains("|From<") && t == "Into" { format!("{ik}::from") } else { format!("{ik}::{}", f.sig.ident) };
                        // name the spec functions of this impl in the body: Verus emits their definitions before the
                        // query only where the call graph has an edge to them
                        let tr = ts(&tp2);
                        let tr = format!("<Self as {}>", tr.trim());
                        let eq = |e: String| format!("proof {{ assert({e} == {e}); }}");
                        self.mention = match t.as_str() {
                            "Default" => eq(format!("{tr}::dflt()")),
                            "From" => eq(format!("{tr}::fr($0)")),
                            "TryFrom" => eq(format!("{tr}::tf($0)")),
                            "Into" => eq(format!("{tr}::in_spec(self)")),
                            "DekuUpdate" => eq(format!("{tr}::upd(*self)")),
                            "DekuEnumExt" => eq(format!("{tr}::id_spec(self)")),
                            "DekuWriter" => eq(format!("{tr}::wr(self, old($0).out(), $1)")),
                            "DekuReader" => eq(format!("{tr}::dec(old($0).s(), old($0).p(), $1)")),
                            _ => String::new(),
                        };
                        self.func(&key, &f.sig, &f.block, Some(tn.clone()), false, !known);
                        self.mention = String::new();
                    }
                }
                self.p("}\n");
            }
        }
    }
    /// The contract of the mirrored conversion (`Into<B> for A` for `From<A> for B` and back), restated for this impl.
    fn swapped(&self, path: &str, t: &str, tp: &Path, nty: &str) -> Option<(String, String)> {
        if t != "From" && t != "Into" { return None; }
        let PathArguments::AngleBracketed(a) = &tp.segments.last()?.arguments else { return None };
        let Some(GenericArgument::Type(arg)) = a.args.last() else { return None };
        let an = norm_ty(arg);
        let targ = ts(arg);
        let word = |s: &str, w: &str, by: &str| -> String {
            let (mut o, mut cur) = (String::new(), String::new());
            for c in s.chars().chain(std::iter::once(' ')) {
                if c.is_alphanumeric() || c == '_' { cur.push(c); continue; }
                if cur == w { o.push_str(by); } else { o.push_str(&cur); }
                cur.clear();
                o.push(c);
            }
            o
        };
        if t == "From" {
            let k = format!("{path}|Into<{nty}>|{an}");
            let x = self.con["impls"][&k].as_str()?;
            let (_, req) = x.split_once("in_req(self) -> bool {")?;
            let (req, rest) = req.split_once("open spec fn in_spec(self) ->")?;
            let (_, body) = rest.split_once('{')?;
            let fix = |s: &str| word(&word(s, "Self", &targ), "self", "v");
            return Some((k, format!("open spec fn fr_req(v: {targ}) -> bool {{ {} open spec fn fr(v: {targ}) -> Self {{ {}", fix(req), fix(body))));
        }
        let k = format!("{path}|From<{an}>|{nty}");
        let x = self.con["impls"][&k].as_str()?;
        let (_, req) = x.split_once("fr_req(v:")?;
        let (req, rest) = req.split_once("open spec fn fr(v:")?;
        let (_, req) = req.split_once('{')?;
        let (_, body) = rest.split_once('{')?;
        let fix = |s: &str| word(&word(s, "Self", &targ), "v", "self");
        Some((k, format!("open spec fn in_req(self) -> bool {{ {} open spec fn in_spec(self) -> {targ} {{ {}", fix(req), fix(body))))
    }
    fn cst(&mut self, key: &str, id: &Ident, ty: &Type, ex: &Expr, tn: &str) {
        let Some(spec) = self.con["fns"][key]["spec"].as_str().map(|s| s.to_string()) else { return };
        self.used.insert(key.to_string());
        let mut ex = ex.clone();
        self.rw(Some(tn.to_string()), false, vec![]).visit_expr_mut(&mut ex);
        let t = self.ty(ty);
        let start = self.line;
        self.p(&format!("pub fn const_{id}() -> (r: {t})\n{spec}\n{{ {} }}\n", ts(&ex)));
        self.index.push(json!({"key": key, "kind": "contract", "start": start, "end": self.line}));
    }
    fn clean_generics(&self, g: &mut Generics) {
        let drop = ["Debug", "Clone", "PartialEq", "Sized"];
        let keep = |b: &TypeParamBound| match b { TypeParamBound::Trait(t) => !drop.contains(&t.path.segments.last().unwrap().ident.to_string().as_str()), _ => true };
        for p in g.params.iter_mut() {
            if let GenericParam::Type(t) = p { t.bounds = t.bounds.iter().filter(|b| keep(b)).cloned().collect(); }
        }
        if let Some(w) = &mut g.where_clause {
            let mut ps: punctuated::Punctuated<WherePredicate, Token![,]> = Default::default();
            for p in w.predicates.iter() {
                if let WherePredicate::Type(t) = p {
                    let n = norm_ty(&t.bounded_ty);
                    if n == "DekuError" || n == "Self" { continue; }
                    let mut t = t.clone();
                    t.bounds = t.bounds.iter().filter(|b| keep(b)).cloned().collect();
                    if !t.bounds.is_empty() { ps.push(WherePredicate::Type(t)); }
                } else { ps.push(p.clone()); }
            }
            w.predicates = ps;
        }
        self.rw(None, false, vec![]).visit_generics_mut(g);
    }
    fn func(&mut self, key: &str, sig: &Signature, block: &Block, self_ty: Option<String>, vis: bool, force_ext: bool) {
        let c = &self.con["fns"][key];
        let has = !c.is_null();
        if has { self.used.insert(key.to_string()); }
        let spec = c["spec"].as_str().unwrap_or("").to_string();
        let pre = format!("{} {}", self.mention, c["pre"].as_str().unwrap_or(""));
        let pre = pre.trim().to_string();
        let loops: Vec<String> = c["loops"].as_array().map(|a| a.iter().map(|x| x.as_str().unwrap().to_string()).collect()).unwrap_or_default();
        let attrs = c["attrs"].as_str().unwrap_or("").to_string();
        // contract text names parameters as $0, $1, .. and `let mut` locals as $M0, $M1, ..
        let mut names: Vec<String> = vec![];
        let np = sig.inputs.len();
        for (k, a) in sig.inputs.iter().enumerate() {
            if let FnArg::Typed(t) = a {
                names.push(match &*t.pat { Pat::Ident(i) if i.subpat.is_none() => i.ident.to_string(), _ => if k == np - 1 { "ctx".to_string() } else { format!("ctx{k}") } });
            }
        }
        let muts = mut_locals(block);
        let sub = |s: String| -> String {
            if !s.contains('$') { return s; }
            let mut s = s;
            for (k, n) in muts.iter().enumerate().rev() { s = s.replace(&format!("$M{k}"), n); }
            for (k, n) in names.iter().enumerate().rev() { s = s.replace(&format!("${k}"), n); }
            s
        };
        let (spec, pre, loops) = (sub(spec), sub(pre), loops.into_iter().map(|l| cond(sub(l), block)).collect::<Vec<_>>());
        let demoted = self.demote.contains(key);
        let assumed = c["external"].as_bool().unwrap_or(false);
        let mut ext = force_ext || demoted || assumed || sig.unsafety.is_some();
        let contracted = has || !vis;
        if !contracted { ext = true; }
        let mut sig = sig.clone();
        let mut lets: Vec<Stmt> = vec![];
        let n = sig.inputs.len();
        for (k, a) in sig.inputs.iter_mut().enumerate() {
            if let FnArg::Typed(t) = a {
                let simple = matches!(&*t.pat, Pat::Ident(i) if i.subpat.is_none());
                if !simple {
                    let p = (*t.pat).clone();
                    let nm = Ident::new(&(if k == n - 1 { "ctx".to_string() } else { format!("ctx{k}") }), proc_macro2::Span::call_site());
                    *t.pat = parse_quote!(#nm);
                    if !matches!(p, Pat::Wild(_)) { lets.push(parse_quote!(let #p = #nm;)); }
                }
            }
        }
        let ret_opt = matches!(&sig.output, ReturnType::Type(_, t) if tname(t) == "Option");
        self.clean_generics(&mut sig.generics);
        let nl_expected = loops.len();
        let mut rw = self.rw(self_ty, ret_opt, loops);
        for a in sig.inputs.iter_mut() {
            if let FnArg::Typed(t) = a {
                if let Type::Reference(r) = &*t.ty { if r.mutability.is_some() { if let Pat::Ident(i) = &*t.pat { rw.mutrefs.push(i.ident.to_string()); } } }
            }
        }
        rw.visit_signature_mut(&mut sig);
        let mut body = block.clone();
        unwrap_tail_closure(&mut body);
        for (k, l) in lets.into_iter().enumerate() { body.stmts.insert(k, l); }
        rw.note_vars(&sig, &body);
        let mut shape = shape_of(&body, true);
        rw.visit_block_mut(&mut body);
        let nl = rw.nloops;
        for _ in shape.len()..nl { shape.push('x'); }
        shape.push_str(&shape_of(&body, false));
        let ret = match &sig.output { ReturnType::Type(_, t) => format!("-> (r: {})", ts(t)), ReturnType::Default => String::new() };
        let g = &sig.generics;
        let gs = { let (a, _, _) = (g.params.to_token_stream(), 0, 0); if g.params.is_empty() { String::new() } else { let mut s = String::from("<"); toks(a, &mut s); s.push('>'); s } };
        let start = self.line;
        if ext { self.p("#[verifier::external_body]\n"); }
        if !attrs.is_empty() && !ext { self.p(&format!("{attrs}\n")); }
        let mut ins = String::new();
        toks(sig.inputs.to_token_stream(), &mut ins);
        self.p(&format!("{}fn {}{gs}({ins}) {ret} {}\n{spec}\n", if vis { "pub " } else { "" }, sig.ident, ts(&g.where_clause)));
        let bodyl = self.line;
        if ext { self.p("{ unimplemented!() }\n"); } else {
            let b = ts(&body);
            let b = b.trim();
            if pre.is_empty() { self.p(b); } else {
                let rest = b.strip_prefix('{').unwrap();
                self.p(&format!("{{\n{pre}\n{rest}"));
            }
            self.p("\n");
        }
        let kind = if demoted { "demoted" } else if assumed { "assumed" } else if force_ext { "unknown-impl" } else if !contracted { "uncontracted" } else { "contract" };
        self.index.push(json!({"key": key, "kind": kind, "start": start, "body": bodyl, "end": self.line, "loops": nl, "loops_annotated": nl_expected, "shape": shape}));
    }
}

pub fn emit(f: &syn::File, con: &Value, info: &Info) -> (String, Value) {
    let demote = con["demote"].as_array().map(|a| a.iter().map(|x| x.as_str().unwrap().to_string()).collect()).unwrap_or_default();
    let mut e = Em { out: String::new(), mention: String::new(), line: 1, con, info, index: vec![], skipped: vec![], demote, used: Default::default() };
    e.p("#![allow(unused_imports, unused_variables, unused_mut, unused_parens, unused_braces, dead_code, non_snake_case, non_camel_case_types, unused_assignments, unreachable_code)]\nuse vstd::prelude::*;\nverus! {\n");
    let top = con["top"].as_str().unwrap_or("").to_string();
    e.p(&top);
    e.p("\n");
    e.items(&f.items, "");
    e.p("}\nfn main() {}\n");
    let mut missing = vec![];
    for tbl in ["impls", "fns"] {
        if let Some(o) = con[tbl].as_object() { for k in o.keys() { if !e.used.contains(k) { missing.push(k.clone()); } } }
    }
    let ix = json!({"fns": e.index, "skipped": e.skipped, "missing": missing, "inlined": info.inlined, "opaque": info.opaque});
    (e.out, ix)
}

fn mut_locals(b: &Block) -> Vec<String> {
    struct V(Vec<String>, Vec<String>);
    impl<'x> syn::visit::Visit<'x> for V {
        fn visit_expr_while(&mut self, w: &'x ExprWhile) { if let Some(c) = crate::rewrite::counter_of(&w.cond, false) { self.1.push(c); } syn::visit::visit_expr_while(self, w); }
        fn visit_expr_loop(&mut self, w: &'x ExprLoop) { if let Some(c) = crate::rewrite::break_guard(&w.body).and_then(|c| crate::rewrite::counter_of(&c, true)) { self.1.push(c); } syn::visit::visit_expr_loop(self, w); }
        fn visit_local(&mut self, l: &'x Local) {
            let p = match &l.pat { Pat::Type(t) => &*t.pat, o => o };
            if let Pat::Ident(i) = p { if i.mutability.is_some() { self.0.push(i.ident.to_string()); } }
            syn::visit::visit_local(self, l);
        }
    }
    let mut v = V(vec![], vec![]);
    syn::visit::Visit::visit_block(&mut v, b);
    let V(m, counters) = v;
    m.into_iter().filter(|x| !counters.contains(x)).collect()
}

/// [[x|text]] in an annotation: text, if the body mentions x
fn cond(s: String, b: &Block) -> String {
    if !s.contains("[[") { return s; }
    let body = ts(b);
    let mut o = String::new();
    let mut r = s.as_str();
    while let Some(i) = r.find("[[") {
        o += &r[..i];
        let e = r[i..].find("]]").map(|k| i + k).unwrap_or(r.len() - 2);
        let (w, t) = r[i + 2..e].split_once('|').unwrap_or(("", ""));
        if body.contains(w) { o += t; }
        r = &r[e + 2..];
    }
    o + r
}
