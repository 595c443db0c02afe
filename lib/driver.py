"""A Rust program, generated from the wire description, that runs the crate's real code on inputs read from stdin.
It is used to look for a concrete input when an obligation fails, for functions outside the verifier's reach, and to replay."""
import os, re, subprocess, select, time, shutil, json, threading
import pipe, codec, schema
from codec import Rec, Bad, Some_, S_, dbg

PUB = [("app::operation::file_offset::", "app::operation::"), ("app::operation::length::", "app::operation::"), ("app::interface_final::", "app::operation::"),
       ("link::frame::", "link::"), ("network::addressee::", "network::"), ("network::network::", "network::"), ("session::interface_final::", "session::")]
def pub(p):
    for a, b in PUB: p = p.replace(a, b)
    p = re.sub(r"file::\w+::(\w)", r"file::\1", p) if "::app::" not in p and "crate::data" not in p else p
    return p.replace("crate::", "dash7::")
HIDDEN = {"Dash7InterfaceTxStatus"}          # not nameable outside the crate
RAW = {"BackgroundFrameControl", "BackgroundFrame", "ForegroundFrameControl", "ForegroundFrame", "NetworkControl", "HoppingControl", "NetworkFrame", "TxStatusOperation"}   # private fields, no constructor: built by decoding
class NoTok(Exception): pass

def setof(*a): return a
SPECIAL = {   # private fields: built with the constructor, then the public fields are set
    "FileData": "let (header, opcode, offset, data) = (b_ActionHeader(t), b_OpCode(t), b_FileOffset(t), b_File(t)); {T}::new(header, offset, data, opcode)",
    "ComparisonWithZero": "let (_mp, params, length, mask, file) = (t.bool(), b_ArithmeticQueryParams(t), t.us(), t.vec(), b_FileOffset(t)); let mut x = {T}::new(params, vec![0; length], file); x.mask = mask; x",
    "ComparisonWithValue": "let (mp, params, length, mask, value, file) = (t.bool(), b_ArithmeticQueryParams(t), t.us(), t.vec(), t.vec(), b_FileOffset(t)); let mut x = {T}::new(params, vec![0; mp as usize], vec![0; length], file); x.mask = mask; x.value = value; x",
    "ComparisonWithOtherFile": "let (mp, params, length, mask, f1, f2) = (t.bool(), b_ArithmeticQueryParams(t), t.u32(), t.vec(), b_FileOffset(t), b_FileOffset(t)); let mut x = {T}::new(params, vec![0; mp as usize], f1, f2); x.mask = mask; x.length = length.into(); x",
    "BitmapRangeComparison": "let (mp, params, length, start, stop, mask, file) = (t.bool(), b_RangeQueryParams(t), t.u32(), t.u32(), t.u32(), t.vec(), b_FileOffset(t)); let mut x = {T}::new(params, start, stop, vec![0; mp as usize], file); x.mask = mask; x.length = length.into(); x",
    "StringTokenSearch": "let (mp, me, length, mask, value, file) = (t.bool(), t.u8(), t.u32(), t.vec(), t.vec(), b_FileOffset(t)); let mut x = {T}::new(me, vec![0; mp as usize], vec![], file); x.mask = mask; x.value = value; x.length = length.into(); x",
    "PhyStatus": "let (a, b, c, d, n) = (t.u32(), t.u32(), t.u32(), t.u16(), t.us()); let k = t.us(); let v: Vec<_> = (0..k).map(|_| b_ChannelStatus(t)).collect(); let z: Vec<dash7::physical::ChannelStatus> = (0..n).map(|_| rd::<dash7::physical::ChannelStatus, ()>(&[0; 16], 0, ()).unwrap().1).collect(); let mut x = {T}::new(a, b, c, d, z); x.channel_status = v; x",
}

class Dr:
    def __init__(s, g):
        s.g, s.T = g, g.T
        s.wz = g.variant == "wizzilab"
        s.names = [n for n in s.T if n not in HIDDEN and not n.startswith("Lp")]
    # ---------------------------------------------------------------- value -> tokens
    def leaf(s, c, v, f):
        k = type(c).__name__
        if k in ("BoolL",): return [int(v)]
        if k in ("UIntL", "UIntLE", "I8L"): return [v]
        if k in ("VecL", "CVecL", "ArrL"): return [len(v)] + list(v)
        if k == "StrL": return [len(v.b)] + list(v.b)
        if k == "OptL": return [0] if v is None else [1] + s.leaf(c.inner, v.x, f)
        if k == "SeqL":
            o = [len(v)]
            for x in v: o += s.ty(c.el, x)
            return o
        if k == "LenL": return [v[0]]
        if k == "VarL": return [v.value, int(v.ceil)]
        return s.ty(c.ty, v)
    def ty(s, t, v):
        n = t.name
        if n in HIDDEN: raise NoTok(n)
        if n in RAW:
            a, k = s.ctx_of(t, v), max(t.ral, 0)
            try:
                h = codec_hex(t.pe("0" * k, v, a))
                if dbg(t.pd("".join(format(x, "08b") for x in h), k, a)[0]) != dbg(v): raise NoTok(n)
            except Bad: raise NoTok(n)
            return [len(h)] + list(h)
        if n == "ComparisonWithZero" and v.mask_present != (v.length[0] > 0): raise NoTok(n)
        if n.startswith("Comp") and v.length[0] > 1 << 22: raise NoTok(n)
        if isinstance(t, codec.Struct):
            o = []
            for f in t.fields:
                if isinstance(f, codec.F): o += s.leaf(f.c, dict(v.items)[f.name], None)
            return o
        if isinstance(t, schema.ActionTy):
            i = [x[0] for x in t.acts].index(v.name)
            return [i] + s.ty(t.acts[i][2], v[0])
        if isinstance(t, schema.CommandTy):
            o = [len(v.actions)]
            for x in v.actions: o += s.ty(s.T["Action"], x)
            return o
        if isinstance(t, codec.IdEnum):
            i = [x[0] for x in t.vs].index(v.name); c = t.vs[i][2]
            return [i] + (s.leaf(c, v[0], None) if c else [])
        if isinstance(t, codec.CtxEnum):
            i = [x[0] for x in t.av].index(v.name); c = t.av[i][3]
            return [i] + (s.leaf(c, v[0], None) if c else [])
        if isinstance(t, schema.Lp): return s.ty(t.inner, v)
        raise NoTok(n)
    def ctx_of(s, t, v):
        if t.ctx and t.ctx[0][0] == "opc": return (v.opcode,)
        if t.ctx: return (0,)
        return ()
    # ---------------------------------------------------------------- builders
    def leaf_b(s, c):
        k = type(c).__name__
        if k == "BoolL": return "t.bool()"
        if k in ("UIntL", "UIntLE"): return f"(t.n() as {c.rust})"
        if k == "I8L": return "(t.n() as i8)"
        if k in ("VecL", "CVecL"): return "t.vec()"
        if k == "ArrL": return "t.vec().try_into().unwrap()"
        if k == "StrL": return "String::from_utf8(t.vec()).unwrap()"
        if k == "OptL": return f"(if t.bool() {{ Some({s.leaf_b(c.inner)}) }} else {{ None }})"
        if k == "SeqL":
            v = f"{{ let n = t.us(); (0..n).map(|_| b_{c.el.name}(t)).collect::<Vec<_>>() }}"
            return f"{v}.try_into().map_err(|_| ()).unwrap()" if c.arr else v
        if k == "LenL": return "b_Length(t)"
        if k == "VarL": return "b_VarInt(t)"
        n = c.ty.inner.name if isinstance(c.ty, schema.Lp) else c.ty.name
        return f"b_{n}(t)" if n not in HIDDEN else "panic!()"
    def builder(s, n, t):
        p = pub(t.path)
        g = "<const S: u8>" if t.gens else ""
        P = p + t.gargs
        if n == "Length": b = f"{p}::from(t.u32())"
        elif n == "VarInt": b = f"{{ let v = t.u32(); let c = t.bool(); {p}::new_unchecked(v, c) }}"
        elif n in RAW:
            cx = "()" if not t.ctx else ("0u32" if t.ctx[0][1] == "u32" else "dash7::app::action::OpCode(v[0] & 63)")
            b = f"let v = t.vec(); rd::<{P}, _>(&v, {max(t.ral, 0)}, {cx}).unwrap().1"
        elif n in SPECIAL: b = SPECIAL[n].replace("{T}", p)
        elif n == "Addressee":
            at, nm = "b_AddressType(t)", "b_NlsMethod(t)"
            ordr = [f.name for f in t.fields if isinstance(f, codec.F)]
            bs = {f.name: s.leaf_b(f.c) for f in t.fields if isinstance(f, codec.F)}
            b = "".join(f"let {x} = {bs[x]}; " for x in ordr)
            b += "let z = [0u8; 32]; let a0 = rd::<dash7::network::Address, dash7::network::AddressType>(&z, 0, address_type).unwrap().1; let n0 = rd::<dash7::network::NlsState, dash7::network::NlsMethod>(&z, 0, nls_method).unwrap().1; "
            b += f"let mut x = {p}::new({'use_vid, group_condition, ' if s.wz else ''}a0, n0, access_class); x.address = address; x.nls_state = nls_state; x"
        elif isinstance(t, codec.Struct):
            fs = [(f.name, s.leaf_b(f.c)) for f in t.fields if isinstance(f, codec.F)]
            b = f"{p}({', '.join(x for _, x in fs)})" if t.tup else f"{p} {{ " + ", ".join(f"{k}: {x}" for k, x in fs) + " }"
        elif isinstance(t, schema.ActionTy):
            b = "match t.us() { " + "".join(f"{i} => {p}::{v}(b_{x.name}(t)), " for i, (v, _, x) in enumerate(t.acts)) + "_ => panic!() }"
        elif isinstance(t, schema.CommandTy): b = f"let n = t.us(); let a: Vec<_> = (0..n).map(|_| b_Action(t)).collect(); {p}::new(a)"
        else:
            vs = [(x[0], x[2]) for x in t.vs] if isinstance(t, codec.IdEnum) else [(x[0], x[3]) for x in t.av]
            b = "match t.us() { " + "".join(f"{i} => {p}::{v}{'(' + s.leaf_b(c) + ')' if c else ''}, " for i, (v, c) in enumerate(vs)) + "_ => panic!() }"
        return f"#[allow(unused)] fn b_{n}{g}(t: &mut Tok) -> {P} {{ {b} }}\n"
    # ---------------------------------------------------------------- per-type arms
    def ctxexpr(s, t):
        o = []
        for n, ty in t.ctx:
            if ty in ("u8", "u32"): o.append(f"(t.n() as {ty})")
            else:
                x = next(x for x in s.T.values() if getattr(x, "path", None) == ty and not x.name.startswith("Lp"))
                o.append(f"mk::<{pub(ty)}>(t.n() as u8, {x.bits or x.nb})")
        return "()" if not o else (o[0] if len(o) == 1 else "(" + ", ".join(o) + ")")
    def container(s, n): return any("|DekuContainerRead|" in k for k in getattr(s.T[n], "keys", ())) or n == "VarInt"
    def has(s, n, what): return any(what in k for k in getattr(s.T[n], "keys", ()))
    def arm(s, n):
        t = s.T[n]
        P = pub(t.path) + ("<0>" if t.gens else "")
        upd = s.has(n, "|DekuUpdate|") or n in ("VarInt",)
        en = s.has(n, "|DekuEnumExt<")
        extra = ("upd(&mut o, v.clone()); " if upd else "") + ('o.push_str(&format!("\\tI{}", match v.deku_id() { Ok(x) => format!("{:?}", x), Err(_) => "!".to_string() })); ' if en else "")
        cont = f"cont::<{P}>(&mut o, &b, skip, &d); " if s.container(n) else ""
        if n == "Command": cont = "ccmd(&mut o, &b, skip, &d); "
        if n == "File": cont = "cfile(&mut o, &b, skip, &d, ctx.clone()); "
        wc = f"wc::<{P}>(&mut o, &v); " if s.container(n) else ("wcmd(&mut o, &v); " if n == "Command" else "")
        wctx = "ctx.clone()"
        b = f"b_{n}(t)" if not t.gens else f"b_{n}::<0>(t)"
        return (f"fn t_{n}(t: &mut Tok, dec: bool) -> String {{ let mut o = String::new();\n"
                f" if dec {{ let skip = t.us(); let b = t.vec(); let ctx = {s.ctxexpr(t)};\n"
                f"  match guard(|| rd::<{P}, _>(&b, skip, ctx.clone())) {{ None => o.push_str(\"P\"), Some(Err(_)) => {{ o.push_str(\"E\"); let d: Result<String, ()> = Err(()); {cont} }}\n"
                f"   Some(Ok((n, v))) => {{ let d: Result<String, ()> = Ok(format!(\"{{:?}}\", v)); o.push_str(&format!(\"D{{}}\\t{{}}\", n, d.as_ref().unwrap())); wr(&mut o, &v, 0, {wctx}); {cont}{extra} }} }}\n"
                f" }} else {{ let skip = t.us(); let ctx = {s.ctxexpr(t)}; let v = {b}; o.push_str(&format!(\"V\\t{{:?}}\", v)); wr(&mut o, &v, skip, {wctx}); {wc}{extra} }}\n o }}\n")
    def source(s, drop=()):
        o, marks = PRE.replace("@WZ@", WZ if s.wz else "").replace("@AC@", "dash7::network::Addressee::new(" + ("uv, gc, a, n, c)" if s.wz else "a, n, c)")), []
        o += 'fn dflt(n: &str) -> String { match n { ' + "".join(f'"{n}" => format!("{{:?}}", <{pub(s.T[n].path)} as Default>::default()), ' for n in s.names if s.has(n, "|Default|") and n not in drop) + ' _ => "?".into() } }\n'
        o += "fn run(n: &str, t: &mut Tok, dec: bool) -> String { match n { " + "".join(f'"{n}" => t_{n}(t, dec), ' for n in s.names if n not in drop) + '_ => "?".to_string() } }\n'
        for n in s.names:
            if n in drop: continue
            a = o.count("\n") + 1
            o += s.builder(n, s.T[n]) + s.arm(n)
            marks.append((a, o.count("\n"), n))
        return o, marks

PRE = r'''
#![allow(unused_imports, unused_variables, unused_mut, dead_code, non_snake_case, unused_parens)]
use deku::prelude::*; use deku::no_std_io::{Cursor, Seek, Read}; use std::io::{BufRead, Write as _}; use std::fmt::Debug; use std::panic::{catch_unwind, AssertUnwindSafe};
struct Tok<'a> { i: std::str::SplitAsciiWhitespace<'a> }
impl<'a> Tok<'a> {
  fn n(&mut self) -> i128 { let w = self.i.next().unwrap(); w.parse::<i128>().unwrap_or_else(|_| w.parse::<u128>().unwrap() as i128) }
  fn bool(&mut self) -> bool { self.n() != 0 } fn us(&mut self) -> usize { self.n() as usize } fn u32(&mut self) -> u32 { self.n() as u32 } fn u16(&mut self) -> u16 { self.n() as u16 } fn u8(&mut self) -> u8 { self.n() as u8 }
  fn vec(&mut self) -> Vec<u8> { let n = self.us(); (0..n).map(|_| self.u8()).collect() }
}
fn guard<T>(f: impl FnOnce() -> T) -> Option<T> { catch_unwind(AssertUnwindSafe(f)).ok() }
fn rd<T, C>(b: &[u8], skip: usize, ctx: C) -> Result<(usize, T), DekuError> where T: for<'x> DekuReader<'x, C> {
  let mut c = Cursor::new(b); let mut r = Reader::new(&mut c); if skip != 0 { r.skip_bits(skip)?; } let v = T::from_reader_with_ctx(&mut r, ctx)?; Ok((r.bits_read, v)) }
fn mk<T>(x: u8, w: usize) -> T where T: for<'x> DekuReader<'x, ()> { rd::<T, ()>(&[x << (8 - w)], 0, ()).unwrap().1 }
fn hex(b: &[u8]) -> String { b.iter().map(|x| format!("{:02x}", x)).collect() }
fn wr<T: DekuWriter<C>, C>(o: &mut String, v: &T, skip: usize, ctx: C) {
  let r = guard(|| -> Result<(usize, Vec<u8>), DekuError> { let mut c = Cursor::new(Vec::new()); let n; { let mut w = Writer::new(&mut c); for _ in 0..skip { true.to_writer(&mut w, deku::ctx::BitSize(1))?; } v.to_writer(&mut w, ctx)?; n = w.bits_written; w.finalize()?; } Ok((n, c.into_inner())) });
  match r { None => o.push_str("\tWP"), Some(Err(_)) => o.push_str("\tWE"), Some(Ok((n, b))) => o.push_str(&format!("\tW{}", hex(&b))) } }
fn upd<T: DekuUpdate + Debug>(o: &mut String, mut v: T) { match guard(move || { let r = v.update().is_ok(); (r, v) }) { None => o.push_str("\tUP"), Some((false, _)) => o.push_str("\tUE"), Some((true, v)) => o.push_str(&format!("\tU{:?}", v)) } }
fn vs<T: Debug>(v: &T, d: &Result<String, ()>) -> String { let x = format!("{:?}", v); if Ok(&x) == d.as_ref() { "=".into() } else { x } }
fn cont<'a, T>(o: &mut String, b: &'a [u8], skip: usize, d: &Result<String, ()>) where T: DekuContainerRead<'a> + Debug + TryFrom<&'a [u8], Error = DekuError> {
  match guard(|| T::from_bytes((b, skip))) { None => o.push_str("\tCP"), Some(Err(_)) => o.push_str("\tCE"), Some(Ok(((r, k), v))) => o.push_str(&format!("\tC{} {} {}", hex(r), k, vs(&v, d))) }
  match guard(|| { let c: &'a mut Cursor<&'a [u8]> = Box::leak(Box::new(Cursor::new(b))); T::from_reader((c, skip)) }) { None => o.push_str("\tRP"), Some(Err(_)) => o.push_str("\tRE"), Some(Ok((n, v))) => o.push_str(&format!("\tR{} {}", n, vs(&v, d))) }
  if skip == 0 { match guard(|| T::try_from(b)) { None => o.push_str("\tTP"), Some(Err(_)) => o.push_str("\tTE"), Some(Ok(v)) => o.push_str(&format!("\tT{}", vs(&v, d))) } } }
fn ccmd(o: &mut String, b: &[u8], skip: usize, d: &Result<String, ()>) { type T = dash7::app::command::Command;
  match guard(|| T::from_bytes((b, skip))) { None => o.push_str("\tCP"), Some(Err(_)) => o.push_str("\tCE"), Some(Ok(((r, k), v))) => o.push_str(&format!("\tC{} {} {}", hex(r), k, vs(&v, d))) }
  match guard(|| { let mut c = Cursor::new(b); T::from_reader((&mut c, skip)) }) { None => o.push_str("\tRP"), Some(Err(_)) => o.push_str("\tRE"), Some(Ok((n, v))) => o.push_str(&format!("\tR{} {}", n, vs(&v, d))) }
  if skip == 0 { match guard(|| T::try_from(b)) { None => o.push_str("\tTP"), Some(Err(_)) => o.push_str("\tTE"), Some(Ok(v)) => o.push_str(&format!("\tT{}", vs(&v, d))) } } }
fn cfile(o: &mut String, b: &[u8], skip: usize, d: &Result<String, ()>, ctx: (dash7::file::FileId, u32)) { type T = dash7::file::File;
  match guard(|| T::from_bytes((b, skip), ctx.0, ctx.1)) { None => o.push_str("\tCP"), Some(Err(_)) => o.push_str("\tCE"), Some(Ok(((r, k), v))) => o.push_str(&format!("\tC{} {} {}", hex(r), k, vs(&v, d))) } }
fn wc<T>(o: &mut String, v: &T) where T: DekuContainerWrite + Clone, Vec<u8>: TryFrom<T, Error = DekuError> {
  match guard(|| v.to_bytes()) { None => o.push_str("\tBP"), Some(Err(_)) => o.push_str("\tBE"), Some(Ok(b)) => o.push_str(&format!("\tB{}", hex(&b))) }
  match guard(|| Vec::<u8>::try_from(v.clone())) { None => o.push_str("\tXP"), Some(Err(_)) => o.push_str("\tXE"), Some(Ok(b)) => o.push_str(&format!("\tX{}", hex(&b))) } }
fn wcmd(o: &mut String, v: &dash7::app::command::Command) {
  match guard(|| v.to_bytes()) { None => o.push_str("\tBP"), Some(Err(_)) => o.push_str("\tBE"), Some(Ok(b)) => o.push_str(&format!("\tB{}", hex(&b))) }
  match guard(|| Vec::<u8>::try_from(v.clone())) { None => o.push_str("\tXP"), Some(Err(_)) => o.push_str("\tXE"), Some(Ok(b)) => o.push_str(&format!("\tX{}", hex(&b))) } }
fn hand(n: &str, t: &mut Tok) -> String { use dash7::app::operation::*; use dash7::app::query as q; use dash7::types::VarInt; match n {
  "len" => { let x = t.us(); let l = Length::from(x as u32); let m = Length::from(x); let a: u32 = l.into(); let b: usize = l.into(); format!("{:?} {:?} {} {}", l, m, a, b) }
  "vi" => { let v = t.u32(); let c = t.bool(); let u: u32 = VarInt::new_unchecked(v, c).into(); format!("{:?} {} {:?} {:?} {:?} {}", VarInt::compress(v, c).ok(), VarInt::is_valid(v), VarInt::new(v, c).ok(), VarInt::new_unchecked(v, c), VarInt::from(v), u) }
  "vid" => { let e = t.u8(); let m = t.u8(); format!("{:?}", VarInt::decompress(e, m).ok()) }
  "iserr" => format!("{}", StatusCode(t.u8()).is_err()),
  "itype" => format!("{:?}", dash7::session::InterfaceType::try_from(t.u8()).ok()),
  "fid" => format!("{:?}", dash7::file::FileId::try_from(t.u8()).ok()),
  "itou8" => { let x: u8 = b_InterfaceType(t).into(); format!("{}", x) }
  "ftou8" => { let x: u8 = b_FileId(t).into(); format!("{}", x) }
  "no_offset" => format!("{:?}", FileOffset::no_offset(t.u8())),
  "ah" => { let a = t.bool(); let b = t.bool(); format!("{:?}", ActionHeader::new(a, b)) }
  "ifh" => { let a = t.bool(); let b = t.bool(); format!("{:?}", IndirectForwardHeader::new(a, b)) }
  "fd" => { let (a, b, c, d) = (b_ActionHeader(t), b_FileOffset(t), b_File(t), b_OpCode(t)); format!("{:?}", FileData::new(a, b, c, d)) }
  "fw" => { let a = t.bool(); let b = b_InterfaceConfiguration(t); format!("{:?}", Forward::new(a, b)) }
  "ifw" => { let a = t.bool(); let b = if t.bool() { Some(b_IndirectInterface(t)) } else { None }; format!("{:?}", IndirectForward::new(a, b)) }
  "cwz" => { let (a, b, c) = (b_ArithmeticQueryParams(t), t.vec(), b_FileOffset(t)); format!("{:?}", q::ComparisonWithZero::new(a, b, c)) }
  "cwv" => { let (a, b, c, d) = (b_ArithmeticQueryParams(t), t.vec(), t.vec(), b_FileOffset(t)); format!("{:?}", q::ComparisonWithValue::new(a, b, c, d)) }
  "cwo" => { let (a, b, c, d) = (b_ArithmeticQueryParams(t), t.vec(), b_FileOffset(t), b_FileOffset(t)); format!("{:?}", q::ComparisonWithOtherFile::new(a, b, c, d)) }
  "brc" => { let (a, s, e, b, d) = (b_RangeQueryParams(t), t.u32(), t.u32(), t.vec(), b_FileOffset(t)); format!("{:?}", q::BitmapRangeComparison::new(a, s, e, b, d)) }
  "sts" => { let (a, b, c, d) = (t.u8(), t.vec(), t.vec(), b_FileOffset(t)); format!("{:?}", q::StringTokenSearch::new(a, b, c, d)) }
  "ac" => { let a = t.u8(); let b = t.u8(); format!("{:?} {:?}", dash7::link::AccessClass::new(a, b), dash7::link::AccessClass::unavailable()) }
  "ch" => { let (a, b, c) = (b_ChannelBand(t), b_ChannelClass(t), b_ChannelCoding(t)); format!("{:?}", dash7::physical::ChannelHeader::new(a, b, c)) }
  "ps" => { let (a, b, c, d) = (t.u32(), t.u32(), t.u32(), t.u16()); let k = t.us(); let v: Vec<_> = (0..k).map(|_| b_ChannelStatus(t)).collect(); format!("{:?}", dash7::file::PhyStatus::new(a, b, c, d, v)) }
  "ad" => { let uv = t.bool(); let gc = b_GroupCondition(t); let (a, n, c) = (b_Address(t), b_NlsState(t), b_AccessClass(t)); format!("{:?}", @AC@) }
  "aps" => { let x = b_FileAccessProfile::<0>(t); let _ = x; format!("{}", 0) }
  "iso" => { let x = b_InterfaceStatus(t); let y: InterfaceStatusOperation = x.into(); let d = format!("{:?}", y); let s: Status = y.into(); let e = format!("{:?}", s); let p: StatusOperand = s.into(); format!("{} | {} | {:?}", d, e, p) }
  "sto" => { let s = b_Status(t); let p: StatusOperand = s.into(); format!("{:?}", p) }
  "cst" => { let s = b_ChunkStep(t); let p: Chunk = s.into(); format!("{:?}", p) }
  "acc" => { let c = b_Command(t); format!("{:?} | {:?} | {:?} | {:?} | {:?} | {:?} | {:?} | {:?}", c.interface_status(), c.actions_without_interface_status(), c.request_tag(), c.request_id(), c.response_tag(), c.response_id(), c.tag_id(), c.is_last_response()) }
  @WZ@
  _ => "?".into() } }
fn main() {
  std::panic::set_hook(Box::new(|_| {}));
  let si = std::io::stdin(); let so = std::io::stdout(); let mut so = so.lock();
  for l in si.lock().lines() { let l = l.unwrap(); let mut t = Tok { i: l.split_ascii_whitespace() };
    let k = t.i.next().unwrap().to_string(); let n = t.i.next().unwrap().to_string();
    let r = guard(|| match k.as_str() { "D" => run(&n, &mut t, true), "V" => run(&n, &mut t, false), "H" => hand(&n, &mut t), "Z" => dflt(&n), _ => "?".into() }).unwrap_or("P".to_string());
    let r: String = r.chars().map(|c| if c == '\n' { " ".to_string() } else if c.is_ascii() { c.to_string() } else { format!("\\u{{{:x}}}", c as u32) }).collect();
    writeln!(so, "{}", r).unwrap(); so.flush().unwrap(); } }
'''
WZ = r'''
  "fso" => { let x = b_InterfaceFinalStatus(t); let y: InterfaceFinalStatusOperation = x.into(); let d = format!("{:?}", y); let s: Status = y.into(); format!("{} | {:?}", d, s) }
'''

def codec_hex(bits):
    bits += "0" * (-len(bits) % 8)
    return bytes(int(bits[i:i + 8], 2) for i in range(0, len(bits), 8))

def build(g):
    """returns (path of the program, the types it could not include)"""
    v = g.variant
    d = Dr(g)
    cr = f"{pipe.TGT}/drv-{v}"
    os.makedirs(cr + "/src", exist_ok=True)
    open(cr + "/Cargo.toml", "w").write(f'[package]\nname = "drv"\nversion = "0.1.0"\nedition = "2021"\n[workspace]\n[dependencies]\ndash7 = {{ path = "{pipe.REPO}/dash7", default-features = false, features = ["std", "{v}"] }}\ndeku = {{ version = "*", default-features = false, features = ["std"] }}\n[profile.dev]\ndebug = false\nopt-level = 1\noverflow-checks = true\ndebug-assertions = true\n')
    shutil.copy(pipe.REPO + "/Cargo.lock", cr + "/Cargo.lock")
    drop = set()
    for _ in range(4):
        src, marks = d.source(drop)
        if not os.path.exists(cr + "/src/main.rs") or open(cr + "/src/main.rs").read() != src: open(cr + "/src/main.rs", "w").write(src)
        rc, out, err = pipe.sh(["cargo", "build", "--offline", "-q"], cwd=cr, env={"CARGO_TARGET_DIR": cr + "/target"})
        if rc == 0:
            subprocess.run(["cp", cr + "/target/debug/drv", cr + "/run"], check=True)
            return cr + "/run", drop
        ls = [int(x) for x in re.findall(r"src/main.rs:(\d+):", err)]
        bad = {n for a, b, n in marks for l in ls if a <= l <= b} - drop
        if not bad: raise pipe.Fail("driver does not build: " + err[-3000:])
        drop |= bad
    raise pipe.Fail("driver does not build")

class Runner:
    """keeps one driver process; a line that kills or hangs it gives 'DEAD' / 'HANG'"""
    def __init__(s, exe): s.exe, s.p = exe, None
    def start(s):
        s.p = subprocess.Popen(["bash", "-c", f"ulimit -v 12000000; exec {s.exe}"], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, bufsize=1 << 16)
    def batch(s, lines, timeout=60):
        out = []
        while len(out) < len(lines):
            if s.p is None: s.start()
            todo = lines[len(out):]
            p = s.p
            def feed():
                try:
                    for l in todo: p.stdin.write(l + "\n")
                    p.stdin.flush()
                except Exception: pass
            th = threading.Thread(target=feed, daemon=True); th.start()
            dead = None
            got = [time.time()]
            def watch():
                while dead is None and p.poll() is None:
                    if time.time() - got[0] > timeout: p.kill(); return
                    time.sleep(0.2)
            w = threading.Thread(target=watch, daemon=True); w.start()
            n0 = len(out)
            for l in p.stdout:
                out.append(l.rstrip("\n")); got[0] = time.time()
                if len(out) == len(lines): break
            dead = True
            if len(out) < len(lines):
                out.append("HANG" if time.time() - got[0] > timeout - 1 else "DEAD")
                try: p.kill()
                except Exception: pass
                p.wait(); s.p = None
            th.join(5)
        return out
    def close(s):
        if s.p:
            try: s.p.stdin.close()
            except Exception: pass
            s.p.kill(); s.p.wait(); s.p = None
