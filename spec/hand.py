"""Contracts of the hand-written functions (everything that is not a derived codec impl).
$0, $1, .. name the parameters, $M0, .. the `let mut` locals, so that renaming them in the source keeps the contract."""
from codec import *

def RD(D, r="$0", req=""):
    return (f"requires old({r}).wf(){req} ensures final({r}).s() == old({r}).s(), r is Ok <==> ({D}) is Some, "
            f"r is Ok ==> final({r}).wf() && ({D}) == Some((r->Ok_0, final({r}).p())) && final({r}).bits_read == old({r}).bits_read + final({r}).p() - old({r}).p(),")
def WR(W, w="$0", req=""):
    return (req + f"ensures final({w}).inner.key() == old({w}).inner.key(), r is Ok <==> ({W}) is Some, r is Ok ==> ({W}) == Some(final({w}).out()),")
def RS(r="$0"): return f"old({r}).s(), old({r}).p()"
def WO(w="$0"): return f"old({w}).out()"
def FB(dec, ral, req="", more=""):
    """from_bytes-shaped contract; dec(s, p) is the decoder"""
    d = dec("s", "$0.1 as int")
    return (f"requires $0.1 < 8, {ral} < 0 || $0.1 == {ral}, $0.0@.len() < 0x1000_0000_0000_0000{req} "
            f"ensures ({{ let s = bob($0.0@); let d = if $0.1 <= s.len() {{ {d} }} else {{ None }}; &&& r is Ok <==> d is Some "
            f"&&& r is Ok ==> (d->0).0 == (r->Ok_0).1 && rest_ok($0.0@, ((((r->Ok_0).0).0)@, ((r->Ok_0).0).1), (d->0).1) }}),")
def FRD(dec, ral):
    d = dec("s", "p0 + $0.1")
    return (f"requires $0.1 < 8, {ral} < 0 || $0.1 == {ral}, 0 <= 8 * (*$0.0).ipos() <= (*$0.0).stream().len() "
            f"ensures ({{ let s = (*old($0.0)).stream(); let p0 = 8 * (*old($0.0)).ipos(); let d = if p0 + $0.1 <= s.len() {{ {d} }} else {{ None }}; "
            f"&&& r is Ok <==> d is Some &&& r is Ok ==> d == Some(((r->Ok_0).1, p0 + (r->Ok_0).0)) }}),")
G = "broadcast use g_pre;"

def rev(*ns): return "proof { " + " ".join(f"reveal(crate::sp::{n});" for n in ns) + " l_p2(); } " + G

def leafty(C, T, name, path, upd="Some(self)"):
    """derived impls of the two leaf structs (Length, VarInt)"""
    t = Ty()
    t.setup(name, path)
    t.bits, t.bm, t.mx = None, 0, None
    t.upds = lambda: upd
    t.contracts(C)
    t.emit = lambda: ""
    return t

def add(C, T, variant):
    wz = variant == "wizzilab"
    fn, im = C.fn, C.impls
    LP, VP = "crate::app::operation::length::Length", "crate::types::VarInt"
    # ---------------- Length
    L = "app::operation::length"
    lt = leafty(C, T, "Length", LP)
    im[f"{L}|Default|Length"] = f"open spec fn dflt() -> Self {{ {LP}(0) }}"
    for k in ("DekuReader<()>|Length::from_reader_with_ctx", "DekuWriter<()>|Length::to_writer"): C.fns[f"{L}|{k}"] = {"pre": G}
    LEN = lambda D: f"match crate::sp::d_Length({D}) {{ None => None, Some((l, q)) => Some((l.0, q)) }}"
    fn(f"{L}::Length::required_bits", spec="ensures r == if blen($0 as nat) > 0 { blen($0 as nat) } else { 1 }, 1 <= r <= 32,",
       pre="proof { crate::sp::l_blen($0 as nat, 32); crate::sp::l_blen($0 as nat, 0); l_p2(); }")
    fn(f"{L}::Length::read", spec=RD(LEN(RS())), pre="proof { reveal(crate::sp::d_Length); l_p2(); l_val_bound(old($0).s(), old($0).p(), 2); } " + G)
    fn(f"{L}::Length::write", spec=WR(f"crate::sp::w_Length({WO()}, {LP}(*$1))"),
       pre="proof { reveal(crate::sp::w_Length); l_p2(); crate::sp::l_blen(*$1 as nat, 0); crate::sp::l_blen(*$1 as nat, 6); crate::sp::l_blen(*$1 as nat, 14); crate::sp::l_blen(*$1 as nat, 22); crate::sp::l_blen(*$1 as nat, 30); } " + G)
    im[f"{L}|Into<u32>|Length"] = "open spec fn in_req(self) -> bool { true } open spec fn in_spec(self) -> u32 { self.0 }"
    im[f"{L}|From<u32>|Length"] = f"open spec fn fr_req(v: u32) -> bool {{ true }} open spec fn fr(v: u32) -> Self {{ {LP}(v) }}"
    im[f"{L}|Into<usize>|Length"] = "open spec fn in_req(self) -> bool { true } open spec fn in_spec(self) -> usize { self.0 as usize }"
    im[f"{L}|From<usize>|Length"] = f"open spec fn fr_req(v: usize) -> bool {{ true }} open spec fn fr(v: usize) -> Self {{ {LP}(crate::sp::clen(v as nat)) }}"
    lt.keys += [f"{L}|{x}|Length" for x in ("Into<u32>", "From<u32>", "Into<usize>", "From<usize>", "Default")] + [f"{L}::Length::{x}" for x in ("required_bits", "read", "write")]
    T["Length"] = lt
    # ---------------- VarInt
    vt = leafty(C, T, "VarInt", VP)
    im["types|Default|VarInt"] = "open spec fn dflt() -> Self { crate::sp::mkvi(0, false) }"
    C.fns["types|DekuReader<()>|VarInt::from_reader_with_ctx"] = {"pre": rpre("VarInt", "crate::sp::d_VarInt({s}, {p})")}
    C.fns["types|DekuWriter<()>|VarInt::to_writer"] = {"pre": wpre("VarInt", "crate::sp::w_VarInt({o}, *self)")}
    fn("types|Into<DekuError>|VarIntError::into", pre="proof { assert(<Self as Into<DekuError>>::in_spec(self) == (match self { crate::types::VarIntError::Unknown => DekuError::Parse, _ => DekuError::InvalidParam })); }")
    im["types|Into<DekuError>|VarIntError"] = "open spec fn in_req(self) -> bool { true } open spec fn in_spec(self) -> DekuError { match self { crate::types::VarIntError::Unknown => DekuError::Parse, _ => DekuError::InvalidParam } }"
    im["types|Into<u32>|VarInt"] = "open spec fn in_req(self) -> bool { true } open spec fn in_spec(self) -> u32 { self.value }"
    im["types|From<u32>|VarInt"] = "open spec fn fr_req(v: u32) -> bool { true } open spec fn fr(v: u32) -> Self { crate::sp::mkvi(v, false) }"
    fn("types::VarInt::new", spec="ensures r is Ok <==> crate::sp::vi_valid($0 as nat), r is Ok ==> r->Ok_0 == crate::sp::mkvi($0, $1),")
    fn("types::VarInt::new_unchecked", spec="ensures r == crate::sp::mkvi($0, $1),")
    fn("types::VarInt::is_valid", spec="ensures r == crate::sp::vi_valid($0 as nat),")
    fn("types::VarInt::decompress", spec="ensures r is Ok <==> $0 < 8 && $1 < 32, r is Ok ==> r->Ok_0 == crate::sp::q4($0 as nat) * $1,",
       pre="proof { l_bits(); crate::sp::l_q4(); crate::sp::l_vi_mask($0, $1); if $0 < 8 && $1 < 32 { crate::sp::l_vi_exact($0 as nat, $1 as nat); } }")
    fn("types::VarInt::compress", spec="ensures r is Ok <==> crate::sp::vi_valid($0 as nat), r is Ok ==> (r->Ok_0).0 == crate::sp::vie($0 as nat) && (r->Ok_0).1 == crate::sp::vim($0 as nat, $1),",
       pre="proof { l_bits(); crate::sp::l_q4(); if crate::sp::vi_valid($0 as nat) { crate::sp::l_vim($0 as nat, $1); } }",
       loops=["invariant 0 <= __i0 <= 8, pow(4, __i0 as nat) == crate::sp::q4(__i0 as nat) || __i0 == 8, crate::sp::vi_valid($0 as nat), forall|e: nat| #![auto] e < 8 ==> crate::sp::q4(e) == pow(4, e), __i0 <= crate::sp::vie($0 as nat), crate::sp::vie($0 as nat) < 8, crate::sp::vim($0 as nat, $1) < 32, $0 <= 31 * crate::sp::q4(crate::sp::vie($0 as nat)), forall|e: nat| #![auto] e < crate::sp::vie($0 as nat) ==> $0 > 31 * crate::sp::q4(e), decreases 8 - __i0,"])
    fn("types::VarInt::read", spec=RD(f"match crate::sp::d_VarInt({RS()}) {{ None => None, Some((l, q)) => Some((l.value, q)) }}"),
       pre="proof { reveal(crate::sp::d_VarInt); l_p2(); l_val_bound(old($0).s(), old($0).p(), 3); l_val_bound(old($0).s(), old($0).p() + 3, 5); } " + G)
    fn("types::VarInt::write", spec=WR(f"crate::sp::w_VarInt({WO()}, crate::sp::mkvi(*$1, *$2))"), pre="proof { reveal(crate::sp::w_VarInt); l_p2(); if crate::sp::vi_valid(*$1 as nat) { crate::sp::l_vim(*$1 as nat, *$2); } } " + G)
    vt.keys += [f"types|{x}" for x in ("Default|VarInt", "Into<DekuError>|VarIntError", "Into<u32>|VarInt", "From<u32>|VarInt")] + [f"types::VarInt::{x}" for x in "new new_unchecked is_valid decompress compress read write".split()]
    T["VarInt"] = vt
    # ---------------- utils
    DEC = "T::dec"
    fn("utils::pad_rest", spec="requires $0.0@.len() < 0x1000_0000_0000_0000, $0.1 < 8 ensures $1 <= 8 * $0.0@.len() ==> rest_ok($0.0@, (r.0@, r.1), $1 as int),",
       pre="proof { l_bits(); assert($1 <= 8 * $0.0@.len() && $0.0@.len() * 8 + $0.1 <= $1 ==> $0.0@.subrange($1 as int / 8, $0.0@.len() as int) =~= Seq::<u8>::empty()); }")
    fn("utils::from_reader", spec=FRD(lambda s, p: f"T::dec({s}, {p}, $1)", "T::ral()"), pre=G)
    fn("utils::from_bytes", spec=FB(lambda s, p: f"T::dec({s}, {p}, $1)", "T::ral()"), pre=G)
    fn("utils::write_length_prefixed", spec=WR("crate::sp::w_lp(old($0).out(), $1.wr(Seq::empty(), $2))"), pre=G)
    fn("utils::write_length_prefixed_ext", spec=WR("match E::tf($2) { None => None, Some(e) => crate::sp::w_lp(old($0).out(), $1.wr(Seq::empty(), (e, $3))) }", req="requires E::tf_req($2) "), pre=G)
    fn("utils::read_string", spec=RD(f"crate::sp::d_str({RS()}, N as nat)"), pre=G)
    fn("utils::write_string", spec=WR(f"crate::sp::w_str({WO()}, *$1, N as nat)"), pre=G + " proof { assert(forall|x: Seq<u8>| x.len() == N && (forall|i: int| 0 <= i < N ==> x[i] == crate::sp::strb($1.b@, N as nat)[i]) ==> #[trigger] w_bytes(old($0).out(), x) == w_bytes(old($0).out(), crate::sp::strb($1.b@, N as nat))) by { assert forall|x: Seq<u8>| x.len() == N && (forall|i: int| 0 <= i < N ==> x[i] == crate::sp::strb($1.b@, N as nat)[i]) implies #[trigger] w_bytes(old($0).out(), x) == w_bytes(old($0).out(), crate::sp::strb($1.b@, N as nat)) by { assert(x =~= crate::sp::strb($1.b@, N as nat)); } } }")
    fn("utils::read_array", spec=RD(f"dec_arr::<T, (), N>({RS()}, ())", req=", T::ral() < 0"), pre=G + f" broadcast use g_mu; proof {{ l_dec_fails::<T, ()>({RS()}, N as nat, ()); }}",
       loops=[f"invariant 0 <= __i0 <= N, T::ral() < 0, $0.wf(), $0.s() == old($0).s(), $0.bits_read == old($0).bits_read + $0.p() - old($0).p(), [[__mu|__mu@.len() == N, forall|j: int| 0 <= j < __i0 ==> (#[trigger] __mu@[j]) is Some, dec_seq::<T, ()>({RS()}, __i0 as nat, ()) == Some((mu_take(__mu@, __i0 as int), $0.p())),]] [[__cnt|__cnt <= __i0, __ptr.first@,]] decreases N - __i0,"])
    fn("utils::write_array", spec=WR(f"wr_seq::<T, ()>({WO()}, $1@, ())"), pre=G + " proof { l_wr_fail::<T, ()>(old($0).out(), $1@, ()); }",
       loops=["invariant 0 <= __i0 <= N, $1@.len() == N, $0.inner.key() == old($0).inner.key(), wr_seq::<T, ()>(old($0).out(), $1@.take(__i0 as int), ()) == Some($0.out()), decreases N - __i0,"])
    # ---------------- operations
    O = "app::operation"
    OPC = "crate::app::action::OpCode"
    P = lambda n: T[n].path
    fn(f"{O}::file_offset::FileOffset::no_offset", spec=f"ensures r == (crate::app::operation::file_offset::FileOffset {{ file_id: $0, offset: {LP}(0) }}),")
    fn(f"{O}::StatusCode::is_err", spec="ensures r == (self.0 >= 0x80),", pre="assert(forall|x: u8| #[trigger] (x & 0x80u8) == 0 <==> x < 0x80) by(bit_vector); ")
    fn(f"{O}::ActionHeader::new", spec=f"ensures r == ({P('ActionHeader')} {{ group: $0, response: $1 }}),")
    fn(f"{O}::FileData::new", spec=f"ensures r == ({P('FileData')} {{ header: $0, offset: $1, data: $2, opcode: $3 }}),")
    fn(f"{O}::FileData::read", spec=RD(f"crate::sp::d_LpFile({RS()}, $1.file_id)"), pre=rev("d_LpFile"))
    fn(f"{O}::FileData::write", spec=WR(f"crate::sp::w_LpFile({WO()}, *$1)"), pre=rev("w_LpFile"))
    fn(f"{O}::InterfaceStatusOperation::read", spec=RD(f"crate::sp::d_LpInterfaceStatus({RS()}, $1)"), pre=rev("d_LpInterfaceStatus"))
    fn(f"{O}::InterfaceStatusOperation::write", spec=WR(f"crate::sp::w_LpInterfaceStatus({WO()}, *$1)"), pre=rev("w_LpInterfaceStatus"))
    fn(f"{O}::Forward::new", spec=f"ensures r == ({P('Forward')} {{ header: {P('ForwardHeader')} {{ response: $0 }}, opcode: {OPC}(50), configuration: $1 }}),")
    fn(f"{O}::IndirectForwardHeader::new", spec=f"ensures r == ({P('IndirectForwardHeader')} {{ overloaded: $0, response: $1 }}),")
    fn(f"{O}::IndirectForward::new", spec=f"ensures r == ({P('IndirectForward')} {{ header: {P('IndirectForwardHeader')} {{ overloaded: $1 is Some, response: $0 }}, opcode: {OPC}(51), configuration: $1 }}),")
    fn("app::action::OpCode::write", spec=WR(f"wn({WO()}, $1.0 as nat, 6)") if False else WR(f"crate::sp::w_OpCode({WO()}, $1)"), pre=rev("w_OpCode"))
    im[f"{O}|Into<StatusOperand>|Status"] = f"open spec fn in_req(self) -> bool {{ true }} open spec fn in_spec(self) -> {P('StatusOperand')} {{ {P('StatusOperand')} {{ status_type: self.id_spec()->0, opcode: {OPC}(34), status: self }} }}"
    im[f"{O}|From<InterfaceStatus>|InterfaceStatusOperation"] = f"open spec fn fr_req(v: {P('InterfaceStatus')}) -> bool {{ true }} open spec fn fr(v: {P('InterfaceStatus')}) -> Self {{ {P('InterfaceStatusOperation')} {{ interface_type: v.id_spec()->0, status: v }} }}"
    im[f"{O}|Into<Status>|InterfaceStatusOperation"] = f"open spec fn in_req(self) -> bool {{ true }} open spec fn in_spec(self) -> {P('Status')} {{ {P('Status')}::Interface(self) }}"
    im[f"{O}|Into<Chunk>|ChunkStep"] = f"open spec fn in_req(self) -> bool {{ true }} open spec fn in_spec(self) -> {P('Chunk')} {{ {P('Chunk')} {{ step: self, opcode: {OPC}(48) }} }}"
    for m, t in (("session", "InterfaceType"), ("file", "FileId")):
        im[f"{m}|TryFrom<u8>|{t}"] = f"open spec fn tf_req(v: u8) -> bool {{ true }} open spec fn tf(v: u8) -> Option<Self> {{ Some(crate::sp::v_{t}(v)) }}"
        fn(f"{m}|TryFrom<u8>|{t}::try_from", pre=f"proof {{ reveal(crate::sp::d_{t}); l_p2(); crate::sp::l_byte($0); }} " + G)
        im[f"{m}|Into<u8>|{t}"] = "open spec fn in_req(self) -> bool { self.id_spec() is Some } open spec fn in_spec(self) -> u8 { self.id_spec()->0 }"
    fn("file::File::from_bytes", spec=FB(lambda s, p: f"crate::sp::d_File({s}, {p}, $1, $2)", "-1"), pre=G)
    # ---------------- constructors
    Q = "app::query"
    mp, ln = "mask_present: $1@.len() > 0", lambda x: f"length: {LP}(crate::sp::clen({x}@.len()))"
    fn(f"{Q}::ComparisonWithZero::new", spec=f"ensures r == ({P('ComparisonWithZero')} {{ {mp}, params: $0, {ln('$1')}, mask: $1, file: $2 }}),")
    fn(f"{Q}::ComparisonWithValue::new", spec=f"ensures r == ({P('ComparisonWithValue')} {{ {mp}, params: $0, {ln('$2')}, mask: $1, value: $2, file: $3 }}),")
    fn(f"{Q}::ComparisonWithOtherFile::new", spec=f"ensures r == ({P('ComparisonWithOtherFile')} {{ {mp}, params: $0, {ln('$1')}, mask: $1, file1: $2, file2: $3 }}),")
    fn(f"{Q}::BitmapRangeComparison::new", spec=f"ensures r == ({P('BitmapRangeComparison')} {{ mask_present: $3@.len() > 0, params: $0, {ln('$3')}, start: {LP}($1), stop: {LP}($2), mask: $3, file: $4 }}),")
    fn(f"{Q}::StringTokenSearch::new", spec=f"ensures r == ({P('StringTokenSearch')} {{ {mp}, max_errors: $0, {ln('$2')}, mask: $1, value: $2, file: $3 }}),")
    a, b = ("$2", "$3") if wz else ("$0", "$1")
    ex = "use_vid: $0, group_condition: $1, " if wz else ""
    fn("network::addressee::Addressee::new", spec=f"ensures r == ({P('Addressee')} {{ {ex}address_type: {a}.id_spec()->0, nls_method: {b}.id_spec()->0, access_class: {'$4' if wz else '$2'}, address: {a}, nls_state: {b} }}),")
    fn("physical::ChannelHeader::new", spec=f"ensures r == ({P('ChannelHeader')} {{ channel_band: $0, channel_class: $1, channel_coding: $2 }}),")
    fn("link::AccessClass::new", spec=f"ensures r == ({P('AccessClass')} {{ specifier: $0, mask: $1 }}),")
    fn("link::AccessClass::unavailable", spec=f"ensures r == ({P('AccessClass')} {{ specifier: 15, mask: 15 }}),")
    fn("file::access_profile::AccessProfile::specifier", spec="ensures r == S,")
    fn("file::phy_status::PhyStatus::new", spec=f"ensures $4@.len() < 256 ==> r == ({P('PhyStatus')} {{ up_time: $0, rx_time: $1, tx_time: $2, tx_duty_cycle: $3, channel_status_list_length: $4@.len() as u8, channel_status: $4 }}), r.channel_status == $4,")
    # ---------------- command
    K, A = "app::command", P("Action")
    C.impls.pop(f"{K}|DekuUpdate|Command", None)
    cmd = T["Command"]
    cmd.keys = [k for k in cmd.keys if "DekuUpdate" not in k]
    rk, wk = f"{K}|DekuReader<u32>|Command", f"{K}|DekuWriter<u32>|Command"
    im[rk] = "open spec fn ral() -> int { 0 } open spec fn dec(s: Seq<bool>, p: int, ctx: u32) -> Option<(Self, int)> { crate::sp::d_Command(s, p, ctx) }"
    st = f"old($0).s(), old($0).p(), $1"
    fn(rk + "::from_reader_with_ctx", attrs="", pre=rpre("Command", "crate::sp::d_Command({s}, {p}, ctx)") + "proof { crate::sp::dl_Action_all(old($0).s()); }",
       loops=[f"invariant crate::sp::pos(old($0).s(), $0.p()), forall|q: int| #![trigger crate::sp::d_Action(old($0).s(), q)] crate::sp::pos(old($0).s(), q) && crate::sp::d_Action(old($0).s(), q) is Some ==> crate::sp::pos(old($0).s(), (crate::sp::d_Action(old($0).s(), q)->0).1) && (crate::sp::d_Action(old($0).s(), q)->0).1 >= q + 8 && ((crate::sp::d_Action(old($0).s(), q)->0).1 - q) % 8 == 0, $0.wf(), old($0).wf(), $0.s() == old($0).s(), $0.p() % 8 == 0, $0.p() >= old($0).p(), $0.bits_read == old($0).bits_read + $0.p() - old($0).p(), "
              f"crate::sp::d_Acts({st}, Seq::empty()) == crate::sp::d_Acts($0.s(), $0.p(), $1, $M0.actions@), "
              f"crate::sp::d_Command({st}) == match crate::sp::d_Acts({st}, Seq::empty()) {{ None => None, Some((a, q)) => Some((crate::app::command::Command {{ actions: mkvec(a) }}, q)) }}, "
              f"Self::dec({st}) == crate::sp::d_Command({st}), "
              f"ensures crate::sp::d_Acts({st}, Seq::empty()) == Some(($M0.actions@, $0.p())), decreases $0.s().len() - $0.p(), "])
    fn(f"{K}::Command::at_end", spec="requires old($0).wf(), old($0).p() % 8 == 0 ensures r is Ok, final($0).wf(), final($0).s() == old($0).s(), final($0).p() == old($0).p(), final($0).bits_read == old($0).bits_read, r->Ok_0 == (old($0).p() >= old($0).s().len()),")
    fn(wk + "::to_writer", pre=wpre("Command", "crate::sp::w_Command({o}, *self)") + "proof { crate::sp::l_acts_fail(old($0).out(), self.actions@); }",
       loops=["invariant 0 <= __i0 <= self.actions@.len(), $0.inner.key() == old($0).inner.key(), crate::sp::w_Acts(old($0).out(), self.actions@.take(__i0 as int)) == Some($0.out()), decreases self.actions@.len() - __i0,"])
    fn(f"{K}::Command::from_reader", spec=FRD(lambda s, p: f"crate::sp::d_Command({s}, {p}, 0)", "0int"), pre=G)
    fn(f"{K}::Command::from_bytes", spec=FB(lambda s, p: f"crate::sp::d_Command({s}, {p}, 0)", "0int"), pre=G)
    fn(f"{K}::Command::to_bytes", spec="ensures r is Ok <==> crate::sp::w_Command(Seq::empty(), *self) is Some, r is Ok ==> r->Ok_0@ == boz(crate::sp::w_Command(Seq::empty(), *self)->0),", pre=G)
    fn(f"{K}::Command::new", spec=f"ensures r == (crate::app::command::Command {{ actions: $0 }}),")
    def tfrom(key, d): im[key] = f"open spec fn tf_req(v: &[u8]) -> bool {{ v@.len() < 0x1000_0000_0000_0000 }} open spec fn tf(v: &[u8]) -> Option<Self> {{ match {d} {{ None => None, Some((x, q)) => if q / 8 == v@.len() {{ Some(x) }} else {{ None }} }} }}"
    tfrom("app::action|TryFrom<&[u8]>|Action", "crate::sp::d_Action(bob(v@), 0)")
    tfrom(f"{K}|TryFrom<&[u8]>|Command", "crate::sp::d_Command(bob(v@), 0, 0)")
    im[f"{K}|TryFrom<Command>|Vec<u8>"] = "open spec fn tf_req(v: crate::app::command::Command) -> bool { true } open spec fn tf(v: crate::app::command::Command) -> Option<Self> { match crate::sp::w_Command(Seq::empty(), v) { None => None, Some(o) => Some(mkvec(boz(o))) } }"
    im[f"{K}|Default|Command"] = "open spec fn dflt() -> Self { crate::app::command::Command { actions: mkvec(Seq::empty()) } }"
    cmd.keys += [f"{K}|TryFrom<&[u8]>|Command", f"{K}|TryFrom<Command>|Vec<u8>", f"{K}|Default|Command"] + [f"{K}::Command::{x}" for x in ("at_end", "from_reader", "from_bytes", "to_bytes", "new")]
    acc = "self.actions@"
    REV = "proof { " + " ".join(f"reveal_with_fuel(crate::sp::f_{n}, 2);" for n in ("request_tag", "response_tag", "interface_status")) + " }"
    def inv(n, k=0, more=""): return f"invariant 0 <= __i{k} <= {acc}.len(), {more}crate::sp::f_{n}({acc}, 0) == crate::sp::f_{n}({acc}, __i{k} as int), decreases {acc}.len() - __i{k},"
    def first(name, spec, loops): fn(f"{K}::Command::{name}", spec=spec, pre=REV, loops=loops)
    opt = lambda n: f"ensures r is Some <==> crate::sp::f_{n}({acc}, 0) is Some, r is Some ==> crate::sp::f_{n}({acc}, 0) == Some(*(r->0)),"
    for n in ("interface_status", "request_tag", "response_tag"): first(n, opt(n), [inv(n)])
    first("is_last_response", f"ensures r == crate::sp::is_last({acc}),", [inv("response_tag")])
    first("request_id", f"ensures r == crate::sp::rqid({acc}),", [inv("request_tag")])
    first("response_id", f"ensures r == crate::sp::rsid({acc}),", [inv("response_tag")])
    first("tag_id", f"ensures r == (if crate::sp::rqid({acc}) is Some {{ crate::sp::rqid({acc}) }} else {{ crate::sp::rsid({acc}) }}),",
          [inv("request_tag"), inv("response_tag", 1, f"crate::sp::rqid({acc}) is None, ")])
    fn(f"{K}::Command::actions_without_interface_status", spec=f"ensures crate::sp::same_refs(r@, crate::sp::without_is({acc})),", pre=G,
       loops=[f"invariant 0 <= __i0 <= {acc}.len(), crate::sp::same_refs($M0@, crate::sp::without_is({acc}.take(__i0 as int))), decreases {acc}.len() - __i0,"])
    if wz: wizzilab(C, T, P)

def wizzilab(C, T, P):
    fn, im = C.fn, C.impls
    M = "app::interface_final"
    LEN = "<crate::app::operation::length::Length as Into<L>>::in_spec"
    fn(f"{M}::read_length_prefixed", spec=RD(f"match crate::sp::d_Length({RS()}) {{ None => None, Some((l, q)) => T::dec(old($0).s(), q, ($1, {LEN}(l))) }}", req=f", T::ral() < 0, forall|l: crate::app::operation::length::Length| <crate::app::operation::length::Length as Into<L>>::in_req(l)"), pre=G)
    fn(f"{M}::write_length_prefixed", spec=WR("crate::sp::w_lp(old($0).out(), $1.wr(Seq::empty(), $2))"), pre=G)
    for t, lp in (("InterfaceFinalStatus", "LpFinal"), ("InterfaceTxStatus", "LpTx")):
        o = t + "Operation"
        fn(f"{M}::{t}::read", spec=RD(f"crate::sp::d_{lp}({RS()}, $1)"), pre=rev(f"d_{lp}"))
        fn(f"{M}::{t}::write", spec=WR(f"crate::sp::w_{lp}({WO()}, *$1)"), pre=rev(f"w_{lp}"))
        im[f"{M}|From<{t}>|{o}"] = f"open spec fn fr_req(v: {P(t)}) -> bool {{ v.id_spec() is Some }} open spec fn fr(v: {P(t)}) -> Self {{ {P(o)} {{ interface_id: v.id_spec()->0, status: v }} }}"
    im[f"{M}|Into<Status>|InterfaceFinalStatusOperation"] = f"open spec fn in_req(self) -> bool {{ true }} open spec fn in_spec(self) -> {P('Status')} {{ {P('Status')}::InterfaceFinal(self) }}"

def lemmas(T):
    A, RQ, RS_, IS = (T[x].path for x in ("Action", "RequestTag", "ResponseTag", "InterfaceStatus"))
    St = T["Status"].path
    def first(name, ty, test, val, none="None"):
        return (f"pub open spec fn f_{name}(v: Seq<{A}>, i: int) -> {ty} decreases v.len() - i {{ if i < 0 || i >= v.len() {{ {none} }} else {{ match v[i] {{ {test} => {val}, _ => f_{name}(v, i + 1) }} }} }}\n")
    o = first("request_tag", f"Option<{RQ}>", f"{A}::RequestTag(x)", "Some(x)")
    o += first("response_tag", f"Option<{RS_}>", f"{A}::ResponseTag(x)", "Some(x)")
    o += f"pub open spec fn is_last(v: Seq<{A}>) -> bool {{ match f_response_tag(v, 0) {{ Some(t) => t.header.end_of_packet, None => false }} }}\n"
    o += (f"pub open spec fn isv(a: {A}) -> Option<{IS}> {{ match a {{ {A}::Status(s) => match s.status {{ {St}::Interface(x) => Some(x.status), _ => None }}, _ => None }} }}\n"
          f"pub open spec fn f_interface_status(v: Seq<{A}>, i: int) -> Option<{IS}> decreases v.len() - i {{ if i < 0 || i >= v.len() {{ None }} else if isv(v[i]) is Some {{ isv(v[i]) }} else {{ f_interface_status(v, i + 1) }} }}\n"
          f"pub open spec fn without_is(v: Seq<{A}>) -> Seq<{A}> decreases v.len() {{ if v.len() == 0 {{ Seq::empty() }} else if isv(v.last()) is Some {{ without_is(v.drop_last()) }} else {{ without_is(v.drop_last()).push(v.last()) }} }}\n"
          f"pub open spec fn same_refs(r: Seq<&{A}>, v: Seq<{A}>) -> bool {{ r.len() == v.len() && forall|i: int| 0 <= i < v.len() ==> *(#[trigger] r[i]) == v[i] }}\n"
          f"pub open spec fn rqid(v: Seq<{A}>) -> Option<u8> {{ match f_request_tag(v, 0) {{ Some(t) => Some(t.id), None => None }} }}\n"
          f"pub open spec fn rsid(v: Seq<{A}>) -> Option<u8> {{ match f_response_tag(v, 0) {{ Some(t) => Some(t.id), None => None }} }}\n")
    return o
