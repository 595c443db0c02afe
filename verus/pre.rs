// Prelude: assumed contracts for what lies outside /repo (deku's reader/writer primitives, std
// containers and conversions), and the mathematical vocabulary (bit sequences) of the specs.
// Every `external_body` item below is an assumption; everything else is proved.
pub mod pre {
use vstd::prelude::*;
global size_of usize == 8;

// ------------------------------------------------------------------ bits
/// value of the n bits at p, most significant first
pub open spec fn val(s: Seq<bool>, p: int, n: nat) -> nat decreases n {
    if n == 0 { 0 } else { 2 * val(s, p, (n - 1) as nat) + if s[p + n - 1] { 1nat } else { 0nat } }
}
/// value of k bytes at p, least significant byte first
pub open spec fn vle(s: Seq<bool>, p: int, k: nat) -> nat decreases k {
    if k == 0 { 0 } else { val(s, p, 8) + 256 * vle(s, p + 8, (k - 1) as nat) }
}
/// the n low bits of v, most significant first
pub open spec fn nbits(v: nat, n: nat) -> Seq<bool> decreases n {
    if n == 0 { Seq::empty() } else { nbits(v / 2, (n - 1) as nat).push(v % 2 == 1) }
}
pub open spec fn p2(n: nat) -> nat decreases n { if n == 0 { 1 } else { 2 * p2((n - 1) as nat) } }
pub open spec fn rd(s: Seq<bool>, p: int, n: nat) -> Option<(nat, int)> {
    if 0 <= p && p + n <= s.len() { Some((val(s, p, n), p + n)) } else { None }
}
pub open spec fn wn(out: Seq<bool>, v: nat, n: nat) -> Option<Seq<bool>> {
    if v < p2(n) { Some(out + nbits(v, n)) } else { None }
}
pub open spec fn rle(s: Seq<bool>, p: int, k: nat) -> Option<(nat, int)> {
    if 0 <= p && p + 8 * k <= s.len() { Some((vle(s, p, k), p + 8 * k)) } else { None }
}
pub open spec fn wle(out: Seq<bool>, v: nat, k: nat) -> Seq<bool> decreases k {
    if k == 0 { out } else { wle(out + nbits(v % 256, 8), v / 256, (k - 1) as nat) }
}
#[verifier::opaque]
pub open spec fn prefix(a: Seq<bool>, b: Seq<bool>) -> bool {
    a.len() <= b.len() && forall|i: int| 0 <= i < a.len() ==> a[i] == #[trigger] b[i]
}
pub open spec fn d_bool(s: Seq<bool>, p: int) -> Option<(bool, int)> { if 0 <= p < s.len() { Some((s[p], p + 1)) } else { None } }
pub open spec fn w_bool(out: Seq<bool>, v: bool) -> Option<Seq<bool>> { Some(out.push(v)) }
pub open spec fn d_pad(s: Seq<bool>, p: int, n: nat) -> Option<((), int)> { if 0 <= p && p + n <= s.len() { Some(((), p + n)) } else { None } }
pub open spec fn w_pad(out: Seq<bool>, n: nat) -> Option<Seq<bool>> { Some(out + Seq::new(n, |i: int| false)) }
pub open spec fn d_u8(s: Seq<bool>, p: int, n: nat) -> Option<(u8, int)> { match rd(s, p, n) { Some((x, q)) => Some((x as u8, q)), None => None } }
pub open spec fn d_u16(s: Seq<bool>, p: int, n: nat) -> Option<(u16, int)> { match rd(s, p, n) { Some((x, q)) => Some((x as u16, q)), None => None } }
pub open spec fn d_u32(s: Seq<bool>, p: int, n: nat) -> Option<(u32, int)> { match rd(s, p, n) { Some((x, q)) => Some((x as u32, q)), None => None } }
pub open spec fn d_u64(s: Seq<bool>, p: int, n: nat) -> Option<(u64, int)> { match rd(s, p, n) { Some((x, q)) => Some((x as u64, q)), None => None } }
pub open spec fn d_u16le(s: Seq<bool>, p: int) -> Option<(u16, int)> { match rle(s, p, 2) { Some((x, q)) => Some((x as u16, q)), None => None } }
pub open spec fn d_u32le(s: Seq<bool>, p: int) -> Option<(u32, int)> { match rle(s, p, 4) { Some((x, q)) => Some((x as u32, q)), None => None } }
pub open spec fn d_u64le(s: Seq<bool>, p: int) -> Option<(u64, int)> { match rle(s, p, 8) { Some((x, q)) => Some((x as u64, q)), None => None } }
pub open spec fn d_u128le(s: Seq<bool>, p: int) -> Option<(u128, int)> { match rle(s, p, 16) { Some((x, q)) => Some((x as u128, q)), None => None } }
pub open spec fn to_i8(x: nat) -> i8 { if x < 128 { x as i8 } else { (x - 256) as i8 } }
pub open spec fn of_i8(x: i8) -> nat { if x >= 0 { x as nat } else { (x + 256) as nat } }
pub open spec fn d_i8(s: Seq<bool>, p: int) -> Option<(i8, int)> { match rd(s, p, 8) { Some((x, q)) => Some((to_i8(x), q)), None => None } }
pub open spec fn w_i8(out: Seq<bool>, v: i8) -> Option<Seq<bool>> { wn(out, of_i8(v), 8) }

/// bits of a byte string
pub open spec fn bob(b: Seq<u8>) -> Seq<bool> { Seq::new(8 * b.len(), |i: int| nbits(b[i / 8] as nat, 8)[i % 8]) }
/// zero-padded to whole bytes
pub open spec fn pad8(s: Seq<bool>) -> Seq<bool> { s + Seq::new(((8 - s.len() % 8) % 8) as nat, |i: int| false) }
/// byte string holding the given bits, zero-padded at the end
pub open spec fn boz(s: Seq<bool>) -> Seq<u8> { Seq::new((s.len() + 7) / 8, |i: int| val(pad8(s), 8 * i, 8) as u8) }

// ------------------------------------------------------------------ lemmas on bits
pub proof fn l_p2() ensures p2(0) == 1, p2(1) == 2, p2(2) == 4, p2(3) == 8, p2(4) == 16, p2(5) == 32, p2(6) == 64, p2(7) == 128, p2(8) == 256,
    p2(11) == 2048, p2(14) == 0x4000, p2(16) == 0x10000, p2(22) == 0x40_0000, p2(30) == 0x4000_0000, p2(32) == 0x1_0000_0000,
    p2(64) == 0x1_0000_0000_0000_0000 {
    reveal_with_fuel(p2, 33);
    l_p2_add(32, 32);
}
pub proof fn l_p2_add(a: nat, b: nat) ensures p2(a + b) == p2(a) * p2(b) decreases b {
    if b > 0 { l_p2_add(a, (b - 1) as nat); assert(p2(a + b) == 2 * p2((a + b - 1) as nat)); assert(2 * (p2(a) * p2((b - 1) as nat)) == p2(a) * (2 * p2((b - 1) as nat))) by(nonlinear_arith); }
    else { assert(p2(b) == 1); assert(p2(a) * 1 == p2(a)); }
}
pub proof fn l_nbits_len(v: nat, n: nat) ensures nbits(v, n).len() == n decreases n { if n > 0 { l_nbits_len(v / 2, (n - 1) as nat); } }
pub proof fn l_val_bound(s: Seq<bool>, p: int, n: nat) ensures val(s, p, n) < p2(n) decreases n { if n > 0 { l_val_bound(s, p, (n - 1) as nat); } }
pub proof fn l_val_ext(a: Seq<bool>, b: Seq<bool>, p: int, q: int, n: nat)
    requires forall|i: int| 0 <= i < n ==> a[p + i] == #[trigger] b[q + i]
    ensures val(a, p, n) == val(b, q, n) decreases n
{ if n > 0 { l_val_ext(a, b, p, q, (n - 1) as nat); assert(a[p + (n - 1)] == b[q + (n - 1)]); } }
pub proof fn l_val_nbits(v: nat, n: nat) requires v < p2(n) ensures val(nbits(v, n), 0, n) == v decreases n {
    if n > 0 {
        let m = (n - 1) as nat;
        l_val_nbits(v / 2, m); l_nbits_len(v / 2, m);
        l_val_ext(nbits(v, n), nbits(v / 2, m), 0, 0, m);
    }
}
pub proof fn l_prefix_refl(a: Seq<bool>) ensures prefix(a, a) { reveal(prefix); }
pub proof fn l_prefix_trans(a: Seq<bool>, b: Seq<bool>, c: Seq<bool>) requires prefix(a, b), prefix(b, c) ensures prefix(a, c) {
    reveal(prefix);
    assert forall|i: int| 0 <= i < a.len() implies a[i] == #[trigger] c[i] by { assert(a[i] == b[i]); }
}
pub proof fn l_prefix_add(a: Seq<bool>, b: Seq<bool>) ensures prefix(a, a + b) { reveal(prefix); }
pub proof fn l_prefix_len(a: Seq<bool>, b: Seq<bool>) requires prefix(a, b) ensures a.len() <= b.len() { reveal(prefix); }
pub proof fn l_rt_wn(out: Seq<bool>, v: nat, n: nat, s: Seq<bool>)
    requires wn(out, v, n) is Some, prefix(wn(out, v, n)->0, s)
    ensures rd(s, out.len() as int, n) == Some((v, (wn(out, v, n)->0).len() as int)), (wn(out, v, n)->0).len() == out.len() + n, prefix(out, wn(out, v, n)->0), prefix(out, s)
{
    reveal(prefix);
    let o = out + nbits(v, n);
    l_nbits_len(v, n); l_val_nbits(v, n);
    assert forall|i: int| 0 <= i < n implies s[out.len() + i] == #[trigger] nbits(v, n)[0 + i] by { assert(o[out.len() + i] == nbits(v, n)[i]); }
    l_val_ext(s, nbits(v, n), out.len() as int, 0, n);
}
pub proof fn l_mn_wn(out: Seq<bool>, v: nat, n: nat) requires wn(out, v, n) is Some ensures prefix(out, wn(out, v, n)->0), (wn(out, v, n)->0).len() == out.len() + n { reveal(prefix); l_nbits_len(v, n); }
pub proof fn l_ap_wn(pre: Seq<bool>, out: Seq<bool>, v: nat, n: nat) ensures wn(out, v, n) is Some <==> wn(pre + out, v, n) is Some, wn(out, v, n) is Some ==> wn(pre + out, v, n) == Some(pre + wn(out, v, n)->0) {
    if wn(out, v, n) is Some { assert(pre + (out + nbits(v, n)) =~= (pre + out) + nbits(v, n)); }
}
pub proof fn l_wle_mn(out: Seq<bool>, v: nat, k: nat) ensures prefix(out, wle(out, v, k)), wle(out, v, k).len() == out.len() + 8 * k decreases k {
    if k > 0 {
        let o1 = out + nbits(v % 256, 8);
        l_nbits_len(v % 256, 8); l_prefix_add(out, nbits(v % 256, 8)); l_wle_mn(o1, v / 256, (k - 1) as nat);
        l_prefix_trans(out, o1, wle(out, v, k));
    } else { l_prefix_refl(out); }
}
pub proof fn l_wle_ap(pre: Seq<bool>, out: Seq<bool>, v: nat, k: nat) ensures wle(pre + out, v, k) == pre + wle(out, v, k) decreases k {
    if k > 0 { assert((pre + out) + nbits(v % 256, 8) =~= pre + (out + nbits(v % 256, 8))); l_wle_ap(pre, out + nbits(v % 256, 8), v / 256, (k - 1) as nat); }
}
pub open spec fn p256(k: nat) -> nat decreases k { if k == 0 { 1 } else { 256 * p256((k - 1) as nat) } }
pub proof fn l_rt_wle(out: Seq<bool>, v: nat, k: nat, s: Seq<bool>)
    requires v < p256(k), prefix(wle(out, v, k), s)
    ensures rle(s, out.len() as int, k) == Some((v, wle(out, v, k).len() as int)), wle(out, v, k).len() == out.len() + 8 * k, prefix(out, s)
    decreases k
{
    l_wle_mn(out, v, k);
    l_prefix_trans(out, wle(out, v, k), s); l_prefix_len(wle(out, v, k), s);
    if k > 0 {
        let o1 = out + nbits(v % 256, 8);
        l_p2();
        l_wle_mn(o1, v / 256, (k - 1) as nat);
        assert(wn(out, v % 256, 8) == Some(o1));
        l_prefix_trans(o1, wle(out, v, k), s);
        l_rt_wn(out, v % 256, 8, s);
        l_rt_wle(o1, v / 256, (k - 1) as nat, s);
    }
}
pub proof fn l_p256() ensures p256(1) == 0x100, p256(2) == 0x10000, p256(4) == 0x1_0000_0000, p256(8) == 0x1_0000_0000_0000_0000, p256(16) == 0x1_0000_0000_0000_0000_0000_0000_0000_0000 { reveal_with_fuel(p256, 17); }
pub proof fn l_vle_bound(s: Seq<bool>, p: int, k: nat) ensures vle(s, p, k) < p256(k) decreases k {
    if k > 0 { l_vle_bound(s, p + 8, (k - 1) as nat); l_val_bound(s, p, 8); l_p2(); }
}
// one-bit fields and padding
pub proof fn l_mn_bool(out: Seq<bool>, v: bool) ensures prefix(out, out.push(v)) { reveal(prefix); }
pub proof fn l_rt_bool(out: Seq<bool>, v: bool, s: Seq<bool>) requires prefix(out.push(v), s) ensures d_bool(s, out.len() as int) == Some((v, out.push(v).len() as int)), prefix(out, s) {
    reveal(prefix); assert(out.push(v)[out.len() as int] == s[out.len() as int]);
    assert forall|i: int| 0 <= i < out.len() implies out[i] == #[trigger] s[i] by { assert(out.push(v)[i] == s[i]); }
}
pub proof fn l_ap_bool(pre: Seq<bool>, out: Seq<bool>, v: bool) ensures w_bool(pre + out, v) == Some(pre + w_bool(out, v)->0) { assert((pre + out).push(v) =~= pre + out.push(v)); }
pub proof fn l_mn_pad(out: Seq<bool>, n: nat) ensures prefix(out, w_pad(out, n)->0), (w_pad(out, n)->0).len() == out.len() + n { reveal(prefix); }
pub proof fn l_rt_pad(out: Seq<bool>, n: nat, s: Seq<bool>) requires prefix(w_pad(out, n)->0, s) ensures d_pad(s, out.len() as int, n) == Some(((), (w_pad(out, n)->0).len() as int)), prefix(out, s) {
    l_mn_pad(out, n); l_prefix_trans(out, w_pad(out, n)->0, s); l_prefix_len(w_pad(out, n)->0, s);
}
pub proof fn l_ap_pad(pre: Seq<bool>, out: Seq<bool>, n: nat) ensures w_pad(pre + out, n) == Some(pre + w_pad(out, n)->0) { let z = Seq::new(n, |i: int| false); assert((pre + out) + z =~= pre + (out + z)); }
// byte strings
pub open spec fn d_bytes(s: Seq<bool>, p: int, n: nat) -> Option<(Seq<u8>, int)> {
    if 0 <= p && p + 8 * n <= s.len() { Some((Seq::new(n, |i: int| val(s, p + 8 * i, 8) as u8), p + 8 * n)) } else { None }
}
pub open spec fn w_bytes(out: Seq<bool>, b: Seq<u8>) -> Option<Seq<bool>> { Some(out + bob(b)) }
pub proof fn l_mn_bytes(out: Seq<bool>, b: Seq<u8>) ensures prefix(out, w_bytes(out, b)->0), (w_bytes(out, b)->0).len() == out.len() + 8 * b.len() { reveal(prefix); }
pub proof fn l_ap_bytes(pre: Seq<bool>, out: Seq<bool>, b: Seq<u8>) ensures w_bytes(pre + out, b) == Some(pre + w_bytes(out, b)->0) { assert((pre + out) + bob(b) =~= pre + (out + bob(b))); }
pub proof fn l_rt_bytes(out: Seq<bool>, b: Seq<u8>, s: Seq<bool>) requires prefix(w_bytes(out, b)->0, s)
    ensures d_bytes(s, out.len() as int, b.len()) == Some((b, (w_bytes(out, b)->0).len() as int)), prefix(out, s)
{
    l_mn_bytes(out, b); l_prefix_trans(out, out + bob(b), s);
    reveal(prefix);
    let p = out.len() as int;
    assert forall|i: int| 0 <= i < b.len() implies val(s, p + 8 * i, 8) as u8 == b[i] by {
        l_p2(); l_nbits_len(b[i] as nat, 8); l_val_nbits(b[i] as nat, 8);
        assert forall|j: int| 0 <= j < 8 implies s[p + 8 * i + j] == #[trigger] nbits(b[i] as nat, 8)[0 + j] by {
            assert((out + bob(b))[p + 8 * i + j] == bob(b)[8 * i + j]);
            assert((8 * i + j) / 8 == i && (8 * i + j) % 8 == j);
        }
        l_val_ext(s, nbits(b[i] as nat, 8), p + 8 * i, 0, 8);
    }
    assert((d_bytes(s, p, b.len())->0).0 =~= b);
}
pub proof fn l_bob_push(b: Seq<u8>, x: u8) ensures bob(b.push(x)) == bob(b) + nbits(x as nat, 8) { l_nbits_len(x as nat, 8); assert(bob(b.push(x)) =~= bob(b) + nbits(x as nat, 8)); }
pub proof fn l_nbits_inj(s: Seq<bool>, p: int, n: nat)
    requires 0 <= p, p + n <= s.len() ensures nbits(val(s, p, n), n) =~= s.subrange(p, p + n) decreases n
{
    if n > 0 {
        let m = (n - 1) as nat;
        l_nbits_inj(s, p, m);
        l_nbits_len(val(s, p, n), n); l_nbits_len(val(s, p, m), m);
        assert(val(s, p, n) / 2 == val(s, p, m));
    }
}
proof fn l_boz_byte(s: Seq<bool>, k: int) requires s.len() % 8 == 0, 0 <= 8 * k < s.len()
    ensures boz(s)[k] as nat == val(s, 8 * k, 8), nbits(boz(s)[k] as nat, 8) == s.subrange(8 * k, 8 * k + 8) {
    assert(pad8(s) =~= s);
    l_p2(); l_val_bound(s, 8 * k, 8); l_nbits_inj(s, 8 * k, 8);
}
pub proof fn l_boz_bob(s: Seq<bool>) requires s.len() % 8 == 0 ensures bob(boz(s)) =~= s, boz(s).len() * 8 == s.len() {
    hide(val); hide(nbits);
    assert forall|i: int| 0 <= i < s.len() implies #[trigger] bob(boz(s))[i] == s[i] by {
        let k = i / 8;
        l_boz_byte(s, k);
        assert(s.subrange(8 * k, 8 * k + 8)[i % 8] == s[8 * k + i % 8]);
    }
}

// ------------------------------------------------------------------ errors, io
#[derive(Debug)]
pub enum DekuError { Incomplete, Parse, InvalidParam, Assertion, AssertionNoStr, IdVariantNotFound, Io }
pub struct IoErr { pub u: u8 }
pub trait Read { spec fn stream(&self) -> Seq<bool>; spec fn ipos(&self) -> int; }
pub trait Seek { }
pub trait Write { type K; spec fn sink(&self) -> Seq<u8>; #[verifier::prophetic] spec fn key(&self) -> Self::K; }

/// std::io::Cursor over an in-memory buffer
pub struct Cursor<T> { pub inner: T, pub pos: u64 }
impl<T> Cursor<T> {
    #[verifier::external_body]
    pub fn new(inner: T) -> (r: Self) ensures r.inner == inner, r.pos == 0 { unimplemented!() }
    pub fn get_mut(&mut self) -> (r: &mut T) ensures *r == old(self).inner, final(self).inner == *final(r), final(self).pos == old(self).pos { &mut self.inner }
    pub fn into_inner(self) -> (r: T) ensures r == self.inner { self.inner }
    pub fn get_ref(&self) -> (r: &T) ensures *r == self.inner { &self.inner }
}
impl<'a> Read for Cursor<&'a [u8]> { open spec fn stream(&self) -> Seq<bool> { bob(self.inner@) } open spec fn ipos(&self) -> int { self.pos as int } }
impl<T> Seek for Cursor<T> { }
impl<'a, C: Seek> Seek for &'a mut C { }
impl Write for Cursor<Vec<u8>> { type K = (); open spec fn sink(&self) -> Seq<u8> { self.inner@ } #[verifier::prophetic] open spec fn key(&self) -> () { () } }
impl<'a> Write for Cursor<&'a mut Vec<u8>> { type K = Vec<u8>; open spec fn sink(&self) -> Seq<u8> { (*self.inner)@ } #[verifier::prophetic] open spec fn key(&self) -> Vec<u8> { *final(self.inner) } }
impl<'a, C: Write> Write for &'a mut C { type K = (C, C::K); open spec fn sink(&self) -> Seq<u8> { (**self).sink() } #[verifier::prophetic] open spec fn key(&self) -> (C, C::K) { (*final(*self), (**self).key()) } }

// ------------------------------------------------------------------ deku::reader::Reader
/// what the reader keeps between reads: nothing, one peeked byte (after `end`), or a bit buffer
pub enum Lo { Clean, Byte, Bits }
pub struct RSt { pub s: Seq<bool>, pub p: int, pub lo: Lo }
pub struct Reader<'a, R: Read + Seek> { pub inner: &'a mut R, pub bits_read: usize, pub last_bits_read_amt: usize, pub g: Ghost<RSt> }
pub open spec fn ceil8(p: int) -> int { (p + 7) / 8 }
impl<'a, R: Read + Seek> Reader<'a, R> {
    pub open spec fn s(&self) -> Seq<bool> { self.g@.s }
    pub open spec fn p(&self) -> int { self.g@.p }
    pub open spec fn lo(&self) -> Lo { self.g@.lo }
    /// byte position of the underlying stream
    pub open spec fn ip(&self) -> int { if self.g@.lo == Lo::Byte { self.g@.p / 8 + 1 } else { ceil8(self.g@.p) } }
    pub open spec fn wf(&self) -> bool {
        0 <= self.g@.p <= self.g@.s.len() && self.g@.s.len() % 8 == 0 && self.g@.lo != Lo::Byte
        && (self.g@.lo == Lo::Clean ==> self.g@.p % 8 == 0)
    }
    #[verifier::external_body]
    pub fn new(inner: &'a mut R) -> (r: Self)
        ensures r.s() == old(inner).stream(), r.p() == 8 * old(inner).ipos(), r.bits_read == 0, r.last_bits_read_amt == 0, r.lo() == Lo::Clean, r.s().len() % 8 == 0
    { unimplemented!() }
    #[verifier::external_body]
    pub fn skip_bits(&mut self, n: usize) -> (r: Result<(), DekuError>)
        requires old(self).wf(), n <= 1024
        ensures final(self).s() == old(self).s(),
            r is Ok <==> old(self).p() + n <= old(self).s().len(),
            r is Ok ==> final(self).wf() && final(self).p() == old(self).p() + n && final(self).bits_read == old(self).bits_read + n
                && final(self).last_bits_read_amt == old(self).last_bits_read_amt + n,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn read_bits(&mut self, n: usize) -> (r: Result<(), DekuError>)
        requires old(self).wf(), n <= 1024
        ensures final(self).s() == old(self).s(),
            r is Ok <==> old(self).p() + n <= old(self).s().len(),
            r is Ok ==> final(self).wf() && final(self).p() == old(self).p() + n && final(self).bits_read == old(self).bits_read + n
                && final(self).last_bits_read_amt == old(self).last_bits_read_amt + n,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn read_bytes(&mut self, n: usize, buf: &mut Vec<u8>) -> (r: Result<(), DekuError>)
        requires old(self).wf(), n <= old(buf)@.len(), n <= 128
        ensures final(self).s() == old(self).s(),
            r is Ok <==> old(self).p() + 8 * n <= old(self).s().len(),
            r is Ok ==> final(self).wf() && final(self).p() == old(self).p() + 8 * n && final(self).bits_read == old(self).bits_read + 8 * n
                && final(self).last_bits_read_amt == old(self).last_bits_read_amt + 8 * n,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn seek_last_read(&mut self) -> (r: Result<(), IoErr>)
        requires old(self).wf(), old(self).last_bits_read_amt <= old(self).bits_read,
        ensures final(self).s() == old(self).s(),
            r is Ok <==> old(self).ip() - ceil8(old(self).last_bits_read_amt as int) >= 0,
            r is Ok ==> final(self).p() == 8 * (old(self).ip() - ceil8(old(self).last_bits_read_amt as int)) && final(self).lo() == Lo::Clean
                && final(self).bits_read == old(self).bits_read - old(self).last_bits_read_amt
                && final(self).last_bits_read_amt == old(self).last_bits_read_amt,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn seek_relative(&mut self, d: i64) -> (r: Result<(), IoErr>)
        ensures final(self).s() == old(self).s(), final(self).lo() == Lo::Clean,
            final(self).bits_read == old(self).bits_read, final(self).last_bits_read_amt == old(self).last_bits_read_amt,
            r is Ok <==> old(self).ip() + d >= 0,
            r is Ok ==> final(self).p() == 8 * (old(self).ip() + d),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn stream_position(&mut self) -> (r: Result<u64, IoErr>)
        ensures final(self).s() == old(self).s(), final(self).lo() == Lo::Clean, final(self).p() == 8 * old(self).ip(),
            final(self).bits_read == old(self).bits_read, final(self).last_bits_read_amt == old(self).last_bits_read_amt,
            r is Ok, r->Ok_0 == old(self).ip(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn rest(&mut self) -> (r: Vec<bool>)
        ensures *final(self) == *old(self),
            old(self).lo() == Lo::Clean ==> r@.len() == 0,
            old(self).lo() == Lo::Byte ==> r@.len() == 8,
            old(self).lo() == Lo::Bits ==> r@.len() == 8 * ceil8(old(self).p()) - old(self).p(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn end(&mut self) -> (r: bool)
        ensures final(self).s() == old(self).s(), final(self).p() == old(self).p(), final(self).last_bits_read_amt == old(self).last_bits_read_amt,
            r <==> (old(self).lo() == Lo::Clean && old(self).p() >= old(self).s().len()),
            r ==> final(self).bits_read == old(self).bits_read && final(self).lo() == Lo::Clean,
            !r && old(self).lo() == Lo::Clean ==> final(self).bits_read == old(self).bits_read + 8 && final(self).lo() == Lo::Byte,
            !r && old(self).lo() != Lo::Clean ==> final(self).bits_read == old(self).bits_read && final(self).lo() == old(self).lo(),
    { unimplemented!() }
}

// ------------------------------------------------------------------ deku::writer::Writer
pub struct Writer<W: Write + Seek> { pub inner: W, pub bits: Ghost<Seq<bool>> }
impl<W: Write + Seek> Writer<W> {
    pub open spec fn out(&self) -> Seq<bool> { self.bits@ }
    #[verifier::external_body]
    pub fn new(inner: W) -> (r: Self) ensures r.inner == inner, r.out() == Seq::<bool>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn write_rep(&mut self, b: bool, n: usize) -> (r: Result<(), DekuError>)
        ensures r is Ok, final(self).inner.key() == old(self).inner.key(), final(self).out() == old(self).out() + Seq::new(n as nat, |i: int| b)
    { unimplemented!() }
    /// flushes pending bits; specified for writers over an initially empty sink
    #[verifier::external_body]
    pub fn finalize(&mut self) -> (r: Result<(), DekuError>)
        ensures r is Ok, final(self).inner.key() == old(self).inner.key(), final(self).inner.sink() == boz(old(self).out())
    { unimplemented!() }
}

// ------------------------------------------------------------------ deku traits
pub trait DekuReader<Ctx = ()>: Sized {
    /// bit phase (position modulo 8) at which reading must start; -1: any
    spec fn ral() -> int;
    spec fn dec(s: Seq<bool>, p: int, ctx: Ctx) -> Option<(Self, int)>;
    fn from_reader_with_ctx<R: Read + Seek>(reader: &mut Reader<R>, ctx: Ctx) -> (r: Result<Self, DekuError>)
        requires old(reader).wf(), Self::ral() < 0 || old(reader).p() % 8 == Self::ral()
        ensures final(reader).s() == old(reader).s(),
            r is Ok <==> Self::dec(old(reader).s(), old(reader).p(), ctx) is Some,
            r is Ok ==> final(reader).wf() && Self::dec(old(reader).s(), old(reader).p(), ctx) == Some((r->Ok_0, final(reader).p()))
                && final(reader).bits_read == old(reader).bits_read + final(reader).p() - old(reader).p();
}
pub trait DekuWriter<Ctx = ()> {
    spec fn wr(&self, out: Seq<bool>, ctx: Ctx) -> Option<Seq<bool>>;
    fn to_writer<W: Write + Seek>(&self, writer: &mut Writer<W>, ctx: Ctx) -> (r: Result<(), DekuError>)
        ensures final(writer).inner.key() == old(writer).inner.key(),
            r is Ok <==> self.wr(old(writer).out(), ctx) is Some,
            r is Ok ==> self.wr(old(writer).out(), ctx) == Some(final(writer).out());
}
pub trait DekuEnumExt<T>: Sized {
    spec fn id_spec(&self) -> Option<T>;
    fn deku_id(&self) -> (r: Result<T, DekuError>)
        ensures r is Ok <==> self.id_spec() is Some, r is Ok ==> self.id_spec() == Some(r->Ok_0);
}
pub trait DekuUpdate: Sized {
    spec fn upd(self) -> Option<Self>;
    fn update(&mut self) -> (r: Result<(), DekuError>)
        ensures r is Ok <==> old(self).upd() is Some, r is Ok ==> old(self).upd() == Some(*final(self));
}
pub open spec fn rest_ok(input: Seq<u8>, rest: (Seq<u8>, usize), q: int) -> bool {
    0 <= q <= 8 * input.len() && rest.0 == input.subrange(q / 8, input.len() as int) && rest.1 == q % 8
}
pub trait DekuContainerRead: DekuReader<()> {
    fn from_reader<'a, R: Read + Seek>(input: (&'a mut R, usize)) -> (r: Result<(usize, Self), DekuError>)
        requires input.1 < 8, Self::ral() < 0 || input.1 == Self::ral(), 0 <= 8 * (*input.0).ipos() <= (*input.0).stream().len(),
        ensures ({
            let s = (*old(input.0)).stream(); let p0 = 8 * (*old(input.0)).ipos();
            let d = if p0 + input.1 <= s.len() { Self::dec(s, p0 + input.1, ()) } else { None };
            &&& r is Ok <==> d is Some
            &&& r is Ok ==> d == Some(((r->Ok_0).1, p0 + (r->Ok_0).0))
        });
    fn from_bytes(input: (&[u8], usize)) -> (r: Result<((&[u8], usize), Self), DekuError>)
        requires input.1 < 8, Self::ral() < 0 || input.1 == Self::ral(), input.0@.len() < 0x1000_0000_0000_0000,
        ensures ({
            let s = bob(input.0@);
            let d = if input.1 <= s.len() { Self::dec(s, input.1 as int, ()) } else { None };
            &&& r is Ok <==> d is Some
            &&& r is Ok ==> (d->0).0 == (r->Ok_0).1 && rest_ok(input.0@, ((((r->Ok_0).0).0)@, ((r->Ok_0).0).1), (d->0).1)
        });
}
pub trait DekuContainerWrite: DekuWriter<()> {
    // body copied from deku::DekuContainerWrite::to_bytes, verified here
    fn to_bytes(&self) -> (r: Result<Vec<u8>, DekuError>)
        ensures r is Ok <==> self.wr(Seq::empty(), ()) is Some, r is Ok ==> r->Ok_0@ == boz(self.wr(Seq::empty(), ())->0)
    {
        let mut out_buf = Vec::new();
        let mut __deku_cursor = Cursor::new(&mut out_buf);
        let mut __deku_writer = Writer::new(&mut __deku_cursor);
        DekuWriter::to_writer(self, &mut __deku_writer, ())?;
        __deku_writer.finalize()?;
        Ok(out_buf)
    }
}

// ------------------------------------------------------------------ std conversions (shadow traits)
pub trait TryFrom<T>: Sized {
    spec fn tf_req(v: T) -> bool;
    spec fn tf(v: T) -> Option<Self>;
    fn try_from(v: T) -> (r: Result<Self, DekuError>)
        requires Self::tf_req(v),
        ensures r is Ok <==> Self::tf(v) is Some, r is Ok ==> Self::tf(v) == Some(r->Ok_0);
}
pub trait TryInto<U>: Sized {
    spec fn ti_req(self) -> bool;
    spec fn ti(self) -> Option<U>;
    fn try_into(self) -> (r: Result<U, DekuError>)
        requires self.ti_req(),
        ensures r is Ok <==> self.ti() is Some, r is Ok ==> self.ti() == Some(r->Ok_0);
}
impl<T, U: TryFrom<T>> TryInto<U> for T {
    open spec fn ti_req(self) -> bool { U::tf_req(self) }
    open spec fn ti(self) -> Option<U> { U::tf(self) }
    fn try_into(self) -> (r: Result<U, DekuError>) { U::try_from(self) }
}
pub trait From<T>: Sized {
    spec fn fr(v: T) -> Self;
    spec fn fr_req(v: T) -> bool;
    fn from(v: T) -> (r: Self) requires Self::fr_req(v), ensures r == Self::fr(v);
}
pub trait Into<U>: Sized {
    spec fn in_req(self) -> bool;
    spec fn in_spec(self) -> U;
    fn into(self) -> (r: U) requires self.in_req(), ensures r == self.in_spec();
}
impl<T, U: From<T>> Into<U> for T {
    open spec fn in_req(self) -> bool { U::fr_req(self) }
    open spec fn in_spec(self) -> U { U::fr(self) }
    fn into(self) -> (r: U) { U::from(self) }
}
pub trait Default: Sized {
    spec fn dflt() -> Self;
    fn default() -> (r: Self) ensures r == Self::dflt();
}

// ------------------------------------------------------------------ std containers
/// std Vec: a mathematical sequence
#[verifier::reject_recursive_types(T)]
pub struct Vec<T> { pub v: Ghost<Seq<T>> }
impl<T> View for Vec<T> { type V = Seq<T>; open spec fn view(&self) -> Seq<T> { self.v@ } }
pub open spec fn mkvec<T>(s: Seq<T>) -> Vec<T> { Vec { v: Ghost(s) } }
impl<T> Vec<T> {
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r == mkvec(Seq::<T>::empty()) { unimplemented!() }
    #[verifier::external_body]
    pub fn with_capacity(n: usize) -> (r: Self) ensures r == mkvec(Seq::<T>::empty()) { unimplemented!() }
    #[verifier::external_body]
    pub fn reserve(&mut self, n: usize) ensures *final(self) == *old(self) { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0) { unimplemented!() }
    #[verifier::external_body]
    pub fn push(&mut self, x: T) ensures *final(self) == mkvec(old(self)@.push(x)) { unimplemented!() }
    #[verifier::external_body]
    pub fn at(&self, i: usize) -> (r: &T) requires i < self@.len() ensures *r == self@[i as int] { unimplemented!() }
    #[verifier::external_body]
    pub fn last(&self) -> (r: Option<&T>) ensures r is Some <==> self@.len() > 0, r is Some ==> *(r->0) == self@.last() { unimplemented!() }
}
impl Vec<u8> {
    #[verifier::external_body]
    pub fn as_slice(&self) -> (r: Vec<u8>) ensures r == *self { unimplemented!() }
    #[verifier::external_body]
    pub fn to_vec(&self) -> (r: Vec<u8>) ensures r == *self { unimplemented!() }
    #[verifier::external_body]
    pub fn truncate(&mut self, n: usize) ensures *final(self) == mkvec(if n < old(self)@.len() { old(self)@.take(n as int) } else { old(self)@ }) { unimplemented!() }
    #[verifier::external_body]
    pub fn resize(&mut self, n: usize, x: u8) ensures *final(self) == mkvec(Seq::new(n as nat, |i: int| if i < old(self)@.len() { old(self)@[i] } else { x })) { unimplemented!() }
}
#[verifier::external_body]
pub fn from_elem<T>(x: T, n: usize) -> (r: Vec<T>) ensures r@.len() == n, forall|i: int| 0 <= i < n ==> r@[i] == x { unimplemented!() }
#[verifier::external_body]
pub fn slice1<'a>(x: u8) -> (r: &'a [u8]) ensures r@ == seq![x] { unimplemented!() }
#[verifier::external_body]
pub fn slice_from<'a>(x: &'a [u8], i: usize) -> (r: &'a [u8]) requires i <= x@.len() ensures r@ == x@.subrange(i as int, x@.len() as int) { unimplemented!() }
#[verifier::external_body]
pub fn slice_empty<'a>() -> (r: &'a [u8]) ensures r@ == Seq::<u8>::empty() { unimplemented!() }
#[verifier::external_body]
pub fn slice_is_empty(x: &[u8]) -> (r: bool) ensures r == (x@.len() == 0) { unimplemented!() }

/// std array [T; N]: opaque, determined by its sequence of N elements
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct Arr<T, const N: usize> { v: std::marker::PhantomData<T> }
impl<T, const N: usize> View for Arr<T, N> { type V = Seq<T>; uninterp spec fn view(&self) -> Seq<T>; }
impl<T: Copy, const N: usize> Clone for Arr<T, N> { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl<T: Copy, const N: usize> Copy for Arr<T, N> { }
pub uninterp spec fn mkarr<T, const N: usize>(s: Seq<T>) -> Arr<T, N>;
pub broadcast axiom fn ax_arr_len<T, const N: usize>(a: Arr<T, N>) ensures (#[trigger] a@).len() == N, mkarr::<T, N>(a@) == a;
pub broadcast axiom fn ax_arr_mk<T, const N: usize>(s: Seq<T>) requires s.len() == N ensures (#[trigger] mkarr::<T, N>(s))@ == s;
impl<T, const N: usize> Arr<T, N> {
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == N, self@.len() == N { unimplemented!() }
    #[verifier::external_body]
    pub fn at(&self, i: usize) -> (r: &T) requires i < N ensures self@.len() == N, *r == self@[i as int] { unimplemented!() }
    #[verifier::external_body]
    pub fn as_slice(&self) -> (r: Vec<T>) ensures r@ == self@, self@.len() == N { unimplemented!() }
}
/// [MaybeUninit<T>; N]: which elements are initialised, and with what
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct MuArr<T, const N: usize> { v: std::marker::PhantomData<T> }
impl<T, const N: usize> View for MuArr<T, N> { type V = Seq<Option<T>>; uninterp spec fn view(&self) -> Seq<Option<T>>; }
pub broadcast axiom fn ax_mu_len<T, const N: usize>(a: MuArr<T, N>) ensures (#[trigger] a@).len() == N;
/// pointer to the first element
pub struct MuPtr { pub first: Ghost<bool> }
#[verifier::external_body]
pub fn mu_uninit<T, const N: usize>() -> (r: MuArr<T, N>) ensures r@ == Seq::new(N as nat, |i: int| None::<T>) { unimplemented!() }
impl<T, const N: usize> MuArr<T, N> {
    #[verifier::external_body]
    pub fn base(&self) -> (r: MuPtr) ensures r.first@ { unimplemented!() }
    /// MaybeUninit::write: an element already there would be leaked, not dropped
    #[verifier::external_body]
    pub fn write_at(&mut self, i: usize, x: T) requires i < N ensures final(self)@ == old(self)@.update(i as int, Some(x)) { unimplemented!() }
    /// moves every element out: all of them must have been written
    #[verifier::external_body]
    pub fn assume_init_all(&mut self) -> (r: Arr<T, N>)
        requires forall|i: int| 0 <= i < N ==> (#[trigger] old(self)@[i]) is Some
        ensures r == mkarr::<T, N>(mu_take(old(self)@, N as int)), final(self)@ == Seq::new(N as nat, |i: int| None::<T>) { unimplemented!() }
    /// drop_in_place of the first n elements: all of them must be there
    #[verifier::external_body]
    pub fn drop_prefix(&mut self, p: &MuPtr, n: usize)
        requires p.first@, n <= N, forall|i: int| 0 <= i < n ==> (#[trigger] old(self)@[i]) is Some
        ensures final(self)@ == Seq::new(N as nat, |i: int| if i < n { None::<T> } else { old(self)@[i] }) { unimplemented!() }
}
#[verifier::external_body]
pub fn arr_rep<T: Copy, const N: usize>(x: T) -> (r: Arr<T, N>) ensures r == mkarr::<T, N>(Seq::new(N as nat, |i: int| x)) { unimplemented!() }
/// dst[a..b].clone_from_slice(&src.as_bytes()[c..d])
#[verifier::external_body]
pub fn arr_copy<const N: usize>(dst: &mut Arr<u8, N>, a: usize, b: usize, src: &Vec<u8>, c: usize, d: usize)
    requires a <= b, b <= N, c <= d, d <= src@.len(), b - a == d - c
    ensures final(dst)@ == Seq::new(N as nat, |i: int| if a <= i < b { src@[c + i - a] } else { old(dst)@[i] })
{ unimplemented!() }
/// an explicit drop of a value without a destructor of its own
#[verifier::external_body]
pub fn drop<T>(x: T) { unimplemented!() }
#[verifier::external_body]
pub fn black_box<T>(x: T) -> (r: T) ensures r == x { unimplemented!() }
#[verifier::external_body]
pub fn min(a: usize, b: usize) -> (r: usize) ensures r == if a <= b { a } else { b } { unimplemented!() }

/// std String / str: the sequence of its UTF-8 bytes
pub struct Str { pub b: Ghost<Seq<u8>> }
pub uninterp spec fn utf8(b: Seq<u8>) -> bool;
impl Str {
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self.b@.len() { unimplemented!() }
    #[verifier::external_body]
    pub fn as_bytes(&self) -> (r: Vec<u8>) ensures r@ == self.b@ { unimplemented!() }
    /// chars().count(): one to four bytes each
    #[verifier::external_body]
    pub fn chars_count(&self) -> (r: usize) ensures r <= self.b@.len(), self.b@.len() <= 4 * r { unimplemented!() }
    #[verifier::external_body]
    pub fn from_utf8(v: Vec<u8>) -> (r: Result<Str, DekuError>) ensures r is Ok <==> utf8(v@), r is Ok ==> r->Ok_0 == (Str { b: Ghost(v@) }) { unimplemented!() }
}

// ------------------------------------------------------------------ deku impls for std types
#[derive(Clone, Copy)]
pub struct BitSize(pub usize);
#[derive(Clone, Copy)]
pub struct ByteSize(pub usize);
#[derive(Clone, Copy)]
pub enum Endian { Little, Big }
#[derive(Clone, Copy)]
pub struct Limit { pub n: usize }
impl Limit {
    pub fn new_count(n: usize) -> (r: Limit) ensures r.n == n { Limit { n } }
    pub fn new_byte_size(n: ByteSize) -> (r: Limit) ensures r.n == n.0 { Limit { n: n.0 } }
}
/// `usize::try_from(count expression)`
pub trait ToCount: Sized {
    spec fn cnt(self) -> Option<nat>;
    fn to_count(self) -> (r: Result<usize, DekuError>) ensures r is Ok <==> self.cnt() is Some, r is Ok ==> self.cnt() == Some(r->Ok_0 as nat);
}
impl ToCount for u8 { open spec fn cnt(self) -> Option<nat> { Some(self as nat) } fn to_count(self) -> (r: Result<usize, DekuError>) { Ok(self as usize) } }
impl ToCount for u32 { open spec fn cnt(self) -> Option<nat> { Some(self as nat) } #[verifier::external_body] fn to_count(self) -> (r: Result<usize, DekuError>) { Ok(self as usize) } }
impl ToCount for usize { open spec fn cnt(self) -> Option<nat> { Some(self as nat) } fn to_count(self) -> (r: Result<usize, DekuError>) { Ok(self) } }
impl ToCount for i32 { open spec fn cnt(self) -> Option<nat> { if self >= 0 { Some(self as nat) } else { None } } fn to_count(self) -> (r: Result<usize, DekuError>) { if self >= 0 { Ok(self as usize) } else { Err(DekuError::Parse) } } }
impl<'a, T: ToCount + Copy> ToCount for &'a T { open spec fn cnt(self) -> Option<nat> { (*self).cnt() } fn to_count(self) -> (r: Result<usize, DekuError>) { (*self).to_count() } }
pub fn to_count<T: ToCount>(x: T) -> (r: Result<usize, DekuError>) ensures r is Ok <==> x.cnt() is Some, r is Ok ==> x.cnt() == Some(r->Ok_0 as nat) { x.to_count() }
/// `<u8>::try_from(discriminant as isize)`
// integer conversions of core, stated exactly
impl From<u8> for u16 { open spec fn fr_req(v: u8) -> bool { true } open spec fn fr(v: u8) -> u16 { v as u16 } fn from(v: u8) -> (r: u16) { v as u16 } }
impl From<u8> for u32 { open spec fn fr_req(v: u8) -> bool { true } open spec fn fr(v: u8) -> u32 { v as u32 } fn from(v: u8) -> (r: u32) { v as u32 } }
impl From<u8> for u64 { open spec fn fr_req(v: u8) -> bool { true } open spec fn fr(v: u8) -> u64 { v as u64 } fn from(v: u8) -> (r: u64) { v as u64 } }
impl From<u8> for usize { open spec fn fr_req(v: u8) -> bool { true } open spec fn fr(v: u8) -> usize { v as usize } fn from(v: u8) -> (r: usize) { v as usize } }
impl From<u8> for u128 { open spec fn fr_req(v: u8) -> bool { true } open spec fn fr(v: u8) -> u128 { v as u128 } fn from(v: u8) -> (r: u128) { v as u128 } }
impl From<u16> for u32 { open spec fn fr_req(v: u16) -> bool { true } open spec fn fr(v: u16) -> u32 { v as u32 } fn from(v: u16) -> (r: u32) { v as u32 } }
impl From<u16> for u64 { open spec fn fr_req(v: u16) -> bool { true } open spec fn fr(v: u16) -> u64 { v as u64 } fn from(v: u16) -> (r: u64) { v as u64 } }
impl From<u16> for usize { open spec fn fr_req(v: u16) -> bool { true } open spec fn fr(v: u16) -> usize { v as usize } fn from(v: u16) -> (r: usize) { v as usize } }
impl From<u16> for u128 { open spec fn fr_req(v: u16) -> bool { true } open spec fn fr(v: u16) -> u128 { v as u128 } fn from(v: u16) -> (r: u128) { v as u128 } }
impl From<u32> for u64 { open spec fn fr_req(v: u32) -> bool { true } open spec fn fr(v: u32) -> u64 { v as u64 } fn from(v: u32) -> (r: u64) { v as u64 } }
impl From<u32> for u128 { open spec fn fr_req(v: u32) -> bool { true } open spec fn fr(v: u32) -> u128 { v as u128 } fn from(v: u32) -> (r: u128) { v as u128 } }
impl From<u64> for u128 { open spec fn fr_req(v: u64) -> bool { true } open spec fn fr(v: u64) -> u128 { v as u128 } fn from(v: u64) -> (r: u128) { v as u128 } }
impl From<u8> for i16 { open spec fn fr_req(v: u8) -> bool { true } open spec fn fr(v: u8) -> i16 { v as i16 } fn from(v: u8) -> (r: i16) { v as i16 } }
impl From<u8> for i32 { open spec fn fr_req(v: u8) -> bool { true } open spec fn fr(v: u8) -> i32 { v as i32 } fn from(v: u8) -> (r: i32) { v as i32 } }
impl From<u8> for i64 { open spec fn fr_req(v: u8) -> bool { true } open spec fn fr(v: u8) -> i64 { v as i64 } fn from(v: u8) -> (r: i64) { v as i64 } }
impl From<u16> for i32 { open spec fn fr_req(v: u16) -> bool { true } open spec fn fr(v: u16) -> i32 { v as i32 } fn from(v: u16) -> (r: i32) { v as i32 } }
impl From<u16> for i64 { open spec fn fr_req(v: u16) -> bool { true } open spec fn fr(v: u16) -> i64 { v as i64 } fn from(v: u16) -> (r: i64) { v as i64 } }
impl From<u32> for i64 { open spec fn fr_req(v: u32) -> bool { true } open spec fn fr(v: u32) -> i64 { v as i64 } fn from(v: u32) -> (r: i64) { v as i64 } }
impl From<i8> for i16 { open spec fn fr_req(v: i8) -> bool { true } open spec fn fr(v: i8) -> i16 { v as i16 } fn from(v: i8) -> (r: i16) { v as i16 } }
impl From<i8> for i32 { open spec fn fr_req(v: i8) -> bool { true } open spec fn fr(v: i8) -> i32 { v as i32 } fn from(v: i8) -> (r: i32) { v as i32 } }
impl From<i8> for i64 { open spec fn fr_req(v: i8) -> bool { true } open spec fn fr(v: i8) -> i64 { v as i64 } fn from(v: i8) -> (r: i64) { v as i64 } }
impl From<i16> for i32 { open spec fn fr_req(v: i16) -> bool { true } open spec fn fr(v: i16) -> i32 { v as i32 } fn from(v: i16) -> (r: i32) { v as i32 } }
impl From<i16> for i64 { open spec fn fr_req(v: i16) -> bool { true } open spec fn fr(v: i16) -> i64 { v as i64 } fn from(v: i16) -> (r: i64) { v as i64 } }
impl From<i32> for i64 { open spec fn fr_req(v: i32) -> bool { true } open spec fn fr(v: i32) -> i64 { v as i64 } fn from(v: i32) -> (r: i64) { v as i64 } }
impl From<bool> for u8 { open spec fn fr_req(v: bool) -> bool { true } open spec fn fr(v: bool) -> u8 { if v { 1 } else { 0 } } fn from(v: bool) -> (r: u8) { if v { 1 } else { 0 } } }
impl From<bool> for u16 { open spec fn fr_req(v: bool) -> bool { true } open spec fn fr(v: bool) -> u16 { if v { 1 } else { 0 } } fn from(v: bool) -> (r: u16) { if v { 1 } else { 0 } } }
impl From<bool> for u32 { open spec fn fr_req(v: bool) -> bool { true } open spec fn fr(v: bool) -> u32 { if v { 1 } else { 0 } } fn from(v: bool) -> (r: u32) { if v { 1 } else { 0 } } }
impl From<bool> for u64 { open spec fn fr_req(v: bool) -> bool { true } open spec fn fr(v: bool) -> u64 { if v { 1 } else { 0 } } fn from(v: bool) -> (r: u64) { if v { 1 } else { 0 } } }
impl From<bool> for usize { open spec fn fr_req(v: bool) -> bool { true } open spec fn fr(v: bool) -> usize { if v { 1 } else { 0 } } fn from(v: bool) -> (r: usize) { if v { 1 } else { 0 } } }
pub trait Narrow: Sized { spec fn nv(self) -> int; fn n8(self) -> (r: Result<u8, DekuError>) ensures r is Ok <==> 0 <= self.nv() <= 255, r is Ok ==> r->Ok_0 == self.nv(); fn n16(self) -> (r: Result<u16, DekuError>) ensures r is Ok <==> 0 <= self.nv() <= 65535, r is Ok ==> r->Ok_0 == self.nv(); fn n32(self) -> (r: Result<u32, DekuError>) ensures r is Ok <==> 0 <= self.nv() <= 0xffff_ffff, r is Ok ==> r->Ok_0 == self.nv(); }
impl Narrow for u8 { open spec fn nv(self) -> int { self as int } fn n8(self) -> (r: Result<u8, DekuError>) { if true { Ok(self as u8) } else { Err(DekuError::Parse) } } fn n16(self) -> (r: Result<u16, DekuError>) { if true { Ok(self as u16) } else { Err(DekuError::Parse) } } fn n32(self) -> (r: Result<u32, DekuError>) { if true { Ok(self as u32) } else { Err(DekuError::Parse) } } }
impl Narrow for u16 { open spec fn nv(self) -> int { self as int } fn n8(self) -> (r: Result<u8, DekuError>) { if self <= 255 { Ok(self as u8) } else { Err(DekuError::Parse) } } fn n16(self) -> (r: Result<u16, DekuError>) { if true { Ok(self as u16) } else { Err(DekuError::Parse) } } fn n32(self) -> (r: Result<u32, DekuError>) { if true { Ok(self as u32) } else { Err(DekuError::Parse) } } }
impl Narrow for u32 { open spec fn nv(self) -> int { self as int } fn n8(self) -> (r: Result<u8, DekuError>) { if self <= 255 { Ok(self as u8) } else { Err(DekuError::Parse) } } fn n16(self) -> (r: Result<u16, DekuError>) { if self <= 65535 { Ok(self as u16) } else { Err(DekuError::Parse) } } fn n32(self) -> (r: Result<u32, DekuError>) { if true { Ok(self as u32) } else { Err(DekuError::Parse) } } }
impl Narrow for u64 { open spec fn nv(self) -> int { self as int } fn n8(self) -> (r: Result<u8, DekuError>) { if self <= 255 { Ok(self as u8) } else { Err(DekuError::Parse) } } fn n16(self) -> (r: Result<u16, DekuError>) { if self <= 65535 { Ok(self as u16) } else { Err(DekuError::Parse) } } fn n32(self) -> (r: Result<u32, DekuError>) { if self <= 0xffff_ffff { Ok(self as u32) } else { Err(DekuError::Parse) } } }
impl Narrow for usize { open spec fn nv(self) -> int { self as int } fn n8(self) -> (r: Result<u8, DekuError>) { if self <= 255 { Ok(self as u8) } else { Err(DekuError::Parse) } } fn n16(self) -> (r: Result<u16, DekuError>) { if self <= 65535 { Ok(self as u16) } else { Err(DekuError::Parse) } } fn n32(self) -> (r: Result<u32, DekuError>) { if self <= 0xffff_ffff { Ok(self as u32) } else { Err(DekuError::Parse) } } }
impl Narrow for u128 { open spec fn nv(self) -> int { self as int } fn n8(self) -> (r: Result<u8, DekuError>) { if self <= 255 { Ok(self as u8) } else { Err(DekuError::Parse) } } fn n16(self) -> (r: Result<u16, DekuError>) { if self <= 65535 { Ok(self as u16) } else { Err(DekuError::Parse) } } fn n32(self) -> (r: Result<u32, DekuError>) { if self <= 0xffff_ffff { Ok(self as u32) } else { Err(DekuError::Parse) } } }
impl Narrow for i8 { open spec fn nv(self) -> int { self as int } fn n8(self) -> (r: Result<u8, DekuError>) { if self >= 0 { Ok(self as u8) } else { Err(DekuError::Parse) } } fn n16(self) -> (r: Result<u16, DekuError>) { if self >= 0 { Ok(self as u16) } else { Err(DekuError::Parse) } } fn n32(self) -> (r: Result<u32, DekuError>) { if self >= 0 { Ok(self as u32) } else { Err(DekuError::Parse) } } }
impl Narrow for i16 { open spec fn nv(self) -> int { self as int } fn n8(self) -> (r: Result<u8, DekuError>) { if self >= 0 && self <= 255 { Ok(self as u8) } else { Err(DekuError::Parse) } } fn n16(self) -> (r: Result<u16, DekuError>) { if self >= 0 { Ok(self as u16) } else { Err(DekuError::Parse) } } fn n32(self) -> (r: Result<u32, DekuError>) { if self >= 0 { Ok(self as u32) } else { Err(DekuError::Parse) } } }
impl Narrow for i32 { open spec fn nv(self) -> int { self as int } fn n8(self) -> (r: Result<u8, DekuError>) { if self >= 0 && self <= 255 { Ok(self as u8) } else { Err(DekuError::Parse) } } fn n16(self) -> (r: Result<u16, DekuError>) { if self >= 0 && self <= 65535 { Ok(self as u16) } else { Err(DekuError::Parse) } } fn n32(self) -> (r: Result<u32, DekuError>) { if self >= 0 { Ok(self as u32) } else { Err(DekuError::Parse) } } }
impl Narrow for i64 { open spec fn nv(self) -> int { self as int } fn n8(self) -> (r: Result<u8, DekuError>) { if self >= 0 && self <= 255 { Ok(self as u8) } else { Err(DekuError::Parse) } } fn n16(self) -> (r: Result<u16, DekuError>) { if self >= 0 && self <= 65535 { Ok(self as u16) } else { Err(DekuError::Parse) } } fn n32(self) -> (r: Result<u32, DekuError>) { if self >= 0 && self <= 0xffff_ffff { Ok(self as u32) } else { Err(DekuError::Parse) } } }
impl Narrow for isize { open spec fn nv(self) -> int { self as int } fn n8(self) -> (r: Result<u8, DekuError>) { if self >= 0 && self <= 255 { Ok(self as u8) } else { Err(DekuError::Parse) } } fn n16(self) -> (r: Result<u16, DekuError>) { if self >= 0 && self <= 65535 { Ok(self as u16) } else { Err(DekuError::Parse) } } fn n32(self) -> (r: Result<u32, DekuError>) { if self >= 0 && self <= 0xffff_ffff { Ok(self as u32) } else { Err(DekuError::Parse) } } }
pub fn u8_try_from<T: Narrow>(x: T) -> (r: Result<u8, DekuError>) ensures r is Ok <==> 0 <= x.nv() <= 255, r is Ok ==> r->Ok_0 == x.nv() { x.n8() }
pub fn u16_try_from<T: Narrow>(x: T) -> (r: Result<u16, DekuError>) ensures r is Ok <==> 0 <= x.nv() <= 65535, r is Ok ==> r->Ok_0 == x.nv() { x.n16() }
pub fn u32_try_from<T: Narrow>(x: T) -> (r: Result<u32, DekuError>) ensures r is Ok <==> 0 <= x.nv() <= 0xffff_ffff, r is Ok ==> r->Ok_0 == x.nv() { x.n32() }

impl DekuReader<()> for u8 {
    open spec fn ral() -> int { -1 }
    open spec fn dec(s: Seq<bool>, p: int, ctx: ()) -> Option<(u8, int)> { d_u8(s, p, 8) }
    #[verifier::external_body]
    fn from_reader_with_ctx<R: Read + Seek>(reader: &mut Reader<R>, ctx: ()) -> (r: Result<Self, DekuError>)
        ensures r is Ok ==> final(reader).last_bits_read_amt == old(reader).last_bits_read_amt + 8
    { unimplemented!() }
}
impl DekuWriter<()> for u8 {
    open spec fn wr(&self, out: Seq<bool>, ctx: ()) -> Option<Seq<bool>> { wn(out, *self as nat, 8) }
    #[verifier::external_body]
    fn to_writer<W: Write + Seek>(&self, writer: &mut Writer<W>, ctx: ()) -> (r: Result<(), DekuError>) { unimplemented!() }
}
impl DekuReader<Endian> for u8 {
    open spec fn ral() -> int { -1 }
    open spec fn dec(s: Seq<bool>, p: int, ctx: Endian) -> Option<(u8, int)> { d_u8(s, p, 8) }
    #[verifier::external_body]
    fn from_reader_with_ctx<R: Read + Seek>(reader: &mut Reader<R>, ctx: Endian) -> (r: Result<Self, DekuError>)
        ensures r is Ok ==> final(reader).last_bits_read_amt == old(reader).last_bits_read_amt + 8
    { unimplemented!() }
}
impl DekuWriter<Endian> for u8 {
    open spec fn wr(&self, out: Seq<bool>, ctx: Endian) -> Option<Seq<bool>> { wn(out, *self as nat, 8) }
    #[verifier::external_body]
    fn to_writer<W: Write + Seek>(&self, writer: &mut Writer<W>, ctx: Endian) -> (r: Result<(), DekuError>) { unimplemented!() }
}
impl DekuReader<(Endian, BitSize)> for u8 {
    open spec fn ral() -> int { -1 }
    open spec fn dec(s: Seq<bool>, p: int, ctx: (Endian, BitSize)) -> Option<(u8, int)> { if ctx.1.0 <= 8 { d_u8(s, p, ctx.1.0 as nat) } else { None } }
    #[verifier::external_body]
    fn from_reader_with_ctx<R: Read + Seek>(reader: &mut Reader<R>, ctx: (Endian, BitSize)) -> (r: Result<Self, DekuError>)
        ensures r is Ok ==> final(reader).last_bits_read_amt == old(reader).last_bits_read_amt + ctx.1.0
    { unimplemented!() }
}
impl DekuWriter<(Endian, BitSize)> for u8 {
    open spec fn wr(&self, out: Seq<bool>, ctx: (Endian, BitSize)) -> Option<Seq<bool>> { if ctx.1.0 <= 8 { wn(out, *self as nat, ctx.1.0 as nat) } else { None } }
    #[verifier::external_body]
    fn to_writer<W: Write + Seek>(&self, writer: &mut Writer<W>, ctx: (Endian, BitSize)) -> (r: Result<(), DekuError>) { unimplemented!() }
}
impl DekuReader<BitSize> for u8 {
    open spec fn ral() -> int { -1 }
    open spec fn dec(s: Seq<bool>, p: int, ctx: BitSize) -> Option<(u8, int)> { if ctx.0 <= 8 { d_u8(s, p, ctx.0 as nat) } else { None } }
    #[verifier::external_body]
    fn from_reader_with_ctx<R: Read + Seek>(reader: &mut Reader<R>, ctx: BitSize) -> (r: Result<Self, DekuError>)
        ensures r is Ok ==> final(reader).last_bits_read_amt == old(reader).last_bits_read_amt + ctx.0
    { unimplemented!() }
}
impl DekuWriter<BitSize> for u8 {
    open spec fn wr(&self, out: Seq<bool>, ctx: BitSize) -> Option<Seq<bool>> { if ctx.0 <= 8 { wn(out, *self as nat, ctx.0 as nat) } else { None } }
    #[verifier::external_body]
    fn to_writer<W: Write + Seek>(&self, writer: &mut Writer<W>, ctx: BitSize) -> (r: Result<(), DekuError>) { unimplemented!() }
}
impl DekuReader<()> for u16 {
    open spec fn ral() -> int { -1 }
    open spec fn dec(s: Seq<bool>, p: int, ctx: ()) -> Option<(u16, int)> { d_u16le(s, p) }
    #[verifier::external_body]
    fn from_reader_with_ctx<R: Read + Seek>(reader: &mut Reader<R>, ctx: ()) -> (r: Result<Self, DekuError>)
        ensures r is Ok ==> final(reader).last_bits_read_amt == old(reader).last_bits_read_amt + 16
    { unimplemented!() }
}
impl DekuWriter<()> for u16 {
    open spec fn wr(&self, out: Seq<bool>, ctx: ()) -> Option<Seq<bool>> { Some(wle(out, *self as nat, 2)) }
    #[verifier::external_body]
    fn to_writer<W: Write + Seek>(&self, writer: &mut Writer<W>, ctx: ()) -> (r: Result<(), DekuError>) { unimplemented!() }
}
impl DekuReader<Endian> for u16 {
    open spec fn ral() -> int { -1 }
    open spec fn dec(s: Seq<bool>, p: int, ctx: Endian) -> Option<(u16, int)> { if ctx == Endian::Big { d_u16(s, p, 16) } else { d_u16le(s, p) } }
    #[verifier::external_body]
    fn from_reader_with_ctx<R: Read + Seek>(reader: &mut Reader<R>, ctx: Endian) -> (r: Result<Self, DekuError>)
        ensures r is Ok ==> final(reader).last_bits_read_amt == old(reader).last_bits_read_amt + 16
    { unimplemented!() }
}
impl DekuWriter<Endian> for u16 {
    open spec fn wr(&self, out: Seq<bool>, ctx: Endian) -> Option<Seq<bool>> { if ctx == Endian::Big { wn(out, *self as nat, 16) } else { Some(wle(out, *self as nat, 2)) } }
    #[verifier::external_body]
    fn to_writer<W: Write + Seek>(&self, writer: &mut Writer<W>, ctx: Endian) -> (r: Result<(), DekuError>) { unimplemented!() }
}
impl DekuReader<(Endian, BitSize)> for u16 {
    open spec fn ral() -> int { -1 }
    open spec fn dec(s: Seq<bool>, p: int, ctx: (Endian, BitSize)) -> Option<(u16, int)> { if ctx.1.0 <= 16 { if ctx.0 == Endian::Big { d_u16(s, p, ctx.1.0 as nat) } else { d_u16_lebits(s, p, ctx.1.0 as nat) } } else { None } }
    #[verifier::external_body]
    fn from_reader_with_ctx<R: Read + Seek>(reader: &mut Reader<R>, ctx: (Endian, BitSize)) -> (r: Result<Self, DekuError>)
        ensures r is Ok ==> final(reader).last_bits_read_amt == old(reader).last_bits_read_amt + ctx.1.0
    { unimplemented!() }
}
impl DekuWriter<(Endian, BitSize)> for u16 {
    open spec fn wr(&self, out: Seq<bool>, ctx: (Endian, BitSize)) -> Option<Seq<bool>> { if ctx.1.0 <= 16 { if ctx.0 == Endian::Big { wn(out, *self as nat, ctx.1.0 as nat) } else { w_u16_lebits(out, *self, ctx.1.0 as nat) } } else { None } }
    #[verifier::external_body]
    fn to_writer<W: Write + Seek>(&self, writer: &mut Writer<W>, ctx: (Endian, BitSize)) -> (r: Result<(), DekuError>) { unimplemented!() }
}
pub uninterp spec fn d_u16_lebits(s: Seq<bool>, p: int, n: nat) -> Option<(u16, int)>;
pub uninterp spec fn w_u16_lebits(out: Seq<bool>, v: u16, n: nat) -> Option<Seq<bool>>;
impl DekuReader<()> for u32 {
    open spec fn ral() -> int { -1 }
    open spec fn dec(s: Seq<bool>, p: int, ctx: ()) -> Option<(u32, int)> { d_u32le(s, p) }
    #[verifier::external_body]
    fn from_reader_with_ctx<R: Read + Seek>(reader: &mut Reader<R>, ctx: ()) -> (r: Result<Self, DekuError>)
        ensures r is Ok ==> final(reader).last_bits_read_amt == old(reader).last_bits_read_amt + 32
    { unimplemented!() }
}
impl DekuWriter<()> for u32 {
    open spec fn wr(&self, out: Seq<bool>, ctx: ()) -> Option<Seq<bool>> { Some(wle(out, *self as nat, 4)) }
    #[verifier::external_body]
    fn to_writer<W: Write + Seek>(&self, writer: &mut Writer<W>, ctx: ()) -> (r: Result<(), DekuError>) { unimplemented!() }
}
impl DekuReader<Endian> for u32 {
    open spec fn ral() -> int { -1 }
    open spec fn dec(s: Seq<bool>, p: int, ctx: Endian) -> Option<(u32, int)> { if ctx == Endian::Big { d_u32(s, p, 32) } else { d_u32le(s, p) } }
    #[verifier::external_body]
    fn from_reader_with_ctx<R: Read + Seek>(reader: &mut Reader<R>, ctx: Endian) -> (r: Result<Self, DekuError>)
        ensures r is Ok ==> final(reader).last_bits_read_amt == old(reader).last_bits_read_amt + 32
    { unimplemented!() }
}
impl DekuWriter<Endian> for u32 {
    open spec fn wr(&self, out: Seq<bool>, ctx: Endian) -> Option<Seq<bool>> { if ctx == Endian::Big { wn(out, *self as nat, 32) } else { Some(wle(out, *self as nat, 4)) } }
    #[verifier::external_body]
    fn to_writer<W: Write + Seek>(&self, writer: &mut Writer<W>, ctx: Endian) -> (r: Result<(), DekuError>) { unimplemented!() }
}
impl DekuReader<(Endian, BitSize)> for u32 {
    open spec fn ral() -> int { -1 }
    open spec fn dec(s: Seq<bool>, p: int, ctx: (Endian, BitSize)) -> Option<(u32, int)> { if ctx.1.0 <= 32 { if ctx.0 == Endian::Big { d_u32(s, p, ctx.1.0 as nat) } else { d_u32_lebits(s, p, ctx.1.0 as nat) } } else { None } }
    #[verifier::external_body]
    fn from_reader_with_ctx<R: Read + Seek>(reader: &mut Reader<R>, ctx: (Endian, BitSize)) -> (r: Result<Self, DekuError>)
        ensures r is Ok ==> final(reader).last_bits_read_amt == old(reader).last_bits_read_amt + ctx.1.0
    { unimplemented!() }
}
impl DekuWriter<(Endian, BitSize)> for u32 {
    open spec fn wr(&self, out: Seq<bool>, ctx: (Endian, BitSize)) -> Option<Seq<bool>> { if ctx.1.0 <= 32 { if ctx.0 == Endian::Big { wn(out, *self as nat, ctx.1.0 as nat) } else { w_u32_lebits(out, *self, ctx.1.0 as nat) } } else { None } }
    #[verifier::external_body]
    fn to_writer<W: Write + Seek>(&self, writer: &mut Writer<W>, ctx: (Endian, BitSize)) -> (r: Result<(), DekuError>) { unimplemented!() }
}
pub uninterp spec fn d_u32_lebits(s: Seq<bool>, p: int, n: nat) -> Option<(u32, int)>;
pub uninterp spec fn w_u32_lebits(out: Seq<bool>, v: u32, n: nat) -> Option<Seq<bool>>;
impl DekuReader<()> for u64 {
    open spec fn ral() -> int { -1 }
    open spec fn dec(s: Seq<bool>, p: int, ctx: ()) -> Option<(u64, int)> { d_u64le(s, p) }
    #[verifier::external_body]
    fn from_reader_with_ctx<R: Read + Seek>(reader: &mut Reader<R>, ctx: ()) -> (r: Result<Self, DekuError>)
        ensures r is Ok ==> final(reader).last_bits_read_amt == old(reader).last_bits_read_amt + 64
    { unimplemented!() }
}
impl DekuWriter<()> for u64 {
    open spec fn wr(&self, out: Seq<bool>, ctx: ()) -> Option<Seq<bool>> { Some(wle(out, *self as nat, 8)) }
    #[verifier::external_body]
    fn to_writer<W: Write + Seek>(&self, writer: &mut Writer<W>, ctx: ()) -> (r: Result<(), DekuError>) { unimplemented!() }
}
impl DekuReader<Endian> for u64 {
    open spec fn ral() -> int { -1 }
    open spec fn dec(s: Seq<bool>, p: int, ctx: Endian) -> Option<(u64, int)> { if ctx == Endian::Big { d_u64(s, p, 64) } else { d_u64le(s, p) } }
    #[verifier::external_body]
    fn from_reader_with_ctx<R: Read + Seek>(reader: &mut Reader<R>, ctx: Endian) -> (r: Result<Self, DekuError>)
        ensures r is Ok ==> final(reader).last_bits_read_amt == old(reader).last_bits_read_amt + 64
    { unimplemented!() }
}
impl DekuWriter<Endian> for u64 {
    open spec fn wr(&self, out: Seq<bool>, ctx: Endian) -> Option<Seq<bool>> { if ctx == Endian::Big { wn(out, *self as nat, 64) } else { Some(wle(out, *self as nat, 8)) } }
    #[verifier::external_body]
    fn to_writer<W: Write + Seek>(&self, writer: &mut Writer<W>, ctx: Endian) -> (r: Result<(), DekuError>) { unimplemented!() }
}
impl DekuReader<(Endian, BitSize)> for u64 {
    open spec fn ral() -> int { -1 }
    open spec fn dec(s: Seq<bool>, p: int, ctx: (Endian, BitSize)) -> Option<(u64, int)> { if ctx.1.0 <= 64 { if ctx.0 == Endian::Big { d_u64(s, p, ctx.1.0 as nat) } else { d_u64_lebits(s, p, ctx.1.0 as nat) } } else { None } }
    #[verifier::external_body]
    fn from_reader_with_ctx<R: Read + Seek>(reader: &mut Reader<R>, ctx: (Endian, BitSize)) -> (r: Result<Self, DekuError>)
        ensures r is Ok ==> final(reader).last_bits_read_amt == old(reader).last_bits_read_amt + ctx.1.0
    { unimplemented!() }
}
impl DekuWriter<(Endian, BitSize)> for u64 {
    open spec fn wr(&self, out: Seq<bool>, ctx: (Endian, BitSize)) -> Option<Seq<bool>> { if ctx.1.0 <= 64 { if ctx.0 == Endian::Big { wn(out, *self as nat, ctx.1.0 as nat) } else { w_u64_lebits(out, *self, ctx.1.0 as nat) } } else { None } }
    #[verifier::external_body]
    fn to_writer<W: Write + Seek>(&self, writer: &mut Writer<W>, ctx: (Endian, BitSize)) -> (r: Result<(), DekuError>) { unimplemented!() }
}
pub uninterp spec fn d_u64_lebits(s: Seq<bool>, p: int, n: nat) -> Option<(u64, int)>;
pub uninterp spec fn w_u64_lebits(out: Seq<bool>, v: u64, n: nat) -> Option<Seq<bool>>;
impl DekuReader<()> for u128 {
    open spec fn ral() -> int { -1 }
    open spec fn dec(s: Seq<bool>, p: int, ctx: ()) -> Option<(u128, int)> { d_u128le(s, p) }
    #[verifier::external_body]
    fn from_reader_with_ctx<R: Read + Seek>(reader: &mut Reader<R>, ctx: ()) -> (r: Result<Self, DekuError>)
        ensures r is Ok ==> final(reader).last_bits_read_amt == old(reader).last_bits_read_amt + 128
    { unimplemented!() }
}
impl DekuWriter<()> for u128 {
    open spec fn wr(&self, out: Seq<bool>, ctx: ()) -> Option<Seq<bool>> { Some(wle(out, *self as nat, 16)) }
    #[verifier::external_body]
    fn to_writer<W: Write + Seek>(&self, writer: &mut Writer<W>, ctx: ()) -> (r: Result<(), DekuError>) { unimplemented!() }
}
impl DekuReader<()> for i8 {
    open spec fn ral() -> int { -1 }
    open spec fn dec(s: Seq<bool>, p: int, ctx: ()) -> Option<(i8, int)> { d_i8(s, p) }
    #[verifier::external_body]
    fn from_reader_with_ctx<R: Read + Seek>(reader: &mut Reader<R>, ctx: ()) -> (r: Result<Self, DekuError>)
        ensures r is Ok ==> final(reader).last_bits_read_amt == old(reader).last_bits_read_amt + 8
    { unimplemented!() }
}
impl DekuWriter<()> for i8 {
    open spec fn wr(&self, out: Seq<bool>, ctx: ()) -> Option<Seq<bool>> { w_i8(out, *self) }
    #[verifier::external_body]
    fn to_writer<W: Write + Seek>(&self, writer: &mut Writer<W>, ctx: ()) -> (r: Result<(), DekuError>) { unimplemented!() }
}
impl DekuReader<Endian> for i8 {
    open spec fn ral() -> int { -1 }
    open spec fn dec(s: Seq<bool>, p: int, ctx: Endian) -> Option<(i8, int)> { d_i8(s, p) }
    #[verifier::external_body]
    fn from_reader_with_ctx<R: Read + Seek>(reader: &mut Reader<R>, ctx: Endian) -> (r: Result<Self, DekuError>)
        ensures r is Ok ==> final(reader).last_bits_read_amt == old(reader).last_bits_read_amt + 8
    { unimplemented!() }
}
impl DekuWriter<Endian> for i8 {
    open spec fn wr(&self, out: Seq<bool>, ctx: Endian) -> Option<Seq<bool>> { w_i8(out, *self) }
    #[verifier::external_body]
    fn to_writer<W: Write + Seek>(&self, writer: &mut Writer<W>, ctx: Endian) -> (r: Result<(), DekuError>) { unimplemented!() }
}
impl DekuReader<BitSize> for bool {
    open spec fn ral() -> int { -1 }
    open spec fn dec(s: Seq<bool>, p: int, ctx: BitSize) -> Option<(bool, int)> { if ctx.0 == 1 { d_bool(s, p) } else { d_bool_bits(s, p, ctx.0 as nat) } }
    #[verifier::external_body]
    fn from_reader_with_ctx<R: Read + Seek>(reader: &mut Reader<R>, ctx: BitSize) -> (r: Result<Self, DekuError>)
        ensures r is Ok ==> final(reader).last_bits_read_amt == old(reader).last_bits_read_amt + ctx.0
    { unimplemented!() }
}
impl DekuWriter<BitSize> for bool {
    open spec fn wr(&self, out: Seq<bool>, ctx: BitSize) -> Option<Seq<bool>> { if ctx.0 == 1 { w_bool(out, *self) } else { w_bool_bits(out, *self, ctx.0 as nat) } }
    #[verifier::external_body]
    fn to_writer<W: Write + Seek>(&self, writer: &mut Writer<W>, ctx: BitSize) -> (r: Result<(), DekuError>) { unimplemented!() }
}
pub uninterp spec fn d_bool_bits(s: Seq<bool>, p: int, n: nat) -> Option<(bool, int)>;
pub uninterp spec fn w_bool_bits(out: Seq<bool>, v: bool, n: nat) -> Option<Seq<bool>>;
impl DekuReader<()> for bool {
    open spec fn ral() -> int { -1 }
    open spec fn dec(s: Seq<bool>, p: int, ctx: ()) -> Option<(bool, int)> { match rd(s, p, 8) { Some((x, q)) => if x == 0 { Some((false, q)) } else if x == 1 { Some((true, q)) } else { None }, None => None } }
    #[verifier::external_body]
    fn from_reader_with_ctx<R: Read + Seek>(reader: &mut Reader<R>, ctx: ()) -> (r: Result<Self, DekuError>)
        ensures r is Ok ==> final(reader).last_bits_read_amt == old(reader).last_bits_read_amt + 8
    { unimplemented!() }
}
impl DekuWriter<()> for bool {
    open spec fn wr(&self, out: Seq<bool>, ctx: ()) -> Option<Seq<bool>> { wn(out, if *self { 1 } else { 0 }, 8) }
    #[verifier::external_body]
    fn to_writer<W: Write + Seek>(&self, writer: &mut Writer<W>, ctx: ()) -> (r: Result<(), DekuError>) { unimplemented!() }
}

// element-wise containers
pub open spec fn dec_seq<T: DekuReader<Ctx>, Ctx>(s: Seq<bool>, p: int, n: nat, ctx: Ctx) -> Option<(Seq<T>, int)> decreases n {
    if n == 0 { Some((Seq::empty(), p)) } else {
        match dec_seq::<T, Ctx>(s, p, (n - 1) as nat, ctx) { None => None, Some((xs, q)) =>
        match T::dec(s, q, ctx) { None => None, Some((x, q2)) => Some((xs.push(x), q2)) } }
    }
}
pub open spec fn wr_seq<T: DekuWriter<Ctx>, Ctx>(out: Seq<bool>, xs: Seq<T>, ctx: Ctx) -> Option<Seq<bool>> decreases xs.len() {
    if xs.len() == 0 { Some(out) } else {
        match wr_seq::<T, Ctx>(out, xs.drop_last(), ctx) { None => None, Some(o) => xs.last().wr(o, ctx) }
    }
}
/// an element that cannot be decoded makes the whole fail
pub proof fn l_dec_fail<T: DekuReader<Ctx>, Ctx>(s: Seq<bool>, p: int, m: nat, n: nat, ctx: Ctx) requires m <= n ensures dec_seq::<T, Ctx>(s, p, m, ctx) is None ==> dec_seq::<T, Ctx>(s, p, n, ctx) is None decreases n {
    if m < n { l_dec_fail::<T, Ctx>(s, p, m, (n - 1) as nat, ctx); }
}
pub proof fn l_dec_fails<T: DekuReader<Ctx>, Ctx>(s: Seq<bool>, p: int, n: nat, ctx: Ctx)
    ensures forall|m: nat| #![trigger dec_seq::<T, Ctx>(s, p, m, ctx)] m < n && dec_seq::<T, Ctx>(s, p, m, ctx) is Some && T::dec(s, (dec_seq::<T, Ctx>(s, p, m, ctx)->0).1, ctx) is None ==> dec_seq::<T, Ctx>(s, p, n, ctx) is None {
    assert forall|m: nat| #![trigger dec_seq::<T, Ctx>(s, p, m, ctx)] m < n && dec_seq::<T, Ctx>(s, p, m, ctx) is Some && T::dec(s, (dec_seq::<T, Ctx>(s, p, m, ctx)->0).1, ctx) is None implies dec_seq::<T, Ctx>(s, p, n, ctx) is None by {
        assert(dec_seq::<T, Ctx>(s, p, m + 1, ctx) is None);
        l_dec_fail::<T, Ctx>(s, p, m + 1, n, ctx);
    }
}
pub open spec fn mu_take<T>(a: Seq<Option<T>>, n: int) -> Seq<T> { Seq::new(n as nat, |i: int| a[i]->0) }
pub broadcast proof fn b_mu_upd<T>(a: Seq<Option<T>>, i: int, x: Option<T>, n: int) requires 0 <= i < a.len(), n == i + 1 ensures #[trigger] mu_take(a.update(i, x), n) == mu_take(a, i).push(x->0) { assert(mu_take(a.update(i, x), n) =~= mu_take(a, i).push(x->0)); }
pub broadcast proof fn b_mu_0<T>(a: Seq<Option<T>>) ensures #[trigger] mu_take(a, 0) == Seq::<T>::empty() { assert(mu_take(a, 0) =~= Seq::<T>::empty()); }
pub open spec fn dec_vec<T: DekuReader<Ctx>, Ctx>(s: Seq<bool>, p: int, n: nat, ctx: Ctx) -> Option<(Vec<T>, int)> {
    match dec_seq::<T, Ctx>(s, p, n, ctx) { None => None, Some((xs, q)) => Some((mkvec(xs), q)) }
}
pub open spec fn dec_arr<T: DekuReader<Ctx>, Ctx, const N: usize>(s: Seq<bool>, p: int, ctx: Ctx) -> Option<(Arr<T, N>, int)> {
    match dec_seq::<T, Ctx>(s, p, N as nat, ctx) { None => None, Some((xs, q)) => Some((mkarr(xs), q)) }
}
impl<T: DekuReader<Ctx>, Ctx: Copy> DekuReader<(Limit, Ctx)> for Vec<T> {
    open spec fn ral() -> int { T::ral() }
    open spec fn dec(s: Seq<bool>, p: int, ctx: (Limit, Ctx)) -> Option<(Vec<T>, int)> { dec_vec::<T, Ctx>(s, p, ctx.0.n as nat, ctx.1) }
    #[verifier::external_body]
    fn from_reader_with_ctx<R: Read + Seek>(reader: &mut Reader<R>, ctx: (Limit, Ctx)) -> (r: Result<Self, DekuError>) { unimplemented!() }
}
impl DekuReader<Limit> for Vec<u8> {
    open spec fn ral() -> int { -1 }
    open spec fn dec(s: Seq<bool>, p: int, ctx: Limit) -> Option<(Vec<u8>, int)> { dec_vec::<u8, ()>(s, p, ctx.n as nat, ()) }
    #[verifier::external_body]
    fn from_reader_with_ctx<R: Read + Seek>(reader: &mut Reader<R>, ctx: Limit) -> (r: Result<Self, DekuError>) { unimplemented!() }
}
impl<T: DekuWriter<Ctx>, Ctx: Copy> DekuWriter<Ctx> for Vec<T> {
    open spec fn wr(&self, out: Seq<bool>, ctx: Ctx) -> Option<Seq<bool>> { wr_seq::<T, Ctx>(out, self@, ctx) }
    #[verifier::external_body]
    fn to_writer<W: Write + Seek>(&self, writer: &mut Writer<W>, ctx: Ctx) -> (r: Result<(), DekuError>) { unimplemented!() }
}
impl<T: DekuReader<Ctx>, Ctx: Copy, const N: usize> DekuReader<Ctx> for Arr<T, N> {
    open spec fn ral() -> int { T::ral() }
    open spec fn dec(s: Seq<bool>, p: int, ctx: Ctx) -> Option<(Arr<T, N>, int)> { dec_arr::<T, Ctx, N>(s, p, ctx) }
    #[verifier::external_body]
    fn from_reader_with_ctx<R: Read + Seek>(reader: &mut Reader<R>, ctx: Ctx) -> (r: Result<Self, DekuError>) { unimplemented!() }
}
impl<T: DekuWriter<Ctx>, Ctx: Copy, const N: usize> DekuWriter<Ctx> for Arr<T, N> {
    open spec fn wr(&self, out: Seq<bool>, ctx: Ctx) -> Option<Seq<bool>> { wr_seq::<T, Ctx>(out, self@, ctx) }
    #[verifier::external_body]
    fn to_writer<W: Write + Seek>(&self, writer: &mut Writer<W>, ctx: Ctx) -> (r: Result<(), DekuError>) { unimplemented!() }
}
pub open spec fn dec_opt<T: DekuReader<Ctx>, Ctx>(s: Seq<bool>, p: int, ctx: Ctx) -> Option<(Option<T>, int)> {
    match T::dec(s, p, ctx) { None => None, Some((x, q)) => Some((Some(x), q)) }
}
pub open spec fn wr_opt<T: DekuWriter<Ctx>, Ctx>(out: Seq<bool>, v: Option<T>, ctx: Ctx) -> Option<Seq<bool>> {
    match v { None => Some(out), Some(x) => x.wr(out, ctx) }
}
impl<T: DekuReader<Ctx>, Ctx> DekuReader<Ctx> for Option<T> {
    open spec fn ral() -> int { T::ral() }
    open spec fn dec(s: Seq<bool>, p: int, ctx: Ctx) -> Option<(Option<T>, int)> { dec_opt::<T, Ctx>(s, p, ctx) }
    #[verifier::external_body]
    fn from_reader_with_ctx<R: Read + Seek>(reader: &mut Reader<R>, ctx: Ctx) -> (r: Result<Self, DekuError>) { unimplemented!() }
}
impl<T: DekuWriter<Ctx>, Ctx> DekuWriter<Ctx> for Option<T> {
    open spec fn wr(&self, out: Seq<bool>, ctx: Ctx) -> Option<Seq<bool>> { wr_opt::<T, Ctx>(out, *self, ctx) }
    #[verifier::external_body]
    fn to_writer<W: Write + Seek>(&self, writer: &mut Writer<W>, ctx: Ctx) -> (r: Result<(), DekuError>) { unimplemented!() }
}
impl<T> Default for Vec<T> { open spec fn dflt() -> Self { mkvec(Seq::<T>::empty()) } #[verifier::external_body] fn default() -> (r: Self) { unimplemented!() } }
impl<T> Default for Option<T> { open spec fn dflt() -> Self { None } fn default() -> (r: Self) { None } }
impl<T: Default, const N: usize> Default for Arr<T, N> { open spec fn dflt() -> Self { mkarr(Seq::new(N as nat, |i: int| T::dflt())) } #[verifier::external_body] fn default() -> (r: Self) { unimplemented!() } }
impl Default for u8 { open spec fn dflt() -> Self { 0 } fn default() -> (r: Self) { proof { assert(Self::dflt() == Self::dflt()); } 0 } }
impl Default for u16 { open spec fn dflt() -> Self { 0 } fn default() -> (r: Self) { proof { assert(Self::dflt() == Self::dflt()); } 0 } }
impl Default for u32 { open spec fn dflt() -> Self { 0 } fn default() -> (r: Self) { proof { assert(Self::dflt() == Self::dflt()); } 0 } }
impl Default for i8 { open spec fn dflt() -> Self { 0 } fn default() -> (r: Self) { proof { assert(Self::dflt() == Self::dflt()); } 0 } }
impl Default for bool { open spec fn dflt() -> Self { false } fn default() -> (r: Self) { proof { assert(Self::dflt() == Self::dflt()); } false } }

// byte sequences, in closed form
pub open spec fn u8w<Ctx>(ctx: Ctx) -> bool where u8: DekuWriter<Ctx> { forall|o: Seq<bool>, b: u8| #![auto] b.wr(o, ctx) == wn(o, b as nat, 8) }
pub open spec fn u8r<Ctx>(ctx: Ctx) -> bool where u8: DekuReader<Ctx> { forall|t: Seq<bool>, p: int| #![auto] <u8 as DekuReader<Ctx>>::dec(t, p, ctx) == d_u8(t, p, 8) }
pub proof fn l_wr_bytes<Ctx>(out: Seq<bool>, xs: Seq<u8>, ctx: Ctx) where u8: DekuWriter<Ctx>
    requires u8w(ctx) ensures wr_seq::<u8, Ctx>(out, xs, ctx) == w_bytes(out, xs) decreases xs.len()
{
    if xs.len() > 0 {
        l_wr_bytes::<Ctx>(out, xs.drop_last(), ctx);
        l_p2(); l_bob_push(xs.drop_last(), xs.last());
        assert(xs.drop_last().push(xs.last()) =~= xs);
        let o = out + bob(xs.drop_last());
        assert(xs.last().wr(o, ctx) == wn(o, xs.last() as nat, 8));
        assert(o + nbits(xs.last() as nat, 8) =~= out + bob(xs));
    } else { assert(out + bob(xs) =~= out); }
}
pub proof fn l_dec_bytes<Ctx>(s: Seq<bool>, p: int, n: nat, ctx: Ctx) where u8: DekuReader<Ctx>
    requires u8r(ctx), 0 <= p <= s.len() ensures dec_seq::<u8, Ctx>(s, p, n, ctx) == d_bytes(s, p, n) decreases n
{
    if n > 0 {
        let m = (n - 1) as nat;
        l_dec_bytes::<Ctx>(s, p, m, ctx);
        if p + 8 * m <= s.len() {
            assert(<u8 as DekuReader<Ctx>>::dec(s, p + 8 * m, ctx) == d_u8(s, p + 8 * m, 8));
            if p + 8 * n <= s.len() {
                assert((d_bytes(s, p, m)->0).0.push(val(s, p + 8 * m, 8) as u8) =~= (d_bytes(s, p, n)->0).0);
            }
        }
    } else { assert(Seq::<u8>::empty() =~= Seq::new(0, |i: int| val(s, p + 8 * i, 8) as u8)); }
}
pub broadcast proof fn b_wr_bytes0(out: Seq<bool>, xs: Seq<u8>) ensures #[trigger] wr_seq::<u8, ()>(out, xs, ()) == w_bytes(out, xs) { l_wr_bytes::<()>(out, xs, ()); }
pub broadcast proof fn b_wr_bytes1(out: Seq<bool>, xs: Seq<u8>, e: Endian) ensures #[trigger] wr_seq::<u8, Endian>(out, xs, e) == w_bytes(out, xs) { l_wr_bytes::<Endian>(out, xs, e); }
pub broadcast proof fn b_dec_bytes0(s: Seq<bool>, p: int, n: nat) requires 0 <= p <= s.len() ensures #[trigger] dec_seq::<u8, ()>(s, p, n, ()) == d_bytes(s, p, n) { l_dec_bytes::<()>(s, p, n, ()); }
pub broadcast proof fn b_dec_bytes1(s: Seq<bool>, p: int, n: nat, e: Endian) requires 0 <= p <= s.len() ensures #[trigger] dec_seq::<u8, Endian>(s, p, n, e) == d_bytes(s, p, n) { l_dec_bytes::<Endian>(s, p, n, e); }
pub broadcast proof fn b_val_bound(s: Seq<bool>, p: int, n: nat) ensures #[trigger] val(s, p, n) < p2(n) { l_val_bound(s, p, n); }
pub broadcast proof fn b_take_drop<T>(s: Seq<T>, j: int) requires 0 < j <= s.len() ensures #[trigger] s.take(j).drop_last() == s.take(j - 1) { assert(s.take(j).drop_last() =~= s.take(j - 1)); }
pub broadcast proof fn b_take_last<T>(s: Seq<T>, j: int) requires 0 < j <= s.len() ensures #[trigger] s.take(j).last() == s[j - 1] { }
pub broadcast proof fn b_take_all<T>(s: Seq<T>, j: int) requires j == 0 || j == s.len() ensures #[trigger] s.take(j) == (if j == 0 { Seq::empty() } else { s }) { assert(s.take(j) =~= (if j == 0 { Seq::empty() } else { s })); }
pub proof fn l_wr_none<T: DekuWriter<C>, C: Copy>(o: Seq<bool>, s: Seq<T>, j: int, c: C) requires 0 <= j <= s.len(), wr_seq::<T, C>(o, s.take(j), c) is None ensures wr_seq::<T, C>(o, s, c) is None decreases s.len() - j {
    broadcast use b_take_drop, b_take_last, b_take_all;
    if j < s.len() { assert(s.take(j + 1).drop_last() == s.take(j)); l_wr_none::<T, C>(o, s, j + 1, c); }
}
/// an element that cannot be written makes the whole sequence unwritable
pub proof fn l_wr_fail<T: DekuWriter<C>, C: Copy>(o: Seq<bool>, s: Seq<T>, c: C) ensures forall|j: int| #![trigger s.take(j)] 0 <= j < s.len() ==> match wr_seq::<T, C>(o, s.take(j), c) { Some(o1) => s[j].wr(o1, c) is None ==> wr_seq::<T, C>(o, s, c) is None, None => true } {
    assert forall|j: int| #![trigger s.take(j)] 0 <= j < s.len() implies match wr_seq::<T, C>(o, s.take(j), c) { Some(o1) => s[j].wr(o1, c) is None ==> wr_seq::<T, C>(o, s, c) is None, None => true } by {
        broadcast use b_take_drop, b_take_last;
        if let Some(o1) = wr_seq::<T, C>(o, s.take(j), c) { if s[j].wr(o1, c) is None { assert(s.take(j + 1).drop_last() == s.take(j)); assert(s.take(j + 1).last() == s[j]); l_wr_none::<T, C>(o, s, j + 1, c); } }
    }
}
pub broadcast group g_pre { b_take_drop, b_take_last, b_take_all, b_wr_bytes0, b_wr_bytes1, b_dec_bytes0, b_dec_bytes1, ax_arr_len, ax_arr_mk, ax_mu_len }
pub broadcast group g_mu { b_mu_upd, b_mu_0 }

// ------------------------------------------------------------------ further std functions
#[verifier::external_body]
pub fn vpanic() -> ! requires false { unimplemented!() }
#[verifier::external_body]
pub fn vec1<T>(x: T) -> (r: Vec<T>) ensures r == mkvec(seq![x]) { unimplemented!() }
#[verifier::external_body]
pub fn slice_to<'a>(x: &'a [u8], i: usize) -> (r: &'a [u8]) requires i <= x@.len() ensures r@ == x@.subrange(0, i as int) { unimplemented!() }
pub open spec fn pow(b: nat, e: nat) -> nat decreases e { if e == 0 { 1 } else { b * pow(b, (e - 1) as nat) } }
#[verifier::external_body]
pub fn pow_u32(b: u32, e: u32) -> (r: u32) requires pow(b as nat, e as nat) <= 0xffff_ffff ensures r == pow(b as nat, e as nat) { b.pow(e) }
/// position of the highest set bit plus one; 0 for 0
pub open spec fn blen(v: nat) -> nat decreases v { if v == 0 { 0 } else { 1 + blen(v / 2) } }
#[verifier::external_body]
pub fn checked_ilog2_u32(x: u32) -> (r: Option<u32>) ensures r is Some <==> x != 0, r is Some ==> r->0 + 1 == blen(x as nat) { x.checked_ilog2() }
#[verifier::external_body]
pub fn ilog2_u32(x: u32) -> (r: u32) requires x != 0 ensures r + 1 == blen(x as nat) { x.ilog2() }
#[verifier::external_body]
pub fn leading_zeros_u32(x: u32) -> (r: u32) ensures r + blen(x as nat) == 32 { x.leading_zeros() }
#[verifier::external_body]
pub fn div_ceil_u32(x: u32, y: u32) -> (r: u32) requires y > 0 ensures r == (x + y - 1) / (y as int) { (((x as u64) + (y as u64) - 1) / (y as u64)) as u32 }
pub trait IsEmpty { spec fn emp(&self) -> bool; fn is_empty_(&self) -> (r: bool) ensures r == self.emp(); }
impl<T> IsEmpty for Vec<T> { open spec fn emp(&self) -> bool { self@.len() == 0 } fn is_empty_(&self) -> (r: bool) { self.is_empty() } }
impl<'a> IsEmpty for &'a [u8] { open spec fn emp(&self) -> bool { self@.len() == 0 } #[verifier::external_body] fn is_empty_(&self) -> (r: bool) { unimplemented!() } }
impl IsEmpty for Str { open spec fn emp(&self) -> bool { self.b@.len() == 0 } #[verifier::external_body] fn is_empty_(&self) -> (r: bool) { unimplemented!() } }
pub trait SatSub: Sized { spec fn ssub(self, o: Self) -> Self; fn sat_sub(self, o: Self) -> (r: Self) ensures r == self.ssub(o); }
impl SatSub for u32 { open spec fn ssub(self, o: u32) -> u32 { if self >= o { (self - o) as u32 } else { 0 } } fn sat_sub(self, o: u32) -> (r: u32) { if self >= o { self - o } else { 0 } } }
impl SatSub for usize { open spec fn ssub(self, o: usize) -> usize { if self >= o { (self - o) as usize } else { 0 } } fn sat_sub(self, o: usize) -> (r: usize) { if self >= o { self - o } else { 0 } } }
impl SatSub for u8 { open spec fn ssub(self, o: u8) -> u8 { if self >= o { (self - o) as u8 } else { 0 } } fn sat_sub(self, o: u8) -> (r: u8) { if self >= o { self - o } else { 0 } } }
impl TryFrom<u16> for u8 { open spec fn tf_req(v: u16) -> bool { true } open spec fn tf(v: u16) -> Option<u8> { if v <= 255 { Some(v as u8) } else { None } } fn try_from(v: u16) -> (r: Result<u8, DekuError>) { if v <= 255 { Ok(v as u8) } else { Err(DekuError::Parse) } } }
impl TryFrom<u32> for u8 { open spec fn tf_req(v: u32) -> bool { true } open spec fn tf(v: u32) -> Option<u8> { if v <= 255 { Some(v as u8) } else { None } } fn try_from(v: u32) -> (r: Result<u8, DekuError>) { if v <= 255 { Ok(v as u8) } else { Err(DekuError::Parse) } } }
impl TryFrom<u64> for u8 { open spec fn tf_req(v: u64) -> bool { true } open spec fn tf(v: u64) -> Option<u8> { if v <= 255 { Some(v as u8) } else { None } } fn try_from(v: u64) -> (r: Result<u8, DekuError>) { if v <= 255 { Ok(v as u8) } else { Err(DekuError::Parse) } } }
impl TryFrom<u32> for u16 { open spec fn tf_req(v: u32) -> bool { true } open spec fn tf(v: u32) -> Option<u16> { if v <= 65535 { Some(v as u16) } else { None } } fn try_from(v: u32) -> (r: Result<u16, DekuError>) { if v <= 65535 { Ok(v as u16) } else { Err(DekuError::Parse) } } }
impl TryFrom<u64> for u16 { open spec fn tf_req(v: u64) -> bool { true } open spec fn tf(v: u64) -> Option<u16> { if v <= 65535 { Some(v as u16) } else { None } } fn try_from(v: u64) -> (r: Result<u16, DekuError>) { if v <= 65535 { Ok(v as u16) } else { Err(DekuError::Parse) } } }
impl TryFrom<usize> for u16 { open spec fn tf_req(v: usize) -> bool { true } open spec fn tf(v: usize) -> Option<u16> { if v <= 65535 { Some(v as u16) } else { None } } fn try_from(v: usize) -> (r: Result<u16, DekuError>) { if v <= 65535 { Ok(v as u16) } else { Err(DekuError::Parse) } } }
impl TryFrom<u64> for u32 { open spec fn tf_req(v: u64) -> bool { true } open spec fn tf(v: u64) -> Option<u32> { if v <= 0xffff_ffff { Some(v as u32) } else { None } } fn try_from(v: u64) -> (r: Result<u32, DekuError>) { if v <= 0xffff_ffff { Ok(v as u32) } else { Err(DekuError::Parse) } } }
impl TryFrom<usize> for u32 { open spec fn tf_req(v: usize) -> bool { true } open spec fn tf(v: usize) -> Option<u32> { if v <= 0xffff_ffff { Some(v as u32) } else { None } } fn try_from(v: usize) -> (r: Result<u32, DekuError>) { if v <= 0xffff_ffff { Ok(v as u32) } else { Err(DekuError::Parse) } } }
impl TryFrom<u32> for usize { open spec fn tf_req(v: u32) -> bool { true } open spec fn tf(v: u32) -> Option<usize> { Some(v as usize) } fn try_from(v: u32) -> (r: Result<usize, DekuError>) { Ok(v as usize) } }
impl TryFrom<u64> for usize { open spec fn tf_req(v: u64) -> bool { true } open spec fn tf(v: u64) -> Option<usize> { Some(v as usize) } fn try_from(v: u64) -> (r: Result<usize, DekuError>) { Ok(v as usize) } }
impl TryFrom<usize> for u64 { open spec fn tf_req(v: usize) -> bool { true } open spec fn tf(v: usize) -> Option<u64> { Some(v as u64) } fn try_from(v: usize) -> (r: Result<u64, DekuError>) { Ok(v as u64) } }
impl TryFrom<usize> for u8 { open spec fn tf_req(v: usize) -> bool { true } open spec fn tf(v: usize) -> Option<u8> { if v < 256 { Some(v as u8) } else { None } } fn try_from(v: usize) -> (r: Result<u8, DekuError>) { if v < 256 { Ok(v as u8) } else { Err(DekuError::Parse) } } }
impl<T> TryFrom<T> for T { open spec fn tf_req(v: T) -> bool { true } open spec fn tf(v: T) -> Option<T> { Some(v) } fn try_from(v: T) -> (r: Result<T, DekuError>) { Ok(v) } }
impl<T> From<T> for T { open spec fn fr_req(v: T) -> bool { true } open spec fn fr(v: T) -> T { v } fn from(v: T) -> (r: T) { v } }
pub fn opt_or<T>(a: Option<T>, b: Option<T>) -> (r: Option<T>) ensures r == (if a is Some { a } else { b }) { match a { Some(x) => Some(x), None => b } }
pub proof fn l_bits() ensures
    forall|m: u32, s: u32| m <= 1024 && s == 0 ==> #[trigger] (m << s) == m * 1u32,
    forall|m: u32, s: u32| s == 0 ==> #[trigger] (m >> s) == m / 1u32,
    forall|m: u32, s: u32| m <= 1024 && s == 2 ==> #[trigger] (m << s) == m * 4u32,
    forall|m: u32, s: u32| s == 2 ==> #[trigger] (m >> s) == m / 4u32,
    forall|m: u32, s: u32| m <= 1024 && s == 4 ==> #[trigger] (m << s) == m * 16u32,
    forall|m: u32, s: u32| s == 4 ==> #[trigger] (m >> s) == m / 16u32,
    forall|m: u32, s: u32| m <= 1024 && s == 6 ==> #[trigger] (m << s) == m * 64u32,
    forall|m: u32, s: u32| s == 6 ==> #[trigger] (m >> s) == m / 64u32,
    forall|m: u32, s: u32| m <= 1024 && s == 8 ==> #[trigger] (m << s) == m * 256u32,
    forall|m: u32, s: u32| s == 8 ==> #[trigger] (m >> s) == m / 256u32,
    forall|m: u32, s: u32| m <= 1024 && s == 10 ==> #[trigger] (m << s) == m * 1024u32,
    forall|m: u32, s: u32| s == 10 ==> #[trigger] (m >> s) == m / 1024u32,
    forall|m: u32, s: u32| m <= 1024 && s == 12 ==> #[trigger] (m << s) == m * 4096u32,
    forall|m: u32, s: u32| s == 12 ==> #[trigger] (m >> s) == m / 4096u32,
    forall|m: u32, s: u32| m <= 1024 && s == 14 ==> #[trigger] (m << s) == m * 16384u32,
    forall|m: u32, s: u32| s == 14 ==> #[trigger] (m >> s) == m / 16384u32,
    forall|m: usize| #[trigger] (m & 7) == m % 8,
    forall|m: usize, s: usize| s == 3 ==> #[trigger] (m >> s) == m / 8,
    forall|m: usize, s: usize| s == 3 && m <= 0x1000_0000_0000_0000 ==> #[trigger] (m << s) == m * 8,
    forall|m: u32| #[trigger] (m & 7) == m % 8,
    forall|m: u32, s: u32| s == 3 ==> #[trigger] (m >> s) == m / 8,
    forall|m: u32, s: u32| s == 3 && m <= 0x1000_0000 ==> #[trigger] (m << s) == m * 8,
    forall|m: u8| #[trigger] (m & 0xf8u8) == 0 <==> m < 8,
    forall|m: u8| #[trigger] (m & 0xe0u8) == 0 <==> m < 32,
    forall|m: u8, s: u8| s == 3 ==> #[trigger] (m >> s) == m / 8,
    forall|m: u8, s: u8| s == 5 ==> #[trigger] (m >> s) == m / 32,
{
    assert(forall|m: u32, s: u32| m <= 1024 && s == 0 ==> #[trigger] (m << s) == m * 1u32) by(bit_vector);
    assert(forall|m: u32, s: u32| s == 0 ==> #[trigger] (m >> s) == m / 1u32) by(bit_vector);
    assert(forall|m: u32, s: u32| m <= 1024 && s == 2 ==> #[trigger] (m << s) == m * 4u32) by(bit_vector);
    assert(forall|m: u32, s: u32| s == 2 ==> #[trigger] (m >> s) == m / 4u32) by(bit_vector);
    assert(forall|m: u32, s: u32| m <= 1024 && s == 4 ==> #[trigger] (m << s) == m * 16u32) by(bit_vector);
    assert(forall|m: u32, s: u32| s == 4 ==> #[trigger] (m >> s) == m / 16u32) by(bit_vector);
    assert(forall|m: u32, s: u32| m <= 1024 && s == 6 ==> #[trigger] (m << s) == m * 64u32) by(bit_vector);
    assert(forall|m: u32, s: u32| s == 6 ==> #[trigger] (m >> s) == m / 64u32) by(bit_vector);
    assert(forall|m: u32, s: u32| m <= 1024 && s == 8 ==> #[trigger] (m << s) == m * 256u32) by(bit_vector);
    assert(forall|m: u32, s: u32| s == 8 ==> #[trigger] (m >> s) == m / 256u32) by(bit_vector);
    assert(forall|m: u32, s: u32| m <= 1024 && s == 10 ==> #[trigger] (m << s) == m * 1024u32) by(bit_vector);
    assert(forall|m: u32, s: u32| s == 10 ==> #[trigger] (m >> s) == m / 1024u32) by(bit_vector);
    assert(forall|m: u32, s: u32| m <= 1024 && s == 12 ==> #[trigger] (m << s) == m * 4096u32) by(bit_vector);
    assert(forall|m: u32, s: u32| s == 12 ==> #[trigger] (m >> s) == m / 4096u32) by(bit_vector);
    assert(forall|m: u32, s: u32| m <= 1024 && s == 14 ==> #[trigger] (m << s) == m * 16384u32) by(bit_vector);
    assert(forall|m: u32, s: u32| s == 14 ==> #[trigger] (m >> s) == m / 16384u32) by(bit_vector);
    assert(forall|m: usize| #[trigger] (m & 7) == m % 8) by(bit_vector);
    assert(forall|m: usize, s: usize| s == 3 ==> #[trigger] (m >> s) == m / 8) by(bit_vector);
    assert(forall|m: usize, s: usize| s == 3 && m <= 0x1000_0000_0000_0000 ==> #[trigger] (m << s) == m * 8) by(bit_vector);
    assert(forall|m: u32| #[trigger] (m & 7) == m % 8) by(bit_vector);
    assert(forall|m: u32, s: u32| s == 3 ==> #[trigger] (m >> s) == m / 8) by(bit_vector);
    assert(forall|m: u32, s: u32| s == 3 && m <= 0x1000_0000 ==> #[trigger] (m << s) == m * 8) by(bit_vector);
    assert(forall|m: u8| #[trigger] (m & 0xf8u8) == 0 <==> m < 8) by(bit_vector);
    assert(forall|m: u8| #[trigger] (m & 0xe0u8) == 0 <==> m < 32) by(bit_vector);
    assert(forall|m: u8, s: u8| s == 3 ==> #[trigger] (m >> s) == m / 8) by(bit_vector);
    assert(forall|m: u8, s: u8| s == 5 ==> #[trigger] (m >> s) == m / 32) by(bit_vector);
}
#[verifier::external_body]
pub fn max_u32(a: u32, b: u32) -> (r: u32) ensures r == if a >= b { a } else { b } { unimplemented!() }
} // mod pre
