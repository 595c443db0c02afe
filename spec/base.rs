// ---- uniform vocabulary for leaf codecs: d_X decode, w_X encode, ok_X, mn_X (encoder facts),
// ---- rt_X (round trip), ap_X (encoder only appends), dl_X (decoder facts)
pub proof fn l_pt(a: Seq<bool>, b: Seq<bool>, c: Seq<bool>) ensures prefix(a, b) && prefix(b, c) ==> prefix(a, c) {
    if prefix(a, b) && prefix(b, c) { l_prefix_trans(a, b, c); }
}
pub open spec fn pos(s: Seq<bool>, p: int) -> bool { 0 <= p <= s.len() }

pub open spec fn ok_bool(v: bool) -> bool { true }
pub proof fn mn_bool(o: Seq<bool>, v: bool) ensures w_bool(o, v) is Some, prefix(o, w_bool(o, v)->0), (w_bool(o, v)->0).len() == o.len() + 1 { l_mn_bool(o, v); }
pub proof fn rt_bool(o: Seq<bool>, v: bool, s: Seq<bool>) requires prefix(w_bool(o, v)->0, s) ensures d_bool(s, o.len() as int) == Some((v, (w_bool(o, v)->0).len() as int)) { l_rt_bool(o, v, s); }
pub proof fn ap_bool(z: Seq<bool>, o: Seq<bool>, v: bool) ensures w_bool(z + o, v) == Some(z + w_bool(o, v)->0) { l_ap_bool(z, o, v); }
pub proof fn dl_bool(s: Seq<bool>, p: int) ensures d_bool(s, p) is Some ==> (d_bool(s, p)->0).1 == p + 1 && p + 1 <= s.len() { }

pub proof fn mn_pad(o: Seq<bool>, n: nat) ensures w_pad(o, n) is Some, prefix(o, w_pad(o, n)->0), (w_pad(o, n)->0).len() == o.len() + n { l_mn_pad(o, n); }
pub proof fn rt_pad(o: Seq<bool>, n: nat, s: Seq<bool>) requires prefix(w_pad(o, n)->0, s) ensures d_pad(s, o.len() as int, n) == Some(((), (w_pad(o, n)->0).len() as int)) { l_rt_pad(o, n, s); }
pub proof fn ap_pad(z: Seq<bool>, o: Seq<bool>, n: nat) ensures w_pad(z + o, n) == Some(z + w_pad(o, n)->0) { l_ap_pad(z, o, n); }
pub proof fn dl_pad(s: Seq<bool>, p: int, n: nat) ensures d_pad(s, p, n) is Some ==> (d_pad(s, p, n)->0).1 == p + n && p + n <= s.len() { }

//@FOR T in u8:8 u16:16 u32:32 u64:64
pub open spec fn w_@T(o: Seq<bool>, v: @T, n: nat) -> Option<Seq<bool>> { wn(o, v as nat, n) }
pub open spec fn ok_@T(v: @T, n: nat) -> bool { v < p2(n) && n <= @B }
pub proof fn mn_@T(o: Seq<bool>, v: @T, n: nat) ensures ok_@T(v, n) ==> w_@T(o, v, n) is Some, w_@T(o, v, n) is Some ==> prefix(o, w_@T(o, v, n)->0) && (w_@T(o, v, n)->0).len() == o.len() + n {
    if w_@T(o, v, n) is Some { l_mn_wn(o, v as nat, n); }
}
pub proof fn rt_@T(o: Seq<bool>, v: @T, n: nat, s: Seq<bool>) requires ok_@T(v, n), prefix(w_@T(o, v, n)->0, s) ensures d_@T(s, o.len() as int, n) == Some((v, (w_@T(o, v, n)->0).len() as int)) { l_rt_wn(o, v as nat, n, s); }
pub proof fn ap_@T(z: Seq<bool>, o: Seq<bool>, v: @T, n: nat) ensures w_@T(o, v, n) is Some <==> w_@T(z + o, v, n) is Some, w_@T(o, v, n) is Some ==> w_@T(z + o, v, n) == Some(z + w_@T(o, v, n)->0) { l_ap_wn(z, o, v as nat, n); }
pub proof fn dl_@T(s: Seq<bool>, p: int, n: nat) ensures d_@T(s, p, n) is Some && n <= @B ==> (d_@T(s, p, n)->0).1 == p + n && p + n <= s.len() && ok_@T((d_@T(s, p, n)->0).0, n) {
    l_val_bound(s, p, n); l_p2(); if n <= @B { l_p2_add(n, (@B - n) as nat); l_p2_pos((@B - n) as nat); assert(p2(n) <= p2(@B)) by(nonlinear_arith) requires p2(@B) == p2(n) * p2((@B - n) as nat), p2((@B - n) as nat) >= 1; }
}
//@END
pub proof fn l_p2_pos(n: nat) ensures p2(n) >= 1 decreases n { if n > 0 { l_p2_pos((n - 1) as nat); } }

//@FOR T in u16:2 u32:4 u128:16
pub open spec fn w_@Tle(o: Seq<bool>, v: @T) -> Option<Seq<bool>> { Some(wle(o, v as nat, @B)) }
pub open spec fn ok_@Tle(v: @T) -> bool { true }
pub proof fn mn_@Tle(o: Seq<bool>, v: @T) ensures prefix(o, w_@Tle(o, v)->0), (w_@Tle(o, v)->0).len() == o.len() + 8 * @B { l_wle_mn(o, v as nat, @B); }
pub proof fn rt_@Tle(o: Seq<bool>, v: @T, s: Seq<bool>) requires prefix(w_@Tle(o, v)->0, s) ensures d_@Tle(s, o.len() as int) == Some((v, (w_@Tle(o, v)->0).len() as int)) { l_p256(); l_rt_wle(o, v as nat, @B, s); }
pub proof fn ap_@Tle(z: Seq<bool>, o: Seq<bool>, v: @T) ensures w_@Tle(z + o, v) == Some(z + w_@Tle(o, v)->0) { l_wle_ap(z, o, v as nat, @B); }
pub proof fn dl_@Tle(s: Seq<bool>, p: int) ensures d_@Tle(s, p) is Some ==> (d_@Tle(s, p)->0).1 == p + 8 * @B && p + 8 * @B <= s.len() { }
//@END

pub open spec fn ok_i8(v: i8) -> bool { true }
pub proof fn mn_i8(o: Seq<bool>, v: i8) ensures w_i8(o, v) is Some, prefix(o, w_i8(o, v)->0), (w_i8(o, v)->0).len() == o.len() + 8 { l_p2(); l_mn_wn(o, of_i8(v), 8); }
pub proof fn rt_i8(o: Seq<bool>, v: i8, s: Seq<bool>) requires prefix(w_i8(o, v)->0, s) ensures d_i8(s, o.len() as int) == Some((v, (w_i8(o, v)->0).len() as int)) { l_p2(); l_rt_wn(o, of_i8(v), 8, s); }
pub proof fn ap_i8(z: Seq<bool>, o: Seq<bool>, v: i8) ensures w_i8(o, v) is Some, w_i8(z + o, v) == Some(z + w_i8(o, v)->0) { l_p2(); l_ap_wn(z, o, of_i8(v), 8); }
pub proof fn dl_i8(s: Seq<bool>, p: int) ensures d_i8(s, p) is Some ==> (d_i8(s, p)->0).1 == p + 8 && p + 8 <= s.len() { }

pub open spec fn d_vec(s: Seq<bool>, p: int, n: nat) -> Option<(Vec<u8>, int)> { match d_bytes(s, p, n) { None => None, Some((b, q)) => Some((mkvec(b), q)) } }
pub open spec fn w_vec(o: Seq<bool>, v: Vec<u8>) -> Option<Seq<bool>> { w_bytes(o, v@) }
pub open spec fn ok_vec(v: Vec<u8>, n: nat) -> bool { v@.len() == n }
pub proof fn mn_vec(o: Seq<bool>, v: Vec<u8>) ensures w_vec(o, v) is Some, prefix(o, w_vec(o, v)->0), (w_vec(o, v)->0).len() == o.len() + 8 * v@.len() { l_mn_bytes(o, v@); }
pub proof fn rt_vec(o: Seq<bool>, v: Vec<u8>, n: nat, s: Seq<bool>) requires v@.len() == n, prefix(w_vec(o, v)->0, s) ensures d_vec(s, o.len() as int, n) == Some((v, (w_vec(o, v)->0).len() as int)) { l_rt_bytes(o, v@, s); }
pub proof fn ap_vec(z: Seq<bool>, o: Seq<bool>, v: Vec<u8>) ensures w_vec(z + o, v) == Some(z + w_vec(o, v)->0) { l_ap_bytes(z, o, v@); }
pub proof fn dl_vec(s: Seq<bool>, p: int, n: nat) ensures d_vec(s, p, n) is Some ==> (d_vec(s, p, n)->0).1 == p + 8 * n && p + 8 * n <= s.len() && ok_vec((d_vec(s, p, n)->0).0, n) { }
// a byte vector read only when a flag is set
pub open spec fn d_cvec(s: Seq<bool>, p: int, c: bool, n: nat) -> Option<(Vec<u8>, int)> { if c { d_vec(s, p, n) } else { Some((mkvec(Seq::empty()), p)) } }
pub open spec fn ok_cvec(v: Vec<u8>, c: bool, n: nat) -> bool { v@.len() == if c { n } else { 0 } }
pub proof fn rt_cvec(o: Seq<bool>, v: Vec<u8>, c: bool, n: nat, s: Seq<bool>) requires ok_cvec(v, c, n), prefix(w_vec(o, v)->0, s) ensures d_cvec(s, o.len() as int, c, n) == Some((v, (w_vec(o, v)->0).len() as int)) {
    l_rt_bytes(o, v@, s);
    if !c { assert(v@ =~= Seq::empty()); assert(o + bob(v@) =~= o); }
}
pub proof fn dl_cvec(s: Seq<bool>, p: int, c: bool, n: nat) ensures pos(s, p) && d_cvec(s, p, c, n) is Some ==> pos(s, (d_cvec(s, p, c, n)->0).1) && (d_cvec(s, p, c, n)->0).1 >= p && ((d_cvec(s, p, c, n)->0).1 - p) % 8 == 0 && ok_cvec((d_cvec(s, p, c, n)->0).0, c, n) { }

pub open spec fn d_arr<const N: usize>(s: Seq<bool>, p: int) -> Option<(Arr<u8, N>, int)> { match d_bytes(s, p, N as nat) { None => None, Some((b, q)) => Some((mkarr(b), q)) } }
pub open spec fn w_arr<const N: usize>(o: Seq<bool>, v: Arr<u8, N>) -> Option<Seq<bool>> { w_bytes(o, v@) }
pub open spec fn ok_arr<const N: usize>(v: Arr<u8, N>) -> bool { true }
pub proof fn mn_arr<const N: usize>(o: Seq<bool>, v: Arr<u8, N>) ensures w_arr(o, v) is Some, prefix(o, w_arr(o, v)->0), (w_arr(o, v)->0).len() == o.len() + 8 * N { broadcast use ax_arr_len; l_mn_bytes(o, v@); }
pub proof fn rt_arr<const N: usize>(o: Seq<bool>, v: Arr<u8, N>, s: Seq<bool>) requires prefix(w_arr(o, v)->0, s) ensures d_arr::<N>(s, o.len() as int) == Some((v, (w_arr(o, v)->0).len() as int)) { broadcast use ax_arr_len; l_rt_bytes(o, v@, s); }
pub proof fn ap_arr<const N: usize>(z: Seq<bool>, o: Seq<bool>, v: Arr<u8, N>) ensures w_arr(z + o, v) == Some(z + w_arr(o, v)->0) { l_ap_bytes(z, o, v@); }
pub proof fn dl_arr<const N: usize>(s: Seq<bool>, p: int) ensures d_arr::<N>(s, p) is Some ==> (d_arr::<N>(s, p)->0).1 == p + 8 * N && p + 8 * N <= s.len() { }

// fixed-width strings: N bytes on the wire, longer text cut, shorter text zero-filled
pub open spec fn strb(b: Seq<u8>, n: nat) -> Seq<u8> { Seq::new(n, |i: int| if i < b.len() { b[i] } else { 0u8 }) }
pub open spec fn d_str(s: Seq<bool>, p: int, n: nat) -> Option<(Str, int)> { match d_bytes(s, p, n) { None => None, Some((b, q)) => if utf8(b) { Some((Str { b: Ghost(b) }, q)) } else { None } } }
pub open spec fn w_str(o: Seq<bool>, v: Str, n: nat) -> Option<Seq<bool>> { w_bytes(o, strb(v.b@, n)) }
pub open spec fn ok_str(v: Str, n: nat) -> bool { v.b@.len() == n && utf8(v.b@) }
pub proof fn mn_str(o: Seq<bool>, v: Str, n: nat) ensures w_str(o, v, n) is Some, prefix(o, w_str(o, v, n)->0), (w_str(o, v, n)->0).len() == o.len() + 8 * n { l_mn_bytes(o, strb(v.b@, n)); }
pub proof fn rt_str(o: Seq<bool>, v: Str, n: nat, s: Seq<bool>) requires ok_str(v, n), prefix(w_str(o, v, n)->0, s) ensures d_str(s, o.len() as int, n) == Some((v, (w_str(o, v, n)->0).len() as int)) { assert(strb(v.b@, n) =~= v.b@); l_rt_bytes(o, strb(v.b@, n), s); }
pub proof fn ap_str(z: Seq<bool>, o: Seq<bool>, v: Str, n: nat) ensures w_str(z + o, v, n) == Some(z + w_str(o, v, n)->0) { l_ap_bytes(z, o, strb(v.b@, n)); }
pub proof fn dl_str(s: Seq<bool>, p: int, n: nat) ensures d_str(s, p, n) is Some ==> (d_str(s, p, n)->0).1 == p + 8 * n && p + 8 * n <= s.len() && ok_str((d_str(s, p, n)->0).0, n) { }

// ---- Length operand
pub open spec fn lenk(v: nat) -> nat { if v < 64 { 0 } else if v < 0x4000 { 1 } else if v < 0x40_0000 { 2 } else { 3 } }
#[verifier::opaque]
pub open spec fn d_Length(s: Seq<bool>, p: int) -> Option<(crate::app::operation::length::Length, int)> {
    match rd(s, p, 2) { None => None, Some((k, q)) => match rd(s, q, 6 + 8 * k) { None => None, Some((x, r)) => Some((crate::app::operation::length::Length(x as u32), r)) } }
}
#[verifier::opaque]
pub open spec fn w_Length(o: Seq<bool>, v: crate::app::operation::length::Length) -> Option<Seq<bool>> {
    match wn(o, lenk(v.0 as nat), 2) { None => None, Some(o1) => wn(o1, v.0 as nat, 6 + 8 * lenk(v.0 as nat)) }
}
pub open spec fn ok_Length(v: crate::app::operation::length::Length) -> bool { v.0 < 0x4000_0000 }
pub proof fn mn_Length(o: Seq<bool>, v: crate::app::operation::length::Length)
    ensures ok_Length(v) <==> w_Length(o, v) is Some, w_Length(o, v) is Some ==> prefix(o, w_Length(o, v)->0) && (w_Length(o, v)->0).len() == o.len() + 8 + 8 * lenk(v.0 as nat)
{
    reveal(w_Length); l_p2(); let k = lenk(v.0 as nat); assert(6 + 8 * k == 6 || 6 + 8 * k == 14 || 6 + 8 * k == 22 || 6 + 8 * k == 30);
    if w_Length(o, v) is Some { let o1 = wn(o, k, 2)->0; l_mn_wn(o, k, 2); l_mn_wn(o1, v.0 as nat, 6 + 8 * k); l_pt(o, o1, w_Length(o, v)->0); }
}
pub proof fn rt_Length(o: Seq<bool>, v: crate::app::operation::length::Length, s: Seq<bool>) requires ok_Length(v), prefix(w_Length(o, v)->0, s)
    ensures d_Length(s, o.len() as int) == Some((v, (w_Length(o, v)->0).len() as int))
{
    mn_Length(o, v); reveal(w_Length); reveal(d_Length); l_p2(); let k = lenk(v.0 as nat); let o1 = wn(o, k, 2)->0;
    l_mn_wn(o, k, 2); l_mn_wn(o1, v.0 as nat, 6 + 8 * k); l_pt(o1, w_Length(o, v)->0, s);
    l_rt_wn(o, k, 2, s); l_rt_wn(o1, v.0 as nat, 6 + 8 * k, s);
}
pub proof fn ap_Length(z: Seq<bool>, o: Seq<bool>, v: crate::app::operation::length::Length)
    ensures w_Length(o, v) is Some <==> w_Length(z + o, v) is Some, w_Length(o, v) is Some ==> w_Length(z + o, v) == Some(z + w_Length(o, v)->0)
{ reveal(w_Length); let k = lenk(v.0 as nat); l_ap_wn(z, o, k, 2); let o1 = wn(o, k, 2)->0; l_ap_wn(z, o1, v.0 as nat, 6 + 8 * k); l_p2(); }
pub proof fn dl_Length(s: Seq<bool>, p: int) ensures pos(s, p) && d_Length(s, p) is Some ==> ({ let q = (d_Length(s, p)->0).1; pos(s, q) && q >= p + 8 && (q - p) % 8 == 0 && ok_Length((d_Length(s, p)->0).0) }) {
    reveal(d_Length); l_p2(); l_val_bound(s, p, 2); let k = val(s, p, 2); l_val_bound(s, p + 2, 6 + 8 * k);
    assert(6 + 8 * k == 6 || 6 + 8 * k == 14 || 6 + 8 * k == 22 || 6 + 8 * k == 30);
}
pub proof fn l_blen(v: nat, n: nat) ensures blen(v) <= n <==> v < p2(n) decreases n {
    if n > 0 { if v > 0 { l_blen(v / 2, (n - 1) as nat); } else { l_p2_pos(n); } }
}

// ---- compressed integer
pub open spec fn vie(v: nat) -> nat {
    if v <= 31 { 0 } else if v <= 31 * 4 { 1 } else if v <= 31 * 16 { 2 } else if v <= 31 * 64 { 3 } else if v <= 31 * 256 { 4 } else if v <= 31 * 1024 { 5 } else if v <= 31 * 4096 { 6 } else { 7 }
}
pub open spec fn q4(e: nat) -> nat { if e == 0 { 1 } else if e == 1 { 4 } else if e == 2 { 16 } else if e == 3 { 64 } else if e == 4 { 256 } else if e == 5 { 1024 } else if e == 6 { 4096 } else { 16384 } }
pub open spec fn vim(v: nat, ceil: bool) -> nat { v / q4(vie(v)) + if ceil && v % q4(vie(v)) > 0 { 1nat } else { 0 } }
pub open spec fn vi_valid(v: nat) -> bool { v <= 507904 }
pub open spec fn mkvi(v: u32, c: bool) -> crate::types::VarInt { crate::types::VarInt { value: v, ceil: c } }
#[verifier::opaque]
pub open spec fn d_VarInt(s: Seq<bool>, p: int) -> Option<(crate::types::VarInt, int)> {
    match rd(s, p, 3) { None => None, Some((e, q)) => match rd(s, q, 5) { None => None, Some((m, r)) => Some((mkvi((q4(e) * m) as u32, false), r)) } }
}
#[verifier::opaque]
pub open spec fn w_VarInt(o: Seq<bool>, v: crate::types::VarInt) -> Option<Seq<bool>> {
    if vi_valid(v.value as nat) { match wn(o, vie(v.value as nat), 3) { None => None, Some(o1) => wn(o1, vim(v.value as nat, v.ceil), 5) } } else { None }
}
pub open spec fn ok_VarInt(v: crate::types::VarInt) -> bool { !v.ceil && vi_valid(v.value as nat) && v.value as nat % q4(vie(v.value as nat)) == 0 }
pub proof fn l_q4() ensures forall|e: nat| #![auto] e < 8 ==> q4(e) == pow(4, e) {
    assert forall|e: nat| #![auto] e < 8 implies q4(e) == pow(4, e) by { reveal_with_fuel(pow, 9); }
}
pub proof fn l_vim(v: nat, c: bool) requires vi_valid(v) ensures vie(v) < 8, vim(v, c) < 32, v <= 31 * q4(vie(v)), q4(vie(v)) > 0, forall|e: nat| #![auto] e < vie(v) ==> v > 31 * q4(e) {
    let e = vie(v); let k = q4(e);
    assert(v / k <= 31) by(nonlinear_arith) requires v <= 31 * k, k > 0;
    assert(v / k == 31 ==> v % k == 0) by(nonlinear_arith) requires v <= 31 * k, k > 0, v >= 0;
}
pub proof fn mn_VarInt(o: Seq<bool>, v: crate::types::VarInt)
    ensures vi_valid(v.value as nat) <==> w_VarInt(o, v) is Some, w_VarInt(o, v) is Some ==> prefix(o, w_VarInt(o, v)->0) && (w_VarInt(o, v)->0).len() == o.len() + 8
{
    reveal(w_VarInt); l_p2();
    if vi_valid(v.value as nat) {
        l_vim(v.value as nat, v.ceil); let o1 = wn(o, vie(v.value as nat), 3)->0; l_mn_wn(o, vie(v.value as nat), 3); l_mn_wn(o1, vim(v.value as nat, v.ceil), 5); l_pt(o, o1, w_VarInt(o, v)->0);
    }
}
pub proof fn rt_VarInt(o: Seq<bool>, v: crate::types::VarInt, s: Seq<bool>) requires ok_VarInt(v), prefix(w_VarInt(o, v)->0, s)
    ensures d_VarInt(s, o.len() as int) == Some((v, (w_VarInt(o, v)->0).len() as int))
{
    mn_VarInt(o, v); reveal(w_VarInt); reveal(d_VarInt); l_p2(); let x = v.value as nat; l_vim(x, v.ceil);
    let o1 = wn(o, vie(x), 3)->0; l_mn_wn(o, vie(x), 3); l_mn_wn(o1, vim(x, v.ceil), 5); l_pt(o1, w_VarInt(o, v)->0, s);
    l_rt_wn(o, vie(x), 3, s); l_rt_wn(o1, vim(x, v.ceil), 5, s);
    let k = q4(vie(x)); assert(k * (x / k) == x) by(nonlinear_arith) requires x % k == 0, k > 0;
}
pub proof fn ap_VarInt(z: Seq<bool>, o: Seq<bool>, v: crate::types::VarInt)
    ensures w_VarInt(o, v) is Some <==> w_VarInt(z + o, v) is Some, w_VarInt(o, v) is Some ==> w_VarInt(z + o, v) == Some(z + w_VarInt(o, v)->0)
{ reveal(w_VarInt); let x = v.value as nat; l_ap_wn(z, o, vie(x), 3); l_ap_wn(z, wn(o, vie(x), 3)->0, vim(x, v.ceil), 5); l_p2(); if vi_valid(x) { l_vim(x, v.ceil); } }
pub proof fn l_q4m(f: nat, g: nat) requires f + g < 8 ensures q4((f + g) as nat) == q4(f) * q4(g) {
    assert(g == 0 || g == 1 || g == 2 || g == 3 || g == 4 || g == 5 || g == 6 || g == 7);
    if f == 0 { let k = q4(f) as int; let h = q4(g) as int; assert(k == 1); assert(q4((f + g) as nat) == 1 * q4(g)); assert(k * h == 1 * h) by(nonlinear_arith) requires k == 1; }
    else if f == 1 { let k = q4(f) as int; let h = q4(g) as int; assert(k == 4); assert(q4((f + g) as nat) == 4 * q4(g)); assert(k * h == 4 * h) by(nonlinear_arith) requires k == 4; }
    else if f == 2 { let k = q4(f) as int; let h = q4(g) as int; assert(k == 16); assert(q4((f + g) as nat) == 16 * q4(g)); assert(k * h == 16 * h) by(nonlinear_arith) requires k == 16; }
    else if f == 3 { let k = q4(f) as int; let h = q4(g) as int; assert(k == 64); assert(q4((f + g) as nat) == 64 * q4(g)); assert(k * h == 64 * h) by(nonlinear_arith) requires k == 64; }
    else if f == 4 { let k = q4(f) as int; let h = q4(g) as int; assert(k == 256); assert(q4((f + g) as nat) == 256 * q4(g)); assert(k * h == 256 * h) by(nonlinear_arith) requires k == 256; }
    else if f == 5 { let k = q4(f) as int; let h = q4(g) as int; assert(k == 1024); assert(q4((f + g) as nat) == 1024 * q4(g)); assert(k * h == 1024 * h) by(nonlinear_arith) requires k == 1024; }
    else if f == 6 { let k = q4(f) as int; let h = q4(g) as int; assert(k == 4096); assert(q4((f + g) as nat) == 4096 * q4(g)); assert(k * h == 4096 * h) by(nonlinear_arith) requires k == 4096; }
    else if f == 7 { let k = q4(f) as int; let h = q4(g) as int; assert(k == 16384); assert(q4((f + g) as nat) == 16384 * q4(g)); assert(k * h == 16384 * h) by(nonlinear_arith) requires k == 16384; }
}
pub proof fn l_vi_exact(e: nat, m: nat) requires e < 8, m < 32 ensures vi_valid(q4(e) * m), (q4(e) * m) % q4(vie(q4(e) * m)) == 0 {
    let x = q4(e) * m;
    assert(x <= 31 * q4(e)) by(nonlinear_arith) requires x == q4(e) * m, m <= 31;
    assert(e == 0 || e == 1 || e == 2 || e == 3 || e == 4 || e == 5 || e == 6 || e == 7);
    let f = vie(x); assert(f <= e);
    let g = (e - f) as nat;
    l_q4m(f, g);
    assert(x == (q4(g) * m) * q4(f)) by(nonlinear_arith) requires x == q4(e) * m, q4(e) == q4(f) * q4(g);
    vstd::arithmetic::div_mod::lemma_mod_multiples_basic((q4(g) * m) as int, q4(f) as int);
}
pub proof fn dl_VarInt(s: Seq<bool>, p: int) ensures pos(s, p) && d_VarInt(s, p) is Some ==> (d_VarInt(s, p)->0).1 == p + 8 && p + 8 <= s.len() && ok_VarInt((d_VarInt(s, p)->0).0) {
    reveal(d_VarInt); l_p2(); l_val_bound(s, p, 3); l_val_bound(s, p + 3, 5); l_vi_exact(val(s, p, 3), val(s, p + 3, 5));
}

pub proof fn l_vi_mask(e: u8, m: u8) ensures (e & 0b11111000u8) > 0 <==> e >= 8, (m & 0b11100000u8) > 0 <==> m >= 32 {
    assert((e & 0b11111000u8) > 0 <==> e >= 8) by(bit_vector); assert((m & 0b11100000u8) > 0 <==> m >= 32) by(bit_vector);
}
/// reading one byte back from a one-byte buffer
pub proof fn l_byte(x: u8) ensures bob(seq![x]).len() == 8, d_u8(bob(seq![x]), 0, 8) == Some((x, 8int)) {
    l_p2(); let s = bob(seq![x]); let e = Seq::<bool>::empty(); l_mn_bytes(e, seq![x]); assert(e + s =~= s); l_prefix_refl(s); l_rt_bytes(e, seq![x], s);
}
// ---- glue: conversions the standard library derives from the crate's own
impl ToCount for crate::app::operation::length::Length {
    open spec fn cnt(self) -> Option<nat> { Some(<crate::app::operation::length::Length as Into<usize>>::in_spec(self) as nat) }
    fn to_count(self) -> (r: Result<usize, DekuError>) { Ok(<crate::app::operation::length::Length as Into<usize>>::into(self)) }
}
impl TryFrom<usize> for crate::app::operation::length::Length {
    open spec fn tf_req(v: usize) -> bool { true }
    open spec fn tf(v: usize) -> Option<Self> { Some(<Self as From<usize>>::fr(v)) }
    fn try_from(v: usize) -> (r: Result<Self, DekuError>) { Ok(<Self as From<usize>>::from(v)) }
}
// ---- length-prefixed content
/// a count as a length: one that does not fit is pinned to the largest number, which no encoding accepts
pub open spec fn clen(n: nat) -> u32 { if n <= 0xffff_ffff { n as u32 } else { 0xffff_ffffu32 } }
pub open spec fn w_lp(o: Seq<bool>, c: Option<Seq<bool>>) -> Option<Seq<bool>> {
    match c { None => None, Some(x) => match w_Length(o, crate::app::operation::length::Length(clen(boz(x).len()))) { None => None, Some(o1) => w_bytes(o1, boz(x)) } }
}
