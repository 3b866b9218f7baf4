@raw
// ---------------------------------------------------------------- the UTF-C format
// (ranges, alphabets and initial state come from the repository's own tables: sg_*)

pub open spec fn er(cp: int, rs: Seq<Seq<int>>) -> int
  decreases rs.len()
{
  if rs.len() == 0 { -1 }
  else if rs[0][0] <= cp < rs[0][1] { cp - rs[0][0] }
  else { let k = er(cp, rs.drop_first()); if k < 0 { -1 } else { k + rs[0][1] - rs[0][0] } }
}
pub open spec fn dr(v: int, rs: Seq<Seq<int>>) -> int
  decreases rs.len()
{
  if rs.len() == 0 { -1 }
  else if v < rs[0][1] - rs[0][0] { rs[0][0] + v }
  else { dr(v - (rs[0][1] - rs[0][0]), rs.drop_first()) }
}
pub open spec fn ranges_ok(rs: Seq<Seq<int>>) -> bool {
  &&& rs.len() <= 64
  &&& forall|i: int| 0 <= i < rs.len() ==> (#[trigger] rs[i]).len() == 2 && 0 <= rs[i][0] <= rs[i][1] < 0x200000
}
pub proof fn er_nonneg(cp: int, rs: Seq<Seq<int>>)
  requires ranges_ok(rs)
  ensures er(cp, rs) >= -1
  decreases rs.len()
{ if rs.len() > 0 && !(rs[0][0] <= cp < rs[0][1]) { assert forall|i: int| 0 <= i < rs.drop_first().len() implies (#[trigger] rs.drop_first()[i]).len() == 2 && 0 <= rs.drop_first()[i][0] <= rs.drop_first()[i][1] < 0x200000 by { assert(rs.drop_first()[i] == rs[i + 1]); } er_nonneg(cp, rs.drop_first()); } }

pub proof fn er_dr(cp: int, rs: Seq<Seq<int>>)
  requires ranges_ok(rs), er(cp, rs) >= 0
  ensures dr(er(cp, rs), rs) == cp
  decreases rs.len()
{
  if rs[0][0] <= cp < rs[0][1] { } else {
    assert forall|i: int| 0 <= i < rs.drop_first().len() implies (#[trigger] rs.drop_first()[i]).len() == 2 && 0 <= rs.drop_first()[i][0] <= rs.drop_first()[i][1] < 0x200000 by { assert(rs.drop_first()[i] == rs[i + 1]); }
    er_dr(cp, rs.drop_first());
  }
}

pub open spec fn latin(cp: int) -> int { er(cp, sg_rangesLatin()) }
pub open spec fn extra(cp: int) -> int { er(cp, sg_rangesExtra()) }
pub open spec fn hk(cp: int) -> bool { sg_rangeHK()[0] <= cp < sg_rangeHK()[1] }
pub open spec fn auxof(offs: int) -> int { if sg_auxOffset(offs).1 { sg_auxOffset(offs).0 } else { offs } }

// the tables fit the format
pub proof fn tables()
  ensures
    ranges_ok(sg_rangesLatin()), ranges_ok(sg_rangesExtra()),
    sg_rangeHK().len() == 2, 0 <= sg_rangeHK()[0], sg_rangeHK()[1] < 0x200000,
    forall|cp: int| #[trigger] latin(cp) >= 0 ==> latin(cp) < 0x40,
    forall|cp: int| #[trigger] extra(cp) >= 0 ==> extra(cp) < 0xa00,
    forall|cp: int| 0x2000 <= cp < 0x2600 ==> #[trigger] extra(cp) >= 0,
    forall|o: int| 0 <= o < 0x200000 ==> 0 <= #[trigger] auxof(o) < 0x200000,
{
  reveal_with_fuel(er, 7);
  let l = sg_rangesLatin(); let x = sg_rangesExtra();
  assert(ranges_ok(l)); assert(ranges_ok(x));
  assert forall|cp: int| #[trigger] latin(cp) >= 0 implies latin(cp) < 0x40 by {
    let l1 = l.drop_first(); let l2 = l1.drop_first(); let l3 = l2.drop_first(); let l4 = l3.drop_first(); let l5 = l4.drop_first();
    assert(l5.len() == 0);
  }
  assert forall|cp: int| #[trigger] extra(cp) >= 0 implies extra(cp) < 0xa00 by {
    let l1 = x.drop_first(); let l2 = l1.drop_first(); let l3 = l2.drop_first(); let l4 = l3.drop_first();
    assert(l4.len() == 0);
  }
}

pub struct St { pub offs: int, pub aux: int, pub b21: bool }

pub open spec fn st_ok(s: St) -> bool {
  &&& 0 <= s.offs < 0x200000
  &&& 0 <= s.aux < 0x200000
  &&& !s.b21 ==> s.offs % 128 == 0
  &&& s.b21 ==> s.offs % 0x8000 == 0
}
pub open spec fn st0() -> St { St { offs: 0, aux: 0x0410, b21: false } }

pub open spec fn is_cp(cp: int) -> bool { 0 <= cp <= 0x10ffff }
pub open spec fn by(x: int) -> u8 { x as u8 }

pub open spec fn aux_hit(s: St, cp: int) -> bool { if s.aux == 0 { latin(cp) >= 0 } else { s.aux <= cp <= s.aux + 0x3f } }

pub open spec fn e_near21(hi: int, lo: int) -> Seq<u8> {
  if hi == 0 && lo == 0 { seq![0xbbu8] } else if hi == 0 { seq![0xbcu8, by(lo)] } else if lo == 0 { seq![0xbeu8, by(hi)] } else { seq![by(hi), by(lo)] }
}
pub open spec fn e_21(top: int, hi: int, lo: int) -> Seq<u8> {
  let m = by(0xa0 + top);
  if hi == 0 && lo == 0 { seq![0xbfu8, m] } else if hi == 0 { seq![0xbeu8, m, by(lo)] } else if lo == 0 { seq![0xbdu8, m, by(hi)] } else { seq![m, by(hi), by(lo)] }
}
// bytes of one code point
pub open spec fn enc(s: St, cp: int) -> Seq<u8> {
  if aux_hit(s, cp) { if s.aux == 0 { seq![by(0xc0 + latin(cp))] } else { seq![by(0xc0 + cp - s.aux)] } }
  else if (cp < 0x2600 || extra(cp) >= 0) && !s.b21 && cp - cp % 128 == s.offs {
    if cp % 128 == 0 { seq![0xbbu8] } else { seq![by(cp % 128)] }
  }
  else if extra(cp) >= 0 {
    let e = extra(cp);
    if e % 256 == 0 { seq![0xbeu8, by(0xb0 + 1 + e / 256)] } else { seq![by(0xb0 + 1 + e / 256), by(e % 256)] }
  }
  else if cp >= 0x2600 {
    let c = cp - 0x2600;
    if s.b21 && c - c % 0x8000 == s.offs { e_near21((c / 256) % 128, c % 256) } else { e_21(c / 0x10000, (c / 256) % 256, c % 256) }
  }
  else { if cp % 256 == 0 { seq![0xbeu8, by(0x80 + cp / 256)] } else { seq![by(0x80 + cp / 256), by(cp % 256)] } }
}

// state after one code point
pub open spec fn nxt(s: St, cp: int) -> St {
  if aux_hit(s, cp) { s }
  else if (cp < 0x2600 || extra(cp) >= 0) && !s.b21 && cp - cp % 128 == s.offs { s }
  else if extra(cp) >= 0 { if hk(cp) { St { offs: cp - cp % 128, aux: auxof(s.offs), b21: false } } else { s } }
  else if cp >= 0x2600 {
    let c = cp - 0x2600;
    if s.b21 && c - c % 0x8000 == s.offs { s } else { St { offs: c - c % 0x8000, aux: s.offs, b21: true } }
  }
  else { St { offs: if cp <= 0x2ff { 0 } else { cp - cp % 128 }, aux: auxof(s.offs), b21: false } }
}

pub proof fn nxt_ok(s: St, cp: int)
  requires st_ok(s), is_cp(cp)
  ensures st_ok(nxt(s, cp))
{ tables(); }

pub proof fn enc_nonzero(s: St, cp: int)
  requires st_ok(s), is_cp(cp)
  ensures
    1 <= enc(s, cp).len() <= 3,
    forall|i: int| 0 <= i < enc(s, cp).len() ==> #[trigger] enc(s, cp)[i] != 0,
{ tables(); }

pub open spec fn enc_all(s: St, cps: Seq<int>) -> Seq<u8>
  decreases cps.len()
{ if cps.len() == 0 { Seq::empty() } else { enc(s, cps[0]) + enc_all(nxt(s, cps[0]), cps.drop_first()) } }
pub open spec fn st_all(s: St, cps: Seq<int>) -> St
  decreases cps.len()
{ if cps.len() == 0 { s } else { st_all(nxt(s, cps[0]), cps.drop_first()) } }

pub open spec fn are_cps(cps: Seq<int>) -> bool { forall|i: int| 0 <= i < cps.len() ==> is_cp(#[trigger] cps[i]) }

pub proof fn all_snoc(s: St, cps: Seq<int>, cp: int)
  ensures
    enc_all(s, cps.push(cp)) == enc_all(s, cps) + enc(st_all(s, cps), cp),
    st_all(s, cps.push(cp)) == nxt(st_all(s, cps), cp),
  decreases cps.len()
{
  let p = cps.push(cp);
  if cps.len() == 0 {
    assert(p.drop_first() =~= cps);
    assert(p[0] == cp);
    assert(enc_all(nxt(s, cp), p.drop_first()) =~= Seq::<u8>::empty());
    assert(st_all(nxt(s, cp), p.drop_first()) == nxt(s, cp));
    assert(enc_all(s, p) =~= enc_all(s, cps) + enc(st_all(s, cps), cp));
  } else {
    assert(p.drop_first() =~= cps.drop_first().push(cp));
    all_snoc(nxt(s, cps[0]), cps.drop_first(), cp);
    assert(enc_all(s, p) =~= enc_all(s, cps) + enc(st_all(s, cps), cp));
  }
}
pub proof fn st_all_ok(s: St, cps: Seq<int>)
  requires st_ok(s), are_cps(cps)
  ensures st_ok(st_all(s, cps))
  decreases cps.len()
{
  if cps.len() > 0 {
    nxt_ok(s, cps[0]);
    assert forall|i: int| 0 <= i < cps.drop_first().len() implies is_cp(#[trigger] cps.drop_first()[i]) by { assert(cps.drop_first()[i] == cps[i + 1]); }
    st_all_ok(nxt(s, cps[0]), cps.drop_first());
  }
}
pub proof fn enc_all_nonzero(s: St, cps: Seq<int>)
  requires st_ok(s), are_cps(cps)
  ensures forall|i: int| 0 <= i < enc_all(s, cps).len() ==> #[trigger] enc_all(s, cps)[i] != 0
  decreases cps.len()
{
  if cps.len() > 0 {
    nxt_ok(s, cps[0]); enc_nonzero(s, cps[0]);
    assert forall|i: int| 0 <= i < cps.drop_first().len() implies is_cp(#[trigger] cps.drop_first()[i]) by { assert(cps.drop_first()[i] == cps[i + 1]); }
    enc_all_nonzero(nxt(s, cps[0]), cps.drop_first());
    let a = enc(s, cps[0]); let b = enc_all(nxt(s, cps[0]), cps.drop_first());
    assert forall|i: int| 0 <= i < (a + b).len() implies #[trigger] (a + b)[i] != 0 by {
      if i < a.len() { assert(a[i] != 0); } else { assert(b[i - a.len()] != 0); }
    }
  }
}

// ---- Go runtime: iterating over a string and converting a rune (trusted)
pub uninterp spec fn runes(s: Seq<u8>) -> Seq<int>;      // what `for _, r := range s` yields
pub uninterp spec fn utf8(cp: int) -> Seq<u8>;           // string(rune(cp))
pub open spec fn utf8_all(cps: Seq<int>) -> Seq<u8>
  decreases cps.len()
{ if cps.len() == 0 { Seq::empty() } else { utf8(cps[0]) + utf8_all(cps.drop_first()) } }
// a string is valid UTF-8 iff it is the encoding of the runes it yields
pub open spec fn valid_utf8(s: Seq<u8>) -> bool { utf8_all(runes(s)) == s }

#[verifier::external_body]
pub fn go_runes(s: &Vec<u8>) -> (r: Vec<i32>)
  ensures r@.len() == runes(s@).len(), forall|i: int| 0 <= i < r@.len() ==> #[trigger] r@[i] == runes(s@)[i], are_cps(runes(s@))
{ unimplemented!() }
#[verifier::external_body]
pub fn go_rune_string(c: i32) -> (r: Vec<u8>)
  ensures r@ == utf8(c as int)
{ unimplemented!() }

pub proof fn utf8_snoc(a: Seq<int>, c: int)
  ensures utf8_all(a.push(c)) == utf8_all(a) + utf8(c)
  decreases a.len()
{
  let p = a.push(c);
  if a.len() == 0 {
    assert(p.drop_first() =~= a);
    assert(utf8_all(p) =~= utf8_all(a) + utf8(c));
  } else {
    assert(p.drop_first() =~= a.drop_first().push(c));
    utf8_snoc(a.drop_first(), c);
    assert(utf8_all(p) =~= utf8_all(a) + utf8(c));
  }
}

#[verifier::external_body]
pub proof fn runes_are_cps(s: Seq<u8>)
  ensures are_cps(runes(s))
{ }

// ---- decoding: one step, and well-formed input
pub open spec fn at(b: Seq<u8>, i: int) -> int { if 0 <= i < b.len() { b[i] as int } else { 0 } }
pub struct D { pub cp: int, pub n: int, pub s: St }
// header of a code point: zero marker, first byte, bytes consumed
pub open spec fn hz(b: Seq<u8>) -> int { if 0xbb <= at(b, 0) <= 0xbf { at(b, 0) } else { 0 } }
pub open spec fn hp(b: Seq<u8>) -> int { if hz(b) != 0 { 1 } else { 0 } }
pub open spec fn hr(b: Seq<u8>) -> bool { hz(b) != 0xbb && hz(b) != 0xbc }
pub open spec fn hc(b: Seq<u8>) -> int { if hr(b) { at(b, hp(b)) } else { 0 } }
pub open spec fn hq(b: Seq<u8>) -> int { if hr(b) { hp(b) + 1 } else { hp(b) } }
pub open spec fn d_aux(s: St, c: int, q: int) -> D {
  D { cp: if s.aux == 0 { dr(c - 0xc0, sg_rangesLatin()) } else { s.aux + c - 0xc0 }, n: q, s: s }
}
pub open spec fn d_extra(s: St, b: Seq<u8>, zm: int, c: int, q: int) -> D {
  let lo = if zm != 0xbe { at(b, q) } else { 0 };
  let cp = dr((c - 0xb1) * 256 + lo, sg_rangesExtra());
  D { cp: cp, n: if zm != 0xbe { q + 1 } else { q }, s: if hk(cp) { St { offs: cp - cp % 128, aux: auxof(s.offs), b21: false } } else { s } }
}
pub open spec fn d_21v(c: int, hi: int, lo: int) -> int { (c - 0xa0) * 0x10000 + hi * 256 + lo }
pub open spec fn d_21(s: St, b: Seq<u8>, zm: int, c: int, q: int) -> D {
  let h = zm != 0xbe && zm != 0xbf;
  let l = zm != 0xbd && zm != 0xbf;
  let hi = if h { at(b, q) } else { 0 };
  let q1 = if h { q + 1 } else { q };
  let lo = if l { at(b, q1) } else { 0 };
  let v = d_21v(c, hi, lo);
  D { cp: v + 0x2600, n: if l { q1 + 1 } else { q1 }, s: St { offs: v - v % 0x8000, aux: s.offs, b21: true } }
}
pub open spec fn d_13(s: St, b: Seq<u8>, zm: int, c: int, q: int) -> D {
  let lo = if zm != 0xbe { at(b, q) } else { 0 };
  let cp = (c - 0x80) * 256 + lo;
  D { cp: cp, n: if zm != 0xbe { q + 1 } else { q }, s: St { offs: if cp <= 0x2ff { 0 } else { cp - cp % 128 }, aux: auxof(s.offs), b21: false } }
}
pub open spec fn d_near21(s: St, b: Seq<u8>, zm: int, c: int, q: int) -> D {
  let h = zm != 0xbe && zm != 0xbb;
  let lo = if h { at(b, q) } else { 0 };
  D { cp: 0x2600 + s.offs + c * 256 + lo, n: if h { q + 1 } else { q }, s: s }
}
pub open spec fn dec1(s: St, b: Seq<u8>) -> D {
  let zm = hz(b); let c = hc(b); let q = hq(b);
  if c >= 0xc0 { d_aux(s, c, q) }
  else if c >= 0xb1 { d_extra(s, b, zm, c, q) }
  else if c >= 0xa0 { d_21(s, b, zm, c, q) }
  else if c >= 0x80 { d_13(s, b, zm, c, q) }
  else if s.b21 { d_near21(s, b, zm, c, q) }
  else { D { cp: s.offs + c, n: q, s: s } }
}
pub open spec fn wf(s: St, b: Seq<u8>) -> bool
  decreases b.len()
{
  b.len() == 0 || {
    let d = dec1(s, b);
    1 <= d.n <= b.len() && is_cp(d.cp) && st_ok(d.s) && wf(d.s, b.skip(d.n))
  }
}
pub open spec fn dec_all(s: St, b: Seq<u8>) -> Seq<int>
  decreases b.len()
{
  if b.len() == 0 { Seq::empty() } else {
    let d = dec1(s, b);
    if 1 <= d.n <= b.len() { seq![d.cp] + dec_all(d.s, b.skip(d.n)) } else { Seq::empty() }
  }
}

pub open spec fn starts(b: Seq<u8>, e: Seq<u8>) -> bool {
  &&& e.len() > 0 ==> at(b, 0) == e[0]
  &&& e.len() > 1 ==> at(b, 1) == e[1]
  &&& e.len() > 2 ==> at(b, 2) == e[2]
}
pub proof fn rt1(s: St, cp: int, rest: Seq<u8>)
  requires st_ok(s), is_cp(cp)
  ensures
    dec1(s, enc(s, cp) + rest) == (D { cp: cp, n: enc(s, cp).len() as int, s: nxt(s, cp) }),
{
  hide(er); hide(dr); hide(sg_auxOffset); hide(e_21); hide(e_near21); hide(d_21); hide(d_near21);
  tables();
  let b = enc(s, cp) + rest;
  if latin(cp) >= 0 { er_dr(cp, sg_rangesLatin()); }
  if extra(cp) >= 0 { er_dr(cp, sg_rangesExtra()); }
  assert(starts(b, enc(s, cp)));
  if aux_hit(s, cp) { }
  else if (cp < 0x2600 || extra(cp) >= 0) && !s.b21 && cp - cp % 128 == s.offs { }
  else if extra(cp) >= 0 { }
  else if cp >= 0x2600 {
    let c = cp - 0x2600;
    arith(c);
    if s.b21 && c - c % 0x8000 == s.offs { rt_near21(s, (c / 256) % 128, c % 256, b); } else { rt_21(s, c / 0x10000, (c / 256) % 256, c % 256, b); }
  }
  else { }
}
proof fn arith(c: int)
  requires 0 <= c < 0x10da00
  ensures
    0 <= c / 0x10000 <= 0x10, 0 <= c % 256 < 256, 0 <= (c / 256) % 256 < 256, 0 <= (c / 256) % 128 < 128,
    (c / 0x10000) * 0x10000 + ((c / 256) % 256) * 256 + c % 256 == c,
    c % 0x8000 == ((c / 256) % 128) * 256 + c % 256,
{ }
proof fn rt_near21(s: St, hi: int, lo: int, b: Seq<u8>)
  requires s.b21, 0 <= hi < 128, 0 <= lo < 256, starts(b, e_near21(hi, lo))
  ensures dec1(s, b) == (D { cp: 0x2600 + s.offs + hi * 256 + lo, n: e_near21(hi, lo).len() as int, s: s })
{ if hi == 0 && lo == 0 { } else if hi == 0 { } else if lo == 0 { } else { } }
proof fn rt_21(s: St, top: int, hi: int, lo: int, b: Seq<u8>)
  requires 0 <= top <= 0x10, 0 <= hi < 256, 0 <= lo < 256, starts(b, e_21(top, hi, lo))
  ensures ({
    let v = top * 0x10000 + hi * 256 + lo;
    dec1(s, b) == (D { cp: v + 0x2600, n: e_21(top, hi, lo).len() as int, s: St { offs: v - v % 0x8000, aux: s.offs, b21: true } })
  })
{ if hi == 0 && lo == 0 { } else if hi == 0 { } else if lo == 0 { } else { } }

// decoding inverts encoding, whatever the text
pub proof fn round_trip(s: St, cps: Seq<int>)
  requires st_ok(s), are_cps(cps)
  ensures wf(s, enc_all(s, cps)), dec_all(s, enc_all(s, cps)) == cps
  decreases cps.len()
{
  if cps.len() > 0 {
    let c = cps[0]; let t = cps.drop_first(); let s1 = nxt(s, c);
    nxt_ok(s, c); enc_nonzero(s, c);
    assert forall|i: int| 0 <= i < t.len() implies is_cp(#[trigger] t[i]) by { assert(t[i] == cps[i + 1]); }
    round_trip(s1, t);
    let b = enc_all(s, cps);
    rt1(s, c, enc_all(s1, t));
    assert(b.skip(enc(s, c).len() as int) =~= enc_all(s1, t));
    assert(dec_all(s, b) =~= cps);
  } else { assert(dec_all(s, enc_all(s, cps)) =~= cps); }
}

// ---- machine arithmetic of the code in terms of the arithmetic of the format
pub proof fn bits_cp(x: i64)
  requires 0 <= x < 0x200000
  ensures
    x & 0xFFFFFF80i64 == x - x % 128,
    x & 0xFFFF8000i64 == x - x % 0x8000,
    x & 0x7fi64 == x % 128,
    x & 0xffi64 == x % 256,
    (x >> 8i64) == x / 256,
    ((x >> 8i64) & 0x7fi64) == (x / 256) % 128,
    (x >> 16i64) == x / 0x10000,
    (x as u8) == x % 256,
    ((x >> 8i64) as u8) == (x / 256) % 256,
    x < 0x40 ==> (0xc0i64 | x) == 0xc0 + x,
    x < 0x10 ==> (0xb0i64 | x) == 0xb0 + x,
    x < 0x11 ==> (0xa0i64 | x) == 0xa0 + x,
    x < 0x20 ==> (0x80i64 | x) == 0x80 + x,
{
  assert(x & 0xFFFFFF80i64 == x - x % 128) by(bit_vector) requires 0 <= x < 0x200000;
  assert(x & 0xFFFF8000i64 == x - x % 0x8000) by(bit_vector) requires 0 <= x < 0x200000;
  assert(x & 0x7fi64 == x % 128) by(bit_vector) requires 0 <= x < 0x200000;
  assert(x & 0xffi64 == x % 256) by(bit_vector) requires 0 <= x < 0x200000;
  assert((x >> 8i64) == x / 256) by(bit_vector) requires 0 <= x < 0x200000;
  assert(((x >> 8i64) & 0x7fi64) == (x / 256) % 128) by(bit_vector) requires 0 <= x < 0x200000;
  assert((x >> 16i64) == x / 0x10000) by(bit_vector) requires 0 <= x < 0x200000;
  assert((x as u8) == x % 256) by(bit_vector) requires 0 <= x < 0x200000;
  assert(((x >> 8i64) as u8) == (x / 256) % 256) by(bit_vector) requires 0 <= x < 0x200000;
  assert(x < 0x40 ==> (0xc0i64 | x) == 0xc0 + x) by(bit_vector) requires 0 <= x < 0x200000;
  assert(x < 0x10 ==> (0xb0i64 | x) == 0xb0 + x) by(bit_vector) requires 0 <= x < 0x200000;
  assert(x < 0x11 ==> (0xa0i64 | x) == 0xa0 + x) by(bit_vector) requires 0 <= x < 0x200000;
  assert(x < 0x20 ==> (0x80i64 | x) == 0x80 + x) by(bit_vector) requires 0 <= x < 0x200000;
}
pub proof fn bits_byte(b: i64)
  requires 0 <= b < 256
  ensures
    ((b & 0xc0i64) == 0xc0i64) == (b >= 0xc0),
    b >= 0xc0 ==> (b ^ 0xc0i64) == b - 0xc0,
    b < 0xc0 ==> (((b & 0xb0i64) == 0xb0i64) == (b >= 0xb0)),
    b >= 0xb0 && b < 0xc0 ==> (b ^ 0xb0i64) == b - 0xb0,
    b < 0xb0 ==> (((b & 0xa0i64) == 0xa0i64) == (b >= 0xa0)),
    b == 0xb0 ==> (b & 0xa0i64) == 0xa0i64,
    b >= 0xa0 && b <= 0xb0 ==> (b ^ 0xa0i64) == b - 0xa0,
    b < 0xa0 ==> (((b & 0x80i64) == 0x80i64) == (b >= 0x80)),
    b >= 0x80 && b < 0xa0 ==> (b ^ 0x80i64) == b - 0x80,
{
  assert(((b & 0xc0i64) == 0xc0i64) == (b >= 0xc0)) by(bit_vector) requires 0 <= b < 256;
  assert(b >= 0xc0 ==> (b ^ 0xc0i64) == b - 0xc0) by(bit_vector) requires 0 <= b < 256;
  assert(b < 0xc0 ==> (((b & 0xb0i64) == 0xb0i64) == (b >= 0xb0))) by(bit_vector) requires 0 <= b < 256;
  assert(b >= 0xb0 && b < 0xc0 ==> (b ^ 0xb0i64) == b - 0xb0) by(bit_vector) requires 0 <= b < 256;
  assert(b < 0xb0 ==> (((b & 0xa0i64) == 0xa0i64) == (b >= 0xa0))) by(bit_vector) requires 0 <= b < 256;
  assert(b == 0xb0 ==> (b & 0xa0i64) == 0xa0i64) by(bit_vector) requires 0 <= b < 256;
  assert(b >= 0xa0 && b <= 0xb0 ==> (b ^ 0xa0i64) == b - 0xa0) by(bit_vector) requires 0 <= b < 256;
  assert(b < 0xa0 ==> (((b & 0x80i64) == 0x80i64) == (b >= 0x80))) by(bit_vector) requires 0 <= b < 256;
  assert(b >= 0x80 && b < 0xa0 ==> (b ^ 0x80i64) == b - 0x80) by(bit_vector) requires 0 <= b < 256;
}

pub proof fn lemma_skip(rs: Seq<Seq<int>>, i: int)
  requires 0 <= i <= rs.len()
  ensures
    rs.skip(i).len() == rs.len() - i,
    i < rs.len() ==> rs.skip(i)[0] == rs[i] && rs.skip(i).drop_first() == rs.skip(i + 1),
{ if i < rs.len() { assert(rs.skip(i).drop_first() =~= rs.skip(i + 1)); } }

pub open spec fn st(s: &UtfcState) -> St { St { offs: s.offs as int, aux: s.auxOffs as int, b21: s.is21Bit } }

// ---- followers: what was offered, and what was accepted
pub open spec fn acc(b: Seq<u8>) -> Seq<(u8, bool)> { Seq::new(b.len(), |i: int| (b[i], true)) }
// `log` continues `before` with the bytes b: all accepted (ok), or the accepted ones and then one rejected
pub open spec fn offered(before: Seq<(u8, bool)>, log: Seq<(u8, bool)>, b: Seq<u8>, ok: bool) -> bool {
  if ok { log == before + acc(b) }
  else { exists|k: int| 0 <= k < b.len() && log == (before + #[trigger] acc(b.subrange(0, k))).push((b[k], false)) }
}
@end

@trait UtfcFollower
pub trait UtfcFollower {
  spec fn log(&self) -> Seq<(u8, bool)>;
  fn Follow(&mut self, b: u8) -> (r: bool)
    ensures final(self).log() == old(self).log().push((b, r));
}
@end

@impl byteBuffer UtfcFollower
  open spec fn log(&self) -> Seq<(u8, bool)> { acc(self.buf@) }
@end

@fn byteBuffer.Follow
@at return *
  proof { assert(acc(self.buf@) =~= acc(old(self).buf@).push((b, true))); }
@ensures
  r,
@end

@fn inRanges
@requires
  ranges_ok(dv2(ranges@)),
@ensures
  r == (er(cp as int, dv2(ranges@)) >= 0),
@at entry
  let ghost rs = dv2(ranges@);
@at before loop 1
  proof { assert(rs.skip(0) =~= rs); }
@loop 1
  invariant (er(cp as int, rs) >= 0) == (er(cp as int, rs.skip(__i1 as int)) >= 0), 0 <= __i1 <= __n1,
  decreases __n1 - __i1,
@at begin 1
  proof { lemma_skip(rs, __i1 as int); }
@at exit 1
  proof { assert(rs.skip(__i1 as int).len() == 0); }
@end

@fn encodeRanges
@requires
  ranges_ok(dv2(ranges@)),
@ensures
  r == er(cp as int, dv2(ranges@)),
@at entry
  let ghost rs = dv2(ranges@);
  proof { er_nonneg(cp as int, rs); }
@at before loop 1
  proof { assert(rs.skip(0) =~= rs); }
@loop 1
  invariant
    0 <= __i1 <= __n1, 0 <= v <= __i1 * 0x200000,
    er(cp as int, rs) == (if er(cp as int, rs.skip(__i1 as int)) < 0 { -1 } else { v + er(cp as int, rs.skip(__i1 as int)) }),
  decreases __n1 - __i1,
@at begin 1
  proof { lemma_skip(rs, __i1 as int); }
@at exit 1
  proof { assert(rs.skip(__i1 as int).len() == 0); }
@end

@fn decodeRanges
@requires
  ranges_ok(dv2(ranges@)), 0 <= v < 0x200000,
@ensures
  r == dr(v as int, dv2(ranges@)),
@at entry
  let ghost rs = dv2(ranges@);
@at before loop 1
  proof { assert(rs.skip(0) =~= rs); }
@loop 1
  invariant
    0 <= __i1 <= __n1, 0 <= v < 0x200000,
    dr(v_0 as int, rs) == dr(v as int, rs.skip(__i1 as int)),
  decreases __n1 - __i1,
@at begin 1
  proof { lemma_skip(rs, __i1 as int); }
@at exit 1
  proof { assert(rs.skip(__i1 as int).len() == 0); }
@end

@fn getAuxOffset
@requires
  0 <= offs < 0x200000,
@ensures
  r == auxof(offs as int),
@end

@fn NewUtfcState
@ensures
  st(&r) == st0(),
@end
@fn UtfcState.Clear
@ensures
  st(&*final(self)) == st0(),
@end
@fn UtfcState.Copy
@ensures
  st(&*final(self)) == st(src),
@end

@fn UtfcState.Follow
@requires
  st_ok(st(&*old(self))), is_cp(ch as int),
@ensures
  offered(old(f).log(), final(f).log(), enc(st(&*old(self)), ch as int), r),
  r ==> st(&*final(self)) == nxt(st(&*old(self)), ch as int),
@at entry
  let ghost s0 = st(&*self); let ghost l0 = f.log(); let ghost eb = enc(s0, ch as int);
  proof {
    tables();
    bits_cp(ch as i64);
    if ch >= 0x2600 { bits_cp((ch - 0x2600) as i64); }
    er_nonneg(ch as int, sg_rangesLatin()); er_nonneg(ch as int, sg_rangesExtra());
    if latin(ch as int) >= 0 { bits_cp(latin(ch as int) as i64); }
    if extra(ch as int) >= 0 { bits_cp(extra(ch as int) as i64); bits_cp((1 + extra(ch as int) / 256) as i64); }
    if s0.aux <= ch <= s0.aux + 0x3f { bits_cp((ch - s0.aux) as i64); }
    bits_cp((ch as int / 0x10000) as i64);
    bits_cp((ch as int / 256) as i64);
    if ch >= 0x2600 { bits_cp(((ch - 0x2600) / 0x10000) as i64); }
  }
@at return *
  proof { offer(l0, f.log(), eb); }
@end

@fn UtfcFollow
@ensures
  offered(old(f).log(), final(f).log(), enc_all(st0(), runes(str@)), r),
@at entry
  let ghost l0 = f.log(); let ghost rs = runes(str@);
  proof { runes_are_cps(str@); }
@loop 1
  invariant
    0 <= __i1 <= __n1, are_cps(rs), rs == runes(str@), __n1 == rs.len(), __r1@.len() == __n1,
    forall|i: int| 0 <= i < __n1 ==> #[trigger] __r1@[i] == rs[i],
    f.log() == l0 + acc(enc_all(st0(), rs.take(__i1 as int))),
    st(&g_sharedState) == st_all(st0(), rs.take(__i1 as int)),
  decreases __n1 - __i1,
@at begin 1
  let ghost pre = enc_all(st0(), rs.take(__i1 as int)); let ghost one = enc(st(&g_sharedState), rs[__i1 as int]); let ghost l1 = f.log();
  proof {
    st_all_ok(st0(), rs.take(__i1 as int));
    all_snoc(st0(), rs.take(__i1 as int), rs[__i1 as int]);
    assert(rs.take(__i1 as int).push(rs[__i1 as int]) =~= rs.take(__i1 + 1));
  }
@at return 1
  proof { all_split(st0(), rs, __i1 + 1); offer_part(l0, l1, f.log(), pre, one, enc_all(st0(), rs)); }
@at after call Follow 1
  proof { assert(l0 + acc(pre) + acc(one) =~= l0 + acc(pre + one)); }
@at exit 1
  proof { assert(rs.take(__i1 as int) =~= rs); }
@end

@fn UtfcEncode
@ensures
  r@ == enc_all(st0(), runes(str@)),
  forall|i: int| 0 <= i < r@.len() ==> #[trigger] r@[i] != 0,
@at after call UtfcFollow 1
  proof {
    let e = enc_all(st0(), runes(str@));
    runes_are_cps(str@);
    enc_all_nonzero(st0(), runes(str@));
    encoded(g_sharedBuffer.buf@, e);
  }
@end

@fn UtfcDecode
@attr #[verifier::spinoff_prover]
@requires
  wf(st0(), buf@),
@ensures
  r@ == utf8_all(dec_all(st0(), buf@)),
@at entry
  hide(er); hide(dr); hide(sg_auxOffset); hide(sg_rangesExtra); hide(sg_rangesLatin);
  let ghost mut s = st0();
  proof { tables(); assert(buf@.skip(0) =~= buf@); }
@loop 1
  invariant
    0 <= i <= buf@.len(), st_ok(s), wf(s, buf@.skip(i as int)),
    s == (St { offs: offs as int, aux: auxOffs as int, b21: is21Bit }),
    str@ + utf8_all(dec_all(s, buf@.skip(i as int))) == utf8_all(dec_all(st0(), buf@)),
  decreases buf@.len() - i,
@at begin 1
  let ghost i0 = i as int; let ghost b = buf@.skip(i0); let ghost d = dec1(s, b); let ghost str0 = str@;
  let ghost c = hc(b); let ghost q = hq(b);
  proof {
    assert(at(b, 0) == buf@[i0]);
    assert(forall|k: int| 0 <= k && i0 + k < buf@.len() ==> #[trigger] at(b, k) == buf@[i0 + k]);
    bits_byte(c as i64);
  }
@at then 3
  proof { assert(i == i0 + q && cp == c && zm == hz(b)); }
@at then 5
  proof { bits_two(c as i64, at(b, q) as i64); bits_two(c as i64, 0); if is_cp(d.cp) { bits_cp(d.cp as i64); } }
@at then 8
  proof {
    bits_lo(c as i64, at(b, q) as i64, at(b, q + 1) as i64); bits_lo(c as i64, 0, at(b, q) as i64); bits_lo(c as i64, at(b, q) as i64, 0); bits_lo(c as i64, 0, 0);
    if 0x2600 <= d.cp { bits_cp((d.cp - 0x2600) as i64); }
  }
@at then 11
  proof { bits_two(c as i64, at(b, q) as i64); bits_two(c as i64, 0); bits_cp(d.cp as i64); }
@at then 14
  proof { bits_hi(s.offs as i64, c as i64, at(b, q) as i64); bits_hi(s.offs as i64, c as i64, 0); }
@at else 14
  proof { bits_join(s.offs as i64, c as i64); }
@at end 1
  proof {
    assert(cp == d.cp);
    assert(i == i0 + d.n);
    assert(b.skip(d.n) =~= buf@.skip(i as int));
    let t = dec_all(d.s, b.skip(d.n));
    assert(dec_all(s, b)[0] == d.cp && dec_all(s, b).drop_first() =~= t);
    s = d.s;
    assert(str@ + utf8_all(t) =~= str0 + (utf8(d.cp) + utf8_all(t)));
  }
@at exit 1
  proof { assert(buf@.skip(i as int).len() == 0); assert(str@ + Seq::<u8>::empty() =~= str@); }
@end

@raw
pub proof fn offer(l0: Seq<(u8, bool)>, l: Seq<(u8, bool)>, b: Seq<u8>)
  ensures
    l == l0 && b.len() == 0 ==> offered(l0, l, b, true),
    b.len() == 1 && l == l0.push((b[0], true)) ==> offered(l0, l, b, true),
    b.len() == 2 && l == l0.push((b[0], true)).push((b[1], true)) ==> offered(l0, l, b, true),
    b.len() == 3 && l == l0.push((b[0], true)).push((b[1], true)).push((b[2], true)) ==> offered(l0, l, b, true),
    b.len() >= 1 && l == l0.push((b[0], false)) ==> offered(l0, l, b, false),
    b.len() >= 2 && l == l0.push((b[0], true)).push((b[1], false)) ==> offered(l0, l, b, false),
    b.len() >= 3 && l == l0.push((b[0], true)).push((b[1], true)).push((b[2], false)) ==> offered(l0, l, b, false),
{
  assert(l0 + acc(b) =~= l0 || b.len() > 0);
  if b.len() == 1 { assert(l0 + acc(b) =~= l0.push((b[0], true))); }
  if b.len() == 2 { assert(l0 + acc(b) =~= l0.push((b[0], true)).push((b[1], true))); }
  if b.len() == 3 { assert(l0 + acc(b) =~= l0.push((b[0], true)).push((b[1], true)).push((b[2], true))); }
  if b.len() >= 1 { assert(l0 + acc(b.subrange(0, 0)) =~= l0); }
  if b.len() >= 2 { assert(l0 + acc(b.subrange(0, 1)) =~= l0.push((b[0], true))); }
  if b.len() >= 3 { assert(l0 + acc(b.subrange(0, 2)) =~= l0.push((b[0], true)).push((b[1], true))); }
}
pub proof fn offer_part(l0: Seq<(u8, bool)>, l1: Seq<(u8, bool)>, l: Seq<(u8, bool)>, pre: Seq<u8>, one: Seq<u8>, all: Seq<u8>)
  requires
    l1 == l0 + acc(pre), offered(l1, l, one, false), pre.len() + one.len() <= all.len(), all.subrange(0, (pre.len() + one.len()) as int) == pre + one,
  ensures offered(l0, l, all, false)
{
  let k = choose|k: int| 0 <= k < one.len() && l == (l1 + #[trigger] acc(one.subrange(0, k))).push((one[k], false));
  let j = pre.len() + k;
  assert(all[j] == all.subrange(0, (pre.len() + one.len()) as int)[j]);
  assert forall|i: int| 0 <= i < j implies all[i] == (pre + one)[i] by { assert(all[i] == all.subrange(0, (pre.len() + one.len()) as int)[i]); }
  assert(l0 + acc(all.subrange(0, j)) =~= l1 + acc(one.subrange(0, k)));
}
pub proof fn all_split(s: St, cps: Seq<int>, n: int)
  requires 0 <= n <= cps.len()
  ensures
    enc_all(s, cps.take(n)).len() <= enc_all(s, cps).len(),
    enc_all(s, cps).subrange(0, enc_all(s, cps.take(n)).len() as int) == enc_all(s, cps.take(n)),
  decreases cps.len()
{
  let a = enc_all(s, cps.take(n)); let b = enc_all(s, cps);
  if n == 0 { assert(b.subrange(0, 0) =~= a); } else {
    assert(cps.take(n).drop_first() =~= cps.drop_first().take(n - 1));
    all_split(nxt(s, cps[0]), cps.drop_first(), n - 1);
    let e = enc(s, cps[0]); let a1 = enc_all(nxt(s, cps[0]), cps.drop_first().take(n - 1)); let b1 = enc_all(nxt(s, cps[0]), cps.drop_first());
    assert(a == e + a1);
    assert forall|i: int| 0 <= i < a.len() implies #[trigger] a[i] == b[i] by { if i >= e.len() { assert(a1[i - e.len()] == b1.subrange(0, a1.len() as int)[i - e.len()]); } }
    assert(b.subrange(0, a.len() as int) =~= a);
  }
}
// the buffer accepts everything, so what it holds is the whole encoding
pub proof fn encoded(buf: Seq<u8>, e: Seq<u8>)
  ensures
    offered(Seq::<(u8, bool)>::empty(), acc(buf), e, true) ==> buf == e,
    !offered(Seq::<(u8, bool)>::empty(), acc(buf), e, false),
{
  let z = Seq::<(u8, bool)>::empty();
  if offered(z, acc(buf), e, true) {
    assert(z + acc(e) =~= acc(e));
    assert forall|i: int| 0 <= i < e.len() implies buf[i] == e[i] by { assert(acc(buf)[i] == acc(e)[i]); }
    assert(acc(buf).len() == acc(e).len());
    assert(buf =~= e);
  }
  if offered(z, acc(buf), e, false) {
    let k = choose|k: int| 0 <= k < e.len() && acc(buf) == (z + #[trigger] acc(e.subrange(0, k))).push((e[k], false));
    assert(acc(buf)[k] == (e[k], false));
    assert(acc(buf).len() == k + 1);
  }
}
pub proof fn bits_join(o: i64, c: i64)
  requires 0 <= o < 0x200000, 0 <= c < 256
  ensures
    o % 128 == 0 && c < 128 ==> (o | c) == o + c,
    o % 128 == 0 && c < 128 ==> (c | o) == o + c,
{
  assert(o % 128 == 0 && c < 128 ==> (o | c) == o + c) by(bit_vector) requires 0 <= o < 0x200000, 0 <= c < 256;
  assert(o % 128 == 0 && c < 128 ==> (c | o) == o + c) by(bit_vector) requires 0 <= o < 0x200000, 0 <= c < 256;
}
pub proof fn bits_hi(o: i64, c: i64, l: i64)
  requires 0 <= o < 0x200000, 0 <= c < 256, 0 <= l < 256
  ensures
    o % 0x8000 == 0 && c < 128 ==> ((o | (c << 8i64)) | l) == o + c * 256 + l,
    o % 0x8000 == 0 && c < 128 ==> (((c << 8i64) | o) | l) == o + c * 256 + l,
    o % 0x8000 == 0 && c < 128 ==> (((c << 8i64) | l) | o) == o + c * 256 + l,
    o % 0x8000 == 0 && c < 128 ==> (o | ((c << 8i64) | l)) == o + c * 256 + l,
    o % 0x8000 == 0 && c < 128 ==> ((l | o) | (c << 8i64)) == o + c * 256 + l,
    o % 0x8000 == 0 && c < 128 ==> ((o | l) | (c << 8i64)) == o + c * 256 + l,
{
  assert(o % 0x8000 == 0 && c < 128 ==> ((o | (c << 8i64)) | l) == o + c * 256 + l) by(bit_vector) requires 0 <= o < 0x200000, 0 <= c < 256, 0 <= l < 256;
  assert(o % 0x8000 == 0 && c < 128 ==> (((c << 8i64) | o) | l) == o + c * 256 + l) by(bit_vector) requires 0 <= o < 0x200000, 0 <= c < 256, 0 <= l < 256;
  assert(o % 0x8000 == 0 && c < 128 ==> (((c << 8i64) | l) | o) == o + c * 256 + l) by(bit_vector) requires 0 <= o < 0x200000, 0 <= c < 256, 0 <= l < 256;
  assert(o % 0x8000 == 0 && c < 128 ==> (o | ((c << 8i64) | l)) == o + c * 256 + l) by(bit_vector) requires 0 <= o < 0x200000, 0 <= c < 256, 0 <= l < 256;
  assert(o % 0x8000 == 0 && c < 128 ==> ((l | o) | (c << 8i64)) == o + c * 256 + l) by(bit_vector) requires 0 <= o < 0x200000, 0 <= c < 256, 0 <= l < 256;
  assert(o % 0x8000 == 0 && c < 128 ==> ((o | l) | (c << 8i64)) == o + c * 256 + l) by(bit_vector) requires 0 <= o < 0x200000, 0 <= c < 256, 0 <= l < 256;
}
pub proof fn bits_lo(c: i64, h: i64, l: i64)
  requires 0 <= c < 256, 0 <= h < 256, 0 <= l < 256
  ensures
    0xa0 <= c <= 0xb0 ==> ((((c ^ 0xa0i64) << 16i64) | (h << 8i64)) | l) == (c - 0xa0) * 0x10000 + h * 256 + l,
    0xa0 <= c <= 0xb0 ==> (((c ^ 0xa0i64) << 16i64) | ((h << 8i64) | l)) == (c - 0xa0) * 0x10000 + h * 256 + l,
    0xa0 <= c <= 0xb0 ==> ((l | (h << 8i64)) | ((c ^ 0xa0i64) << 16i64)) == (c - 0xa0) * 0x10000 + h * 256 + l,
    0xa0 <= c <= 0xb0 ==> (((h << 8i64) | ((c ^ 0xa0i64) << 16i64)) | l) == (c - 0xa0) * 0x10000 + h * 256 + l,
    0xa0 <= c <= 0xb0 ==> (((h << 8i64) | l) | ((c ^ 0xa0i64) << 16i64)) == (c - 0xa0) * 0x10000 + h * 256 + l,
{
  assert(0xa0 <= c <= 0xb0 ==> ((((c ^ 0xa0i64) << 16i64) | (h << 8i64)) | l) == (c - 0xa0) * 0x10000 + h * 256 + l) by(bit_vector) requires 0 <= c < 256, 0 <= h < 256, 0 <= l < 256;
  assert(0xa0 <= c <= 0xb0 ==> (((c ^ 0xa0i64) << 16i64) | ((h << 8i64) | l)) == (c - 0xa0) * 0x10000 + h * 256 + l) by(bit_vector) requires 0 <= c < 256, 0 <= h < 256, 0 <= l < 256;
  assert(0xa0 <= c <= 0xb0 ==> ((l | (h << 8i64)) | ((c ^ 0xa0i64) << 16i64)) == (c - 0xa0) * 0x10000 + h * 256 + l) by(bit_vector) requires 0 <= c < 256, 0 <= h < 256, 0 <= l < 256;
  assert(0xa0 <= c <= 0xb0 ==> (((h << 8i64) | ((c ^ 0xa0i64) << 16i64)) | l) == (c - 0xa0) * 0x10000 + h * 256 + l) by(bit_vector) requires 0 <= c < 256, 0 <= h < 256, 0 <= l < 256;
  assert(0xa0 <= c <= 0xb0 ==> (((h << 8i64) | l) | ((c ^ 0xa0i64) << 16i64)) == (c - 0xa0) * 0x10000 + h * 256 + l) by(bit_vector) requires 0 <= c < 256, 0 <= h < 256, 0 <= l < 256;
}
pub proof fn bits_two(c: i64, l: i64)
  requires 0 <= c < 256, 0 <= l < 256
  ensures
    0x80 <= c < 0xa0 ==> (((c ^ 0x80i64) << 8i64) | l) == (c - 0x80) * 256 + l,
    0x80 <= c < 0xa0 ==> (l | ((c ^ 0x80i64) << 8i64)) == (c - 0x80) * 256 + l,
    0xb1 <= c < 0xc0 ==> ((sub(c ^ 0xb0i64, 1) << 8i64) | l) == (c - 0xb1) * 256 + l,
    0xb1 <= c < 0xc0 ==> (l | (sub(c ^ 0xb0i64, 1) << 8i64)) == (c - 0xb1) * 256 + l,
{
  assert(0x80 <= c < 0xa0 ==> (((c ^ 0x80i64) << 8i64) | l) == (c - 0x80) * 256 + l) by(bit_vector) requires 0 <= c < 256, 0 <= l < 256;
  assert(0x80 <= c < 0xa0 ==> (l | ((c ^ 0x80i64) << 8i64)) == (c - 0x80) * 256 + l) by(bit_vector) requires 0 <= c < 256, 0 <= l < 256;
  assert(0xb1 <= c < 0xc0 ==> ((sub(c ^ 0xb0i64, 1) << 8i64) | l) == (c - 0xb1) * 256 + l) by(bit_vector) requires 0 <= c < 256, 0 <= l < 256;
  assert(0xb1 <= c < 0xc0 ==> (l | (sub(c ^ 0xb0i64, 1) << 8i64)) == (c - 0xb1) * 256 + l) by(bit_vector) requires 0 <= c < 256, 0 <= l < 256;
}

// C08: for every valid UTF-8 text, UtfcDecode(UtfcEncode(text)) is defined and gives the text back
pub fn prop_utfc_round_trip(text: &Vec<u8>) -> (r: Vec<u8>)
  requires valid_utf8(text@)
  ensures r@ == text@
{
  let e = UtfcEncode(text);
  proof { runes_are_cps(text@); round_trip(st0(), runes(text@)); }
  UtfcDecode(&e)
}
@end
