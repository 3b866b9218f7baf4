@raw
// ---------------------------------------------------------------- streams (trusted model of io and encoding/binary)
// A reader delivers `data` and then ends or fails; a writer accepts `limit` bytes in all and then fails.
#[verifier::external_body]
pub struct GoioReader { x: u8 }
impl GoioReader { pub uninterp spec fn data(&self) -> Seq<u8>; }
#[verifier::external_body]
pub struct GoioWriter { x: u8 }
impl GoioWriter { pub uninterp spec fn out(&self) -> Seq<u8>; pub uninterp spec fn limit(&self) -> int; }

pub open spec fn le32(x: u32) -> Seq<u8> { seq![(x & 0xff) as u8, ((x >> 8) & 0xff) as u8, ((x >> 16) & 0xff) as u8, ((x >> 24) & 0xff) as u8] }
pub open spec fn le32s(s: Seq<u32>) -> Seq<u8>
  decreases s.len()
{ if s.len() == 0 { seq![] } else { le32s(s.drop_last()) + le32(s.last()) } }
pub open spec fn gus(s: Seq<GuideUnit>) -> Seq<u8>
  decreases s.len()
{ if s.len() == 0 { seq![] } else { gus(s.drop_last()) + seq![s.last().Child, s.last().Sibling] } }

// fixed-size data as encoding/binary writes it, little endian
pub trait GoBin { spec fn enc(&self) -> Seq<u8>; spec fn same_shape(&self, o: &Self) -> bool; }
impl GoBin for u32 { open spec fn enc(&self) -> Seq<u8> { le32(*self) } open spec fn same_shape(&self, o: &Self) -> bool { true } }
impl GoBin for Vec<u32> { open spec fn enc(&self) -> Seq<u8> { le32s(self@) } open spec fn same_shape(&self, o: &Self) -> bool { self@.len() == o@.len() } }
impl GoBin for Vec<GuideUnit> { open spec fn enc(&self) -> Seq<u8> { gus(self@) } open spec fn same_shape(&self, o: &Self) -> bool { self@.len() == o@.len() } }

#[verifier::external_body]
pub fn go_binary_read<T: GoBin>(r: &mut GoioReader, x: &mut T) -> (e: GoError)
  ensures
    !e.e == (old(x).enc().len() <= old(r).data().len()),
    !e.e ==> final(x).same_shape(old(x)) && final(x).enc().len() == old(x).enc().len() && final(x).enc() == old(r).data().take(old(x).enc().len() as int)
      && final(r).data() == old(r).data().skip(old(x).enc().len() as int)
{ unimplemented!() }
#[verifier::external_body]
pub fn go_binary_write<T: GoBin>(w: &mut GoioWriter, x: &T) -> (e: GoError)
  ensures
    final(w).limit() == old(w).limit(),
    !e.e == (old(w).out().len() + x.enc().len() <= old(w).limit()),
    !e.e ==> final(w).out() == old(w).out() + x.enc()
{ unimplemented!() }

pub proof fn le32_len(x: u32) ensures le32(x).len() == 4 { }
pub proof fn le32_inj(x: u32, y: u32)
  requires le32(x) == le32(y)
  ensures x == y
{
  let a = le32(x); let b = le32(y);
  assert(a[0] == b[0] && a[1] == b[1] && a[2] == b[2] && a[3] == b[3]);
  assert(x == y) by(bit_vector) requires (x & 0xff) as u8 == (y & 0xff) as u8, ((x >> 8) & 0xff) as u8 == ((y >> 8) & 0xff) as u8, ((x >> 16) & 0xff) as u8 == ((y >> 16) & 0xff) as u8, ((x >> 24) & 0xff) as u8 == ((y >> 24) & 0xff) as u8;
}
pub proof fn le32s_len(s: Seq<u32>) ensures le32s(s).len() == 4 * s.len() decreases s.len() { if s.len() > 0 { le32s_len(s.drop_last()); } }
pub proof fn gus_len(s: Seq<GuideUnit>) ensures gus(s).len() == 2 * s.len() decreases s.len() { if s.len() > 0 { gus_len(s.drop_last()); } }
pub proof fn le32s_inj(s: Seq<u32>, t: Seq<u32>)
  requires le32s(s) == le32s(t), s.len() == t.len()
  ensures s == t
  decreases s.len()
{
  le32s_len(s); le32s_len(t);
  if s.len() == 0 { assert(s =~= t); } else {
    let n = 4 * (s.len() - 1);
    le32s_len(s.drop_last()); le32s_len(t.drop_last());
    assert(le32s(s).take(n) =~= le32s(s.drop_last())); assert(le32s(t).take(n) =~= le32s(t.drop_last()));
    assert(le32s(s).skip(n) =~= le32(s.last())); assert(le32s(t).skip(n) =~= le32(t.last()));
    le32s_inj(s.drop_last(), t.drop_last()); le32_inj(s.last(), t.last());
    assert(s =~= s.drop_last().push(s.last())); assert(t =~= t.drop_last().push(t.last()));
  }
}
pub proof fn gus_inj(s: Seq<GuideUnit>, t: Seq<GuideUnit>)
  requires gus(s) == gus(t), s.len() == t.len()
  ensures s == t
  decreases s.len()
{
  gus_len(s); gus_len(t);
  if s.len() == 0 { assert(s =~= t); } else {
    let n = 2 * (s.len() - 1);
    gus_len(s.drop_last()); gus_len(t.drop_last());
    assert(gus(s).take(n) =~= gus(s.drop_last())); assert(gus(t).take(n) =~= gus(t.drop_last()));
    assert(gus(s)[n] == s.last().Child && gus(s)[n + 1] == s.last().Sibling); assert(gus(t)[n] == t.last().Child && gus(t)[n + 1] == t.last().Sibling);
    gus_inj(s.drop_last(), t.drop_last());
    assert(s =~= s.drop_last().push(s.last())); assert(t =~= t.drop_last().push(t.last()));
  }
}

// the bytes of a whole structure
pub open spec fn img32(s: Seq<u32>) -> Seq<u8> { le32(s.len() as u32) + le32s(s) }
pub open spec fn imgg(s: Seq<GuideUnit>) -> Seq<u8> { le32(s.len() as u32) + gus(s) }
// the length announced at the start of a stream
pub open spec fn announced(d: Seq<u8>) -> u32 { choose|n: u32| #[trigger] le32(n) == d.take(4) }

// Reading consumes exactly one image, if the stream holds one, and fails otherwise.
pub open spec fn reads32(d: Seq<u8>, ok: bool, us: Seq<u32>, rest: Seq<u8>) -> bool {
  &&& ok == (d.len() >= 4 && d.len() >= 4 + 4 * announced(d))
  &&& ok ==> us.len() == announced(d) && d == img32(us) + rest
}
pub open spec fn readsg(d: Seq<u8>, ok: bool, us: Seq<GuideUnit>, rest: Seq<u8>) -> bool {
  &&& ok == (d.len() >= 4 && d.len() >= 4 + 2 * announced(d))
  &&& ok ==> us.len() == announced(d) && d == imgg(us) + rest
}
pub open spec fn writes(w0: GoioWriter, w1: GoioWriter, ok: bool, img: Seq<u8>) -> bool {
  &&& w1.limit() == w0.limit()
  &&& ok == (w0.out().len() + img.len() <= w0.limit())
  &&& ok ==> w1.out() == w0.out() + img
}

pub proof fn read_step(d: Seq<u8>, n: u32)
  requires d.len() >= 4, le32(n) == d.take(4)
  ensures announced(d) == n
{ le32_inj(announced(d), n); }
pub proof fn img_split(d: Seq<u8>, n: u32, body: Seq<u8>, rest: Seq<u8>)
  requires d.len() >= 4 + body.len(), le32(n) == d.take(4), body == d.skip(4).take(body.len() as int), rest == d.skip(4).skip(body.len() as int)
  ensures d == (le32(n) + body) + rest
{ assert(d =~= (le32(n) + body) + rest); }
pub proof fn announced_img(d: Seq<u8>, n: u32, body: Seq<u8>)
  requires d == le32(n) + body
  ensures announced(d) == n, d.len() >= 4
{ assert(d.take(4) =~= le32(n)); read_step(d, n); }

// C07: what is written reads back identical and nothing else is consumed.
pub proof fn prop_read_back32(us: Seq<u32>, rest: Seq<u8>, ok: bool, vs: Seq<u32>, rest2: Seq<u8>)
  requires us.len() < MAXLEN, reads32(img32(us) + rest, ok, vs, rest2)
  ensures ok, vs == us, rest2 == rest, img32(us).len() == 4 + 4 * us.len()
{
  let d = img32(us) + rest;
  assert(d =~= le32(us.len() as u32) + (le32s(us) + rest));
  announced_img(d, us.len() as u32, le32s(us) + rest);
  le32s_len(us); le32s_len(vs);
  assert(d.subrange(4, 4 + 4 * us.len() as int) =~= le32s(us)); 
  assert((img32(vs) + rest2).subrange(4, 4 + 4 * us.len() as int) =~= le32s(vs));
  le32s_inj(us, vs);
  assert(d.skip(4 + 4 * us.len() as int) =~= rest); assert((img32(vs) + rest2).skip(4 + 4 * us.len() as int) =~= rest2);
}
pub proof fn prop_read_backg(us: Seq<GuideUnit>, rest: Seq<u8>, ok: bool, vs: Seq<GuideUnit>, rest2: Seq<u8>)
  requires us.len() < MAXLEN, readsg(imgg(us) + rest, ok, vs, rest2)
  ensures ok, vs == us, rest2 == rest, imgg(us).len() == 4 + 2 * us.len()
{
  let d = imgg(us) + rest;
  assert(d =~= le32(us.len() as u32) + (gus(us) + rest));
  announced_img(d, us.len() as u32, gus(us) + rest);
  gus_len(us); gus_len(vs);
  assert(d.subrange(4, 4 + 2 * us.len() as int) =~= gus(us)); 
  assert((imgg(vs) + rest2).subrange(4, 4 + 2 * us.len() as int) =~= gus(vs));
  gus_inj(us, vs);
  assert(d.skip(4 + 2 * us.len() as int) =~= rest); assert((imgg(vs) + rest2).skip(4 + 2 * us.len() as int) =~= rest2);
}
// C07: a truncated image is refused.
pub proof fn prop_truncated32(us: Seq<u32>, n: int, ok: bool, vs: Seq<u32>, rest: Seq<u8>)
  requires us.len() < MAXLEN, 0 <= n < img32(us).len(), reads32(img32(us).take(n), ok, vs, rest)
  ensures !ok
{
  le32s_len(us);
  if n >= 4 { assert(img32(us).take(n) =~= le32(us.len() as u32) + le32s(us).take(n - 4)); announced_img(img32(us).take(n), us.len() as u32, le32s(us).take(n - 4)); }
}
pub proof fn prop_truncatedg(us: Seq<GuideUnit>, n: int, ok: bool, vs: Seq<GuideUnit>, rest: Seq<u8>)
  requires us.len() < MAXLEN, 0 <= n < imgg(us).len(), readsg(imgg(us).take(n), ok, vs, rest)
  ensures !ok
{
  gus_len(us);
  if n >= 4 { assert(imgg(us).take(n) =~= le32(us.len() as u32) + gus(us).take(n - 4)); announced_img(imgg(us).take(n), us.len() as u32, gus(us).take(n - 4)); }
}

// everything the readers and writers need, for all values at once
pub proof fn lens()
  ensures
    forall|s: Seq<u32>| (#[trigger] le32s(s)).len() == 4 * s.len(),
    forall|s: Seq<GuideUnit>| (#[trigger] gus(s)).len() == 2 * s.len(),
{
  assert forall|s: Seq<u32>| (#[trigger] le32s(s)).len() == 4 * s.len() by { le32s_len(s); }
  assert forall|s: Seq<GuideUnit>| (#[trigger] gus(s)).len() == 2 * s.len() by { gus_len(s); }
}
pub proof fn reading(d: Seq<u8>)
  ensures
    forall|s: Seq<u32>| (#[trigger] le32s(s)).len() == 4 * s.len(),
    forall|s: Seq<GuideUnit>| (#[trigger] gus(s)).len() == 2 * s.len(),
    forall|n: u32| d.len() >= 4 && #[trigger] le32(n) == d.take(4) ==> announced(d) == n,
    forall|n: u32, b: Seq<u8>, r: Seq<u8>| d.len() >= 4 + b.len() && le32(n) == d.take(4) && b == d.skip(4).take(b.len() as int) && r == d.skip(4).skip(b.len() as int) ==> d == #[trigger] ((le32(n) + b) + r),
{
  lens();
  assert forall|n: u32| d.len() >= 4 && #[trigger] le32(n) == d.take(4) implies announced(d) == n by { read_step(d, n); }
  assert forall|n: u32, b: Seq<u8>, r: Seq<u8>| d.len() >= 4 + b.len() && le32(n) == d.take(4) && b == d.skip(4).take(b.len() as int) && r == d.skip(4).skip(b.len() as int) implies d == #[trigger] ((le32(n) + b) + r) by { img_split(d, n, b, r); }
}
pub proof fn writing(a: Seq<u8>)
  ensures
    forall|s: Seq<u32>| (#[trigger] le32s(s)).len() == 4 * s.len(),
    forall|s: Seq<GuideUnit>| (#[trigger] gus(s)).len() == 2 * s.len(),
    forall|h: Seq<u8>, b: Seq<u8>| (a + h) + b == #[trigger] (a + (h + b)),
{
  lens();
  assert forall|h: Seq<u8>, b: Seq<u8>| (a + h) + b == #[trigger] (a + (h + b)) by { assert((a + h) + b =~= a + (h + b)); }
}
@end

@fn Dictionary.TotalSize
@requires 0 <= self.size < MAXLEN
@ensures r == 4 * self.size
@end
@fn Dictionary.FileSize
@requires 0 <= self.size < MAXLEN
@ensures r == 4 + 4 * self.size
@end
@fn Guide.Size
@ensures r == self.size
@end
@fn Guide.TotalSize
@requires 0 <= self.size < MAXLEN
@ensures r == 2 * self.size
@end
@fn Guide.FileSize
@requires 0 <= self.size < MAXLEN
@ensures r == 4 + 2 * self.size
@end
@fn RankedGuide.Size
@ensures r == self.size
@end
@fn RankedGuide.TotalSize
@requires 0 <= self.size < MAXLEN
@ensures r == 2 * self.size
@end
@fn RankedGuide.FileSize
@requires 0 <= self.size < MAXLEN
@ensures r == 4 + 2 * self.size
@end
@fn Index.Size
@ensures r == self.units@.len()
@end
@fn Index.TotalSize
@ensures r == 4 * self.units@.len(), r < 4 * MAXLEN
@end
@fn Index.FileSize
@ensures r == 4 + 4 * self.units@.len()
@end

@fn Dictionary.Read
@ret ret
@ensures
  reads32(old(r).data(), ret, final(self).units@, final(r).data()),
  ret ==> final(self).size == final(self).units@.len() && final(self).units@.len() < MAXLEN,
  !ret ==> *final(self) == *old(self)
@at entry
  proof { reading(r.data()); }
@end
@fn Dictionary.Write
@requires self.size == self.units@.len(), self.units@.len() < MAXLEN
@ensures writes(*old(w), *final(w), r, img32(self.units@))
@at entry
  proof { writing(w.out()); }
@end
@fn ReadDictionary
@ret ret
@ensures
  ret is Some ==> reads32(old(r).data(), true, ret->0.units@, final(r).data()) && ret->0.size == ret->0.units@.len(),
  ret is None ==> exists|us: Seq<u32>| #[trigger] reads32(old(r).data(), false, us, final(r).data())
@end
@fn Guide.Read
@ret ret
@ensures
  readsg(old(r).data(), ret, final(self).units@, final(r).data()),
  ret ==> final(self).size == final(self).units@.len() && final(self).units@.len() < MAXLEN,
  !ret ==> *final(self) == *old(self)
@at entry
  proof { reading(r.data()); }
@end
@fn Guide.Write
@requires self.size == self.units@.len(), self.units@.len() < MAXLEN
@ensures writes(*old(w), *final(w), r, imgg(self.units@))
@at entry
  proof { writing(w.out()); }
@end
@fn ReadGuide
@ret ret
@ensures
  ret is Some ==> readsg(old(r).data(), true, ret->0.units@, final(r).data()) && ret->0.size == ret->0.units@.len(),
  ret is None ==> exists|us: Seq<GuideUnit>| #[trigger] readsg(old(r).data(), false, us, final(r).data())
@end
@fn NewGuide
@ensures r.units@.len() == 0, r.size == 0
@end
@fn RankedGuide.Read
@ret ret
@ensures
  readsg(old(r).data(), ret, final(self).units@, final(r).data()),
  ret ==> final(self).size == final(self).units@.len() && final(self).units@.len() < MAXLEN,
  !ret ==> *final(self) == *old(self)
@at entry
  proof { reading(r.data()); }
@end
@fn RankedGuide.Write
@requires self.size == self.units@.len(), self.units@.len() < MAXLEN
@ensures writes(*old(w), *final(w), r, imgg(self.units@))
@at entry
  proof { writing(w.out()); }
@end
@fn ReadRankedGuide
@ret ret
@ensures
  ret is Some ==> readsg(old(r).data(), true, ret->0.units@, final(r).data()) && ret->0.size == ret->0.units@.len(),
  ret is None ==> exists|us: Seq<GuideUnit>| #[trigger] readsg(old(r).data(), false, us, final(r).data())
@end
@fn NewRankedGuide
@ensures r.units@.len() == 0, r.size == 0
@end
@fn Index.Read
@ret ret
@ensures
  reads32(old(r).data(), ret, final(self).units@, final(r).data()),


@at entry
  proof { reading(r.data()); }
@end
@fn Index.Write
@requires self.units@.len() < MAXLEN
@ensures writes(*old(w), *final(w), r, img32(self.units@))
@at entry
  proof { writing(w.out()); }
@end
@fn ReadIndex
@ret ret
@ensures
  ret is Some ==> reads32(old(r).data(), true, ret->0.units@, final(r).data()),
  ret is None ==> exists|us: Seq<u32>| #[trigger] reads32(old(r).data(), false, us, final(r).data())
@end
@fn NewIndex
@ensures r.units@.len() == 0
@end
