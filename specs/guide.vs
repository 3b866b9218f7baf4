@raw
// ---------------------------------------------------------------- the guide
pub open spec fn bit8(b: Seq<u8>, i: u32) -> bool { b[(i / 8) as int] & (1u8 << ((i % 8) as u8)) != 0 }
pub proof fn bit8_set(b: Seq<u8>, i: u32, j: u32)
  requires i / 8 < b.len(), j / 8 < b.len()
  ensures ({ let e = b.update((i / 8) as int, b[(i / 8) as int] | (1u8 << ((i % 8) as u8))); bit8(e, j) == (bit8(b, j) || i == j) })
{
  let x = b[(i / 8) as int]; let n = (i % 8) as u8; let m = (j % 8) as u8;
  assert((x | (1u8 << n)) & (1u8 << m) != 0 <==> (x & (1u8 << m) != 0 || n == m)) by(bit_vector) requires n < 8, m < 8;
}
// label of the first transition of t that is not a leaf, and of the next sibling of t; 0: none
pub open spec fn first(d: DG, t: int) -> int { let g = d.child(t); if g == 0 { 0 } else if !d.leaf(g) { g } else if d.sib(g) { g + 1 } else { 0 } }
pub open spec fn lbl(d: DG, u: int) -> u8 { if u == 0 { 0 } else { d.label[u] } }
pub open spec fn later(d: DG, t: int) -> int { if t != 0 && d.sib(t) { t + 1 } else { 0 } }

pub struct Lay { pub d: DG, pub us: Seq<u32>, pub nd: IMap<u32, (u32, int)>, pub grp: Map<u32, int> }
impl Lay {
  pub open spec fn ok(self) -> bool { layout(self.d, self.us, self.nd, self.grp) }
  pub open spec fn pos(self, i: u32, t: int) -> bool { posn(self.d, self.nd, i, t) }
  pub open spec fn at(self, i: u32) -> int { self.nd[i].1 }
  pub open spec fn is(self, i: u32) -> bool { self.pos(i, self.at(i)) }
}
pub open spec fn sib_right(l: Lay, gu: Seq<GuideUnit>, i: u32) -> bool { gu[i as int].Sibling == lbl(l.d, later(l.d, l.at(i))) }
pub open spec fn child_right(l: Lay, gu: Seq<GuideUnit>, i: u32) -> bool { gu[i as int].Child == lbl(l.d, first(l.d, l.at(i))) }
// ---- during construction: fx are the fixed marks
pub open spec fn kid_fixed(l: Lay, gu: Seq<GuideUnit>, fx: Seq<u8>, i: u32, c: u8) -> bool {
  c != 0 && follows(l.us, i, c) ==> bit8(fx, nx(l.us, i, c)) && sib_right(l, gu, nx(l.us, i, c))
}
pub open spec fn complete(l: Lay, gu: Seq<GuideUnit>, fx: Seq<u8>, i: u32) -> bool {
  l.is(i) && child_right(l, gu, i) && forall|c: u8| #[trigger] kid_fixed(l, gu, fx, i, c)
}
pub open spec fn unit_fine(l: Lay, gu: Seq<GuideUnit>, fx: Seq<u8>, i: u32) -> bool {
  (bit8(fx, i) || gu[i as int].Child == 0) && (gu[i as int].Sibling == 0 || sib_right(l, gu, i))
}
pub open spec fn gfine(l: Lay, gu: Seq<GuideUnit>, fx: Seq<u8>) -> bool {
  &&& gu.len() == l.us.len() && fx.len() == l.us.len() / 8 && l.us.len() % 256 == 0 && l.us.len() < MAXLEN
  &&& forall|i: u32| i < l.us.len() ==> #[trigger] unit_fine(l, gu, fx, i)
}
pub open spec fn gkeep(l: Lay, gu: Seq<GuideUnit>, fx: Seq<u8>, gv: Seq<GuideUnit>, fy: Seq<u8>, i: u32) -> bool {
  &&& bit8(fx, i) ==> bit8(fy, i) && gv[i as int].Child == gu[i as int].Child
  &&& sib_right(l, gu, i) ==> sib_right(l, gv, i)
}
pub open spec fn gmono(l: Lay, gu: Seq<GuideUnit>, fx: Seq<u8>, gv: Seq<GuideUnit>, fy: Seq<u8>) -> bool {
  forall|i: u32| i < l.us.len() ==> #[trigger] gkeep(l, gu, fx, gv, fy, i)
}
pub open spec fn gnew(l: Lay, fx: Seq<u8>, gv: Seq<GuideUnit>, fy: Seq<u8>, x: u32, i: u32) -> bool { bit8(fy, i) ==> bit8(fx, i) || i == x || complete(l, gv, fy, i) }
// everything marked since fx, except x itself, is complete
pub open spec fn gfill(l: Lay, fx: Seq<u8>, gv: Seq<GuideUnit>, fy: Seq<u8>, x: u32) -> bool {
  forall|i: u32| i < l.us.len() ==> #[trigger] gnew(l, fx, gv, fy, x, i)
}
pub proof fn complete_keep(l: Lay, gu: Seq<GuideUnit>, fx: Seq<u8>, gv: Seq<GuideUnit>, fy: Seq<u8>, i: u32)
  requires l.ok(), gmono(l, gu, fx, gv, fy), complete(l, gu, fx, i), bit8(fx, i)
  ensures complete(l, gv, fy, i)
{
  lay_step(l.d, l.us, l.nd, l.grp, i, l.at(i), 0);
  assert(gkeep(l, gu, fx, gv, fy, i));
  assert forall|c: u8| #[trigger] kid_fixed(l, gv, fy, i, c) by {
    lay_step(l.d, l.us, l.nd, l.grp, i, l.at(i), c);
    assert(kid_fixed(l, gu, fx, i, c));
    assert(gkeep(l, gu, fx, gv, fy, nx(l.us, i, c)));
  }
}
// ---- the finished guide: from the root on, every position carries the labels of its first child and next sibling
pub open spec fn guide_at(l: Lay, gu: Seq<GuideUnit>, vis: IMap<u32, bool>, i: u32) -> bool {
  &&& l.is(i) && child_right(l, gu, i) && sib_right(l, gu, i)
  &&& forall|c: u8| c != 0 && #[trigger] follows(l.us, i, c) ==> vis.contains_key(nx(l.us, i, c))
}
#[verifier::opaque]
pub open spec fn guides(l: Lay, gu: Seq<GuideUnit>, vis: IMap<u32, bool>) -> bool {
  &&& l.ok() && gu.len() == l.us.len() && l.d.len() > 1 && vis.contains_key(0)
  &&& forall|i: u32| #[trigger] vis.contains_key(i) ==> guide_at(l, gu, vis, i)
}
pub open spec fn guided(d: DG, us: Seq<u32>, gu: Seq<GuideUnit>) -> bool {
  if d.len() <= 1 { lays(d, us) && gu.len() == 0 } else { exists|l: Lay, vis: IMap<u32, bool>| l.d == d && l.us == us && #[trigger] guides(l, gu, vis) }
}
@end
@ghostfield GuideBuilder lay: Ghost<Option<Lay>> = Ghost(None)
@raw
pub open spec fn gbl(g: GuideBuilder) -> Lay { g.lay@->0 }
pub open spec fn gbok(g: GuideBuilder) -> bool {
  &&& g.lay@ is Some && gbl(g).ok() && gbl(g).d == dgd(g.dawg) && gbl(g).us == g.dict.units@ && g.dict.size == g.dict.units@.len() && gbl(g).d.len() > 1
  &&& gfine(gbl(g), g.units@, g.isFixedTable@)
}
pub open spec fn gbframe(g: GuideBuilder, h: GuideBuilder) -> bool { h == (GuideBuilder { units: h.units, isFixedTable: h.isFixedTable, ..g }) }
pub open spec fn the_lay(d: DG, us: Seq<u32>) -> Lay { choose|l: Lay| l.d == d && l.us == us && #[trigger] l.ok() }
pub proof fn the_lay_ok(d: DG, us: Seq<u32>)
  requires lays(d, us)
  ensures ({ let l = the_lay(d, us); l.ok() && l.d == d && l.us == us })
{
  let (nd, grp) = choose|nd: IMap<u32, (u32, int)>, grp: Map<u32, int>| #[trigger] layout(d, us, nd, grp);
  assert(Lay { d, us, nd, grp }.ok());
}
@end
@fn GuideBuilder.isFixed
@requires index / 8 < self.isFixedTable@.len()
@ensures r == bit8(self.isFixedTable@, index)
@end
@fn GuideBuilder.setIsFixed
@requires index / 8 < old(self).isFixedTable@.len()
@ensures *final(self) == (GuideBuilder { isFixedTable: final(self).isFixedTable, ..*old(self) }), final(self).isFixedTable@.len() == old(self).isFixedTable@.len(),
  forall|j: u32| j / 8 < old(self).isFixedTable@.len() ==> #[trigger] bit8(final(self).isFixedTable@, j) == (bit8(old(self).isFixedTable@, j) || j == index)
@at exit
  proof { assert forall|j: u32| j / 8 < old(self).isFixedTable@.len() implies #[trigger] bit8(self.isFixedTable@, j) == (bit8(old(self).isFixedTable@, j) || j == index) by { bit8_set(old(self).isFixedTable@, index, j); } }
@end
@raw
pub proof fn first_in(d: DG, t: int)
  requires dwf(d), d.len() > 1, 0 <= t < d.len(), !d.leaf(t)
  ensures ({ let g = d.child(t); let f = first(d, t); start(d, g) && gend(d, g) < d.len() && (t != 0 ==> gend(d, g) < t) && (f != 0 ==> in_group(d, g, f)) && forall|u: int| #[trigger] in_group(d, g, u) ==> if f != 0 && u >= f { !d.leaf(u) } else { u == g && d.leaf(u) } })
{
  let g = d.child(t);
  if t != 0 { pwf_at(d, t); }
  pwf_at(d, g); gend_bounds(d, g); scan_props(d, g, 0);
  if d.sib(g) { gend_bounds(d, g + 1); }
  assert forall|u: int| #[trigger] in_group(d, g, u) implies (if first(d, t) != 0 && u >= first(d, t) { !d.leaf(u) } else { u == g && d.leaf(u) }) by { group_member(d, g, u); assert(u > g ==> d.label[g] < d.label[u]); }
}
// a byte leads from x to the member that carries it
pub proof fn kid_in(d: DG, t: int, c: u8)
  requires dwf(d), d.len() > 1, 0 <= t < d.len(), !d.leaf(t), c != 0, kid(d, t, c) is Some
  ensures ({ let u = kid(d, t, c)->0; in_group(d, d.child(t), u) && d.label[u] == c && first(d, t) != 0 && u >= first(d, t) })
{ first_in(d, t); scan_props(d, d.child(t), c); gend_bounds(d, d.child(t)); }
pub proof fn in_kid(d: DG, t: int, u: int)
  requires dwf(d), d.len() > 1, 0 <= t < d.len(), !d.leaf(t), in_group(d, d.child(t), u)
  ensures kid(d, t, d.label[u]) == Some(u), later(d, u) == (if u < gend(d, d.child(t)) { u + 1 } else { 0 }), 0 < u < d.len()
{ first_in(d, t); group_member(d, d.child(t), u); }

pub open spec fn upto(l: Lay, gu: Seq<GuideUnit>, fx: Seq<u8>, x: u32, n: int) -> bool {
  forall|u: int| first(l.d, l.at(x)) <= u < n ==> kid_fixed(l, gu, fx, x, #[trigger] l.d.label[u])
}
pub proof fn fill_keep(l: Lay, f0: Seq<u8>, gu: Seq<GuideUnit>, fx: Seq<u8>, gv: Seq<GuideUnit>, fy: Seq<u8>, x: u32)
  requires l.ok(), gfill(l, f0, gu, fx, x), gmono(l, gu, fx, gv, fy), forall|i: u32| i < l.us.len() && #[trigger] bit8(fy, i) ==> bit8(fx, i) || complete(l, gv, fy, i)
  ensures gfill(l, f0, gv, fy, x)
{
  assert forall|i: u32| i < l.us.len() implies #[trigger] gnew(l, f0, gv, fy, x, i) by {
    assert(gnew(l, f0, gu, fx, x, i));
    if bit8(fy, i) && bit8(fx, i) && !bit8(f0, i) && i != x { complete_keep(l, gu, fx, gv, fy, i); }
  }
}
pub proof fn upto_keep(l: Lay, gu: Seq<GuideUnit>, fx: Seq<u8>, gv: Seq<GuideUnit>, fy: Seq<u8>, x: u32, n: int)
  requires l.ok(), l.is(x), gmono(l, gu, fx, gv, fy), upto(l, gu, fx, x, n)
  ensures upto(l, gv, fy, x, n)
{
  assert forall|u: int| first(l.d, l.at(x)) <= u < n implies kid_fixed(l, gv, fy, x, #[trigger] l.d.label[u]) by {
    let c = l.d.label[u];
    lay_step(l.d, l.us, l.nd, l.grp, x, l.at(x), c);
    assert(kid_fixed(l, gu, fx, x, c));
    assert(gkeep(l, gu, fx, gv, fy, nx(l.us, x, c)));
  }
}
pub open spec fn sib_put(gu: Seq<GuideUnit>, gv: Seq<GuideUnit>, j: u32, v: u8) -> bool { gv =~= gu.update(j as int, GuideUnit { Sibling: v, ..gu[j as int] }) }
pub proof fn put_sib(l: Lay, gu: Seq<GuideUnit>, fx: Seq<u8>, gv: Seq<GuideUnit>, j: u32)
  requires l.ok(), gfine(l, gu, fx), j < l.us.len(), sib_put(gu, gv, j, lbl(l.d, later(l.d, l.at(j)))) || (gv == gu && later(l.d, l.at(j)) == 0)
  ensures gfine(l, gv, fx), gmono(l, gu, fx, gv, fx), sib_right(l, gv, j)
{
  assert(unit_fine(l, gu, fx, j));
  assert forall|i: u32| i < l.us.len() implies #[trigger] unit_fine(l, gv, fx, i) by { assert(unit_fine(l, gu, fx, i)); }
  assert forall|i: u32| i < l.us.len() implies #[trigger] gkeep(l, gu, fx, gv, fx, i) by { }
}
pub proof fn mono_trans(l: Lay, gu: Seq<GuideUnit>, fx: Seq<u8>, gv: Seq<GuideUnit>, fy: Seq<u8>, gw: Seq<GuideUnit>, fz: Seq<u8>)
  requires gmono(l, gu, fx, gv, fy), gmono(l, gv, fy, gw, fz)
  ensures gmono(l, gu, fx, gw, fz)
{ assert forall|i: u32| i < l.us.len() implies #[trigger] gkeep(l, gu, fx, gw, fz, i) by { assert(gkeep(l, gu, fx, gv, fy, i)); assert(gkeep(l, gv, fy, gw, fz, i)); } }
// x has been marked (and given its child)
pub proof fn mark(l: Lay, gu: Seq<GuideUnit>, fx: Seq<u8>, gv: Seq<GuideUnit>, fy: Seq<u8>, x: u32)
  requires l.ok(), l.is(x), gfine(l, gu, fx), x < l.us.len(), !bit8(fx, x), fy.len() == fx.len(), forall|j: u32| j / 8 < fx.len() ==> #[trigger] bit8(fy, j) == (bit8(fx, j) || j == x),
    gv =~= gu.update(x as int, GuideUnit { Child: lbl(l.d, first(l.d, l.at(x))), ..gu[x as int] })
  ensures gfine(l, gv, fy), gmono(l, gu, fx, gv, fy), gfill(l, fx, gv, fy, x), child_right(l, gv, x), bit8(fy, x)
{
  assert forall|i: u32| i < l.us.len() implies #[trigger] unit_fine(l, gv, fy, i) by { assert(unit_fine(l, gu, fx, i)); assert(i / 8 < fx.len()); assert(bit8(fy, i) == (bit8(fx, i) || i == x)); }
  assert forall|i: u32| i < l.us.len() implies #[trigger] gkeep(l, gu, fx, gv, fy, i) by { assert(i / 8 < fx.len()); assert(bit8(fy, i) == (bit8(fx, i) || i == x)); }
  assert forall|i: u32| i < l.us.len() implies #[trigger] gnew(l, fx, gv, fy, x, i) by { assert(i / 8 < fx.len()); assert(bit8(fy, i) == (bit8(fx, i) || i == x)); }
}
// all kids of x done
pub proof fn all_done(l: Lay, f0: Seq<u8>, gu: Seq<GuideUnit>, fx: Seq<u8>, x: u32)
  requires l.ok(), l.d.len() > 1, l.is(x), child_right(l, gu, x), gfill(l, f0, gu, fx, x), first(l.d, l.at(x)) == 0 || upto(l, gu, fx, x, gend(l.d, l.d.child(l.at(x))) + 1)
  ensures complete(l, gu, fx, x), forall|i: u32| i < l.us.len() && #[trigger] bit8(fx, i) ==> bit8(f0, i) || complete(l, gu, fx, i)
{
  let t = l.at(x);
  lay_is(l, x);
  assert forall|c: u8| #[trigger] kid_fixed(l, gu, fx, x, c) by {
    lay_step(l.d, l.us, l.nd, l.grp, x, t, c);
    if c != 0 && follows(l.us, x, c) { kid_in(l.d, t, c); let u = kid(l.d, t, c)->0; assert(l.d.label[u] == c); }
  }
  assert forall|i: u32| i < l.us.len() && #[trigger] bit8(fx, i) implies bit8(f0, i) || complete(l, gu, fx, i) by { assert(gnew(l, f0, gu, fx, x, i)); }
}
pub proof fn lay_is(l: Lay, x: u32)
  requires l.ok(), l.is(x)
  ensures x < l.us.len(), dwf(l.d), 0 <= l.at(x) < l.d.len(), !l.d.leaf(l.at(x)), node(l.us, x), l.us.len() % 256 == 0, 0 < l.us.len() < MAXLEN, l.is(0), l.at(0) == 0, l.at(x) == 0 ==> x == 0
{
  lay_posn_node(l.d, l.us, l.nd, l.grp, x, l.at(x));
  lay_root(l.d, l.us, l.nd, l.grp);
  assert(lay_node(l.d, l.us, l.nd, l.grp, x) && l.us.len() % 256 == 0 && 0 < l.us.len() < MAXLEN) by { reveal(layout); }
}
@end
@fn GuideBuilder.buildIndices
@requires gbok(*old(self)), gbl(*old(self)).pos(dictIndex, dawgIndex as int)
@ensures r, gbok(*final(self)), gbframe(*old(self), *final(self)), 
  gmono(gbl(*old(self)), old(self).units@, old(self).isFixedTable@, final(self).units@, final(self).isFixedTable@),
  bit8(final(self).isFixedTable@, dictIndex),
  forall|i: u32| i < gbl(*old(self)).us.len() && #[trigger] bit8(final(self).isFixedTable@, i) ==> bit8(old(self).isFixedTable@, i) || complete(gbl(*old(self)), final(self).units@, final(self).isFixedTable@, i)
@decreases (if dawgIndex == 0 { dgd(old(self).dawg).len() } else { dawgIndex as int })
@at entry
  hide(gmono); hide(gfill); hide(gfine); hide(complete); hide(follows); hide(nx); hide(gend); hide(upto);
  let ghost s0 = *self;
  let ghost l = gbl(s0);
  let ghost d = l.d;
  let ghost t = dawgIndex as int;
  let ghost g = d.child(t);
  let ghost f = first(d, t);
  proof { lay_is(l, dictIndex); first_in(d, t); reveal(gfine); pwf_at(d, g); gend_bounds(d, g); assert(dgd(s0.dawg).label[0] != 0); }
@at return 1
  proof { reveal(gmono); }
@at after call setIsFixed 1
  let ghost s1 = *self;
@at return 2
  proof {
    assert(self.units@ =~= s0.units@.update(dictIndex as int, GuideUnit { Child: 0, ..s0.units@[dictIndex as int] })) by { assert(unit_fine(l, s0.units@, s0.isFixedTable@, dictIndex)); }
    mark(l, s0.units@, s0.isFixedTable@, self.units@, self.isFixedTable@, dictIndex);
    all_done(l, s0.isFixedTable@, self.units@, self.isFixedTable@, dictIndex);
  }
@at before loop 1
  proof {
    mark(l, s0.units@, s0.isFixedTable@, self.units@, self.isFixedTable@, dictIndex);
    reveal(upto);
  }
@loop 1
  invariant f != 0, f <= dawgChildIndex <= gend(d, g), in_group(d, g, dawgChildIndex as int), gbok(*self), gbframe(s0, *self), gmono(l, s0.units@, s0.isFixedTable@, self.units@, self.isFixedTable@),
    bit8(self.isFixedTable@, dictIndex), child_right(l, self.units@, dictIndex), gfill(l, s0.isFixedTable@, self.units@, self.isFixedTable@, dictIndex), upto(l, self.units@, self.isFixedTable@, dictIndex, dawgChildIndex as int)
  decreases gend(d, g) - dawgChildIndex
@at begin 1
  let ghost a = *self;
  let ghost u = dawgChildIndex as int;
  let ghost j = nx(l.us, dictIndex, d.label[u]);
  proof { in_kid(d, t, u); lay_step(d, l.us, l.nd, l.grp, dictIndex, t, d.label[u]); lay_is(l, j); }
@at after call buildIndices 1
  let ghost b = *self;
  proof {
    fill_keep(l, s0.isFixedTable@, a.units@, a.isFixedTable@, b.units@, b.isFixedTable@, dictIndex);
    upto_keep(l, a.units@, a.isFixedTable@, b.units@, b.isFixedTable@, dictIndex, u);
    mono_trans(l, s0.units@, s0.isFixedTable@, a.units@, a.isFixedTable@, b.units@, b.isFixedTable@);
    assert(gkeep(l, a.units@, a.isFixedTable@, b.units@, b.isFixedTable@, dictIndex)) by { reveal(gmono); }
    reveal(gfine);
  }
@at before assign dawgChildIndex 2
  proof {
    let c = *self;
    put_sib(l, b.units@, b.isFixedTable@, c.units@, j);
    fill_keep(l, s0.isFixedTable@, b.units@, b.isFixedTable@, c.units@, c.isFixedTable@, dictIndex);
    upto_keep(l, b.units@, b.isFixedTable@, c.units@, c.isFixedTable@, dictIndex, u);
    mono_trans(l, s0.units@, s0.isFixedTable@, b.units@, b.isFixedTable@, c.units@, c.isFixedTable@);
    assert(upto(l, c.units@, c.isFixedTable@, dictIndex, u + 1)) by {
      reveal(upto);
      assert forall|v: int| f <= v < u + 1 implies kid_fixed(l, c.units@, c.isFixedTable@, dictIndex, #[trigger] d.label[v]) by { }
    }
    if later(d, u) == 0 { all_done(l, s0.isFixedTable@, c.units@, c.isFixedTable@, dictIndex); }
  }
@end
@fn GuideBuilder.Build
@requires dwf(dgd(old(self).dawg)), lays(dgd(old(self).dawg), old(self).dict.units@), old(self).dict.size == old(self).dict.units@.len(), old(self).guide.units@.len() == 0, old(self).guide.size == 0
@ensures r, guided(dgd(old(self).dawg), old(self).dict.units@, final(self).guide.units@), final(self).guide.size == final(self).guide.units@.len()
@at entry
  let ghost us = self.dict.units@;
  let ghost d = dgd(self.dawg);
  let ghost l = the_lay(d, us);
  proof { the_lay_ok(d, us); lay_root(d, us, l.nd, l.grp); lay_is(l, 0); }
@at before call buildIndices 1
  self.lay = Ghost(Some(l));
  let ghost s0 = *self;
  proof {
    assert forall|i: u32| i < us.len() implies #[trigger] unit_fine(l, self.units@, self.isFixedTable@, i) by { }
  }
@at after call buildIndices 1
  proof { finish_guide(l, s0.isFixedTable@, self.units@, self.isFixedTable@); }
@end
@raw
pub proof fn finish_guide(l: Lay, f0: Seq<u8>, gu: Seq<GuideUnit>, fx: Seq<u8>)
  requires l.ok(), l.d.len() > 1, gfine(l, gu, fx), bit8(fx, 0), l.is(0), forall|i: u32| #[trigger] f0[(i / 8) as int] == 0 || i / 8 >= f0.len(), f0.len() == fx.len(),
    forall|i: u32| i < l.us.len() && #[trigger] bit8(fx, i) ==> bit8(f0, i) || complete(l, gu, fx, i)
  ensures guided(l.d, l.us, gu)
{
  lay_is(l, 0);
  let all = IMap::<u32, bool>::new(|i: u32| i < l.us.len() && bit8(fx, i) && sib_right(l, gu, i), |i: u32| true);
  assert forall|i: u32| i < l.us.len() && #[trigger] bit8(fx, i) implies complete(l, gu, fx, i) by {
    assert(f0[(i / 8) as int] == 0);
    let m = (i % 8) as u8;
    assert(0u8 & (1u8 << m) == 0) by(bit_vector);
  }
  assert(unit_fine(l, gu, fx, 0));
  assert(guides(l, gu, all)) by {
    reveal(guides);
    assert forall|i: u32| #[trigger] all.contains_key(i) implies guide_at(l, gu, all, i) by {
      assert forall|c: u8| c != 0 && #[trigger] follows(l.us, i, c) implies all.contains_key(nx(l.us, i, c)) by { assert(kid_fixed(l, gu, fx, i, c)); lay_step(l.d, l.us, l.nd, l.grp, i, l.at(i), c); }
    }
  }
}
@end
@share GuideBuilder.Build: gb.units -- the builder writes nothing after handing its units over
@fn BuildGuide
@requires dwf(dgd(*dawg)), lays(dgd(*dawg), dict.units@), dict.size == dict.units@.len()
@ensures r is Some, guided(dgd(*dawg), dict.units@, r->0.units@), r->0.size == r->0.units@.len()
@end
