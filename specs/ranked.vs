@raw
// ---------------------------------------------------------------- the ranked guide
// the greatest value below a transition, and below the transitions of a group from u on
pub open spec fn best(d: DG, t: int) -> i32
  decreases rank(d, t), 0int, 0int
{ if d.leaf(t) { d.val(t) } else if 0 <= t < d.len() && 0 < d.child(t) < d.len() && d.child(t) <= gend(d, d.child(t)) < rank(d, t) { gbest(d, d.child(t)) } else { -1i32 } }
pub open spec fn gbest(d: DG, u: int) -> i32
  decreases gend(d, u), d.len() - u, 1int
{
  if !(0 < u <= gend(d, u) && u < d.len()) { -1i32 }
  else { let b = best(d, u); let r = if u + 1 < d.len() && d.sib(u) { gbest(d, u + 1) } else { -1i32 }; if b >= r { b } else { r } }
}
pub open spec fn before(d: DG, u: int, v: int) -> bool { best(d, u) > best(d, v) || (best(d, u) == best(d, v) && u < v) }
// the transitions of the group g, by rank
pub open spec fn is_chain(d: DG, g: int, s: Seq<int>) -> bool {
  &&& forall|k: int| 0 <= k < s.len() ==> in_group(d, g, #[trigger] s[k])
  &&& forall|u: int| #[trigger] in_group(d, g, u) ==> s.contains(u)
  &&& forall|k: int, m: int| 0 <= k < m < s.len() ==> before(d, #[trigger] s[k], #[trigger] s[m])
}
pub open spec fn chn(d: DG, g: int) -> Seq<int> { choose|s: Seq<int>| is_chain(d, g, s) }
pub open spec fn has_chain(d: DG, g: int) -> bool { is_chain(d, g, chn(d, g)) }
pub proof fn chain_same(d: DG, g: int, s: Seq<int>, r: Seq<int>, n: int)
  requires is_chain(d, g, s), is_chain(d, g, r), 0 <= n <= s.len(), n <= r.len()
  ensures forall|k: int| 0 <= k < n ==> s[k] == r[k]
  decreases n
{
  if n > 0 {
    let k = n - 1;
    chain_same(d, g, s, r, k);
    assert(in_group(d, g, s[k]) && in_group(d, g, r[k]));
    let a = choose|a: int| 0 <= a < r.len() && r[a] == s[k];
    let b = choose|b: int| 0 <= b < s.len() && s[b] == r[k];
    assert(a >= k) by { if a < k { assert(s[a] == r[a]); assert(before(d, s[a], s[k])); } }
    assert(b >= k) by { if b < k { assert(s[b] == r[b]); assert(before(d, r[b], r[k])); } }
    if a > k && b > k { assert(before(d, r[k], r[a])); assert(before(d, s[k], s[b])); }
  }
}
pub proof fn chain_unique(d: DG, g: int, s: Seq<int>)
  requires is_chain(d, g, s)
  ensures has_chain(d, g), chn(d, g) == s
{
  let r = chn(d, g);
  if s.len() <= r.len() {
    chain_same(d, g, s, r, s.len() as int);
    if s.len() < r.len() { let n = s.len() as int; assert(in_group(d, g, r[n])); let a = choose|a: int| 0 <= a < s.len() && s[a] == r[n]; assert(s[a] == r[a]); assert(before(d, r[a], r[n])); }
  } else {
    chain_same(d, g, s, r, r.len() as int);
    let n = r.len() as int; assert(in_group(d, g, s[n])); let a = choose|a: int| 0 <= a < r.len() && r[a] == s[n]; assert(s[a] == r[a]); assert(before(d, s[a], s[n]));
  }
  assert(s =~= r);
}
// the group of a transition; the transition after t, and the first one below t, by rank; 0: none
pub open spec fn gof(d: DG, t: int) -> int
  decreases t
{ if t > 1 && d.sib(t - 1) { gof(d, t - 1) } else { t } }
pub open spec fn rnext(d: DG, t: int) -> int { let s = chn(d, gof(d, t)); let k = s.index_of(t); if k + 1 < s.len() { s[k + 1] } else { 0 } }
pub open spec fn rfirst(d: DG, t: int) -> int { chn(d, d.child(t))[0] }
pub proof fn gof_is(d: DG, g: int, t: int)
  requires pwf(d), start(d, g), in_group(d, g, t)
  ensures gof(d, t) == g
  decreases t - g
{ if t > g { group_member(d, g, t - 1); gof_is(d, g, t - 1); } }
pub proof fn chain_at(d: DG, g: int, k: int)
  requires pwf(d), start(d, g), has_chain(d, g), 0 <= k < chn(d, g).len()
  ensures ({ let s = chn(d, g); in_group(d, g, s[k]) && s.index_of(s[k]) == k && gof(d, s[k]) == g && rnext(d, s[k]) == (if k + 1 < s.len() { s[k + 1] } else { 0 }) })
{
  let s = chn(d, g);
  gof_is(d, g, s[k]);
  assert(s.contains(s[k]));
  let j = s.index_of(s[k]);
  assert(0 <= j < s.len() && s[j] == s[k]);
  if j < k { assert(before(d, s[j], s[k])); }
  if j > k { assert(before(d, s[k], s[j])); }
}
pub proof fn gbest_max(d: DG, g: int, u: int)
  requires pwf(d), in_group(d, g, u)
  ensures best(d, u) <= gbest(d, g)
  decreases u - g
{ gend_bounds(d, g); pwf_at(d, g); group_member(d, g, u); if u > g { gbest_max(d, g + 1, u); } }
pub proof fn gbest_some(d: DG, g: int) -> (u: int)
  requires pwf(d), 0 < g < d.len()
  ensures in_group(d, g, u), best(d, u) == gbest(d, g)
  decreases d.len() - g
{
  gend_bounds(d, g); pwf_at(d, g); best_pos(d, g);
  if d.sib(g) { let w = gbest_some(d, g + 1); if best(d, g) >= gbest(d, g + 1) { g } else { w } } else { g }
}
pub proof fn best_pos(d: DG, t: int)
  requires pwf(d), 0 < t < d.len()
  ensures best(d, t) >= 0
  decreases t
{
  pwf_at(d, t);
  if d.leaf(t) { bval_pos(d.base[t]); } else { let g = d.child(t); gend_bounds(d, g); best_pos(d, g); }
}
pub proof fn best_is(d: DG, t: int)
  requires tw(d, t)
  ensures best(d, t) == gbest(d, d.child(t)), start(d, d.child(t)), gend(d, d.child(t)) < rank(d, t), gend(d, d.child(t)) < d.len()
{ first_in(d, t); gend_bounds(d, d.child(t)); }
// the first of a chain has the greatest value
pub proof fn chain_best(d: DG, t: int)
  requires tw(d, t), has_chain(d, d.child(t))
  ensures ({ let s = chn(d, d.child(t)); s.len() > 0 && best(d, s[0]) == best(d, t) && rfirst(d, t) == s[0] && in_group(d, d.child(t), s[0]) })
{
  let g = d.child(t); let s = chn(d, g);
  best_is(d, t);
  let u = gbest_some(d, g);
  assert(s.contains(u));
  let k = choose|k: int| 0 <= k < s.len() && s[k] == u;
  if k > 0 { assert(before(d, s[0], s[k])); }
  gbest_max(d, g, s[0]);
}
// ---- in the units
pub open spec fn rsib(l: Lay, gu: Seq<GuideUnit>, i: u32) -> bool { gu[i as int].Sibling == lbl(l.d, rnext(l.d, l.at(i))) }
pub open spec fn rch(l: Lay, gu: Seq<GuideUnit>, i: u32) -> bool { has_chain(l.d, l.d.child(l.at(i))) && gu[i as int].Child == lbl(l.d, rfirst(l.d, l.at(i))) }
pub open spec fn rkid(l: Lay, gu: Seq<GuideUnit>, fx: Seq<u8>, i: u32, c: u8) -> bool {
  kid(l.d, l.at(i), c) is Some ==> rsib(l, gu, nx(l.us, i, c)) && (c != 0 ==> bit8(fx, nx(l.us, i, c)))
}
pub open spec fn rdone(l: Lay, gu: Seq<GuideUnit>, fx: Seq<u8>, i: u32) -> bool {
  l.is(i) && rch(l, gu, i) && forall|c: u8| #[trigger] rkid(l, gu, fx, i, c)
}
pub open spec fn runit(l: Lay, gu: Seq<GuideUnit>, fx: Seq<u8>, i: u32) -> bool {
  (bit8(fx, i) || gu[i as int].Child == 0) && (gu[i as int].Sibling == 0 || rsib(l, gu, i))
}
pub open spec fn rfine(l: Lay, gu: Seq<GuideUnit>, fx: Seq<u8>) -> bool {
  &&& gu.len() == l.us.len() && fx.len() == l.us.len() / 8 && l.us.len() % 256 == 0 && l.us.len() < MAXLEN
  &&& forall|i: u32| i < l.us.len() ==> #[trigger] runit(l, gu, fx, i)
}
pub open spec fn rkeep(l: Lay, gu: Seq<GuideUnit>, fx: Seq<u8>, gv: Seq<GuideUnit>, fy: Seq<u8>, i: u32) -> bool {
  &&& bit8(fx, i) ==> bit8(fy, i) && gv[i as int].Child == gu[i as int].Child
  &&& rsib(l, gu, i) ==> rsib(l, gv, i)
}
pub open spec fn rmono(l: Lay, gu: Seq<GuideUnit>, fx: Seq<u8>, gv: Seq<GuideUnit>, fy: Seq<u8>) -> bool {
  forall|i: u32| i < l.us.len() ==> #[trigger] rkeep(l, gu, fx, gv, fy, i)
}
// everything marked since fx is done
pub open spec fn rnew(l: Lay, fx: Seq<u8>, gv: Seq<GuideUnit>, fy: Seq<u8>) -> bool {
  forall|i: u32| i < l.us.len() && #[trigger] bit8(fy, i) ==> bit8(fx, i) || rdone(l, gv, fy, i)
}
// everything marked with a rank below n is done
pub open spec fn rdeep(l: Lay, gu: Seq<GuideUnit>, fx: Seq<u8>, n: int) -> bool {
  forall|i: u32| i < l.us.len() && #[trigger] bit8(fx, i) && rank(l.d, l.at(i)) < n ==> rdone(l, gu, fx, i)
}
// where a step leads, leaves included
pub proof fn lay_kid(l: Lay, i: u32, c: u8)
  requires l.ok(), l.is(i), l.d.len() > 1
  ensures ({ let t = l.at(i); let j = nx(l.us, i, c); 
    &&& j < l.us.len() && i < l.us.len()
    &&& (kid(l.d, t, c) matches Some(u) ==> l.at(j) == u && in_group(l.d, l.d.child(t), u) && l.d.label[u] == c && (c == 0 ==> u == l.d.child(t) && hasleaf(l.us[i as int]) && leafval(l.us, i) == l.d.val(u) && (l.us[j as int] & 0x7fff_ffff) as i32 == l.d.val(u)) && (c != 0 ==> l.is(j) && follows(l.us, i, c)))
    &&& (c != 0 && follows(l.us, i, c) ==> kid(l.d, t, c) is Some)
    &&& (c == 0 && hasleaf(l.us[i as int]) ==> kid(l.d, t, c) is Some) })
{
  let d = l.d; let t = l.at(i); let us = l.us; let j = nx(us, i, c); let g = d.child(t);
  lay_is(l, i);
  first_in(d, t);
  lay_step(d, us, l.nd, l.grp, i, t, c);
  scan_props(d, g, c);
  gend_bounds(d, g);
  assert(nx(us, i, 0) == i ^ off(us[i as int])) by { nx_range(us, i, 0); }
  if c == 0 && kid(d, t, 0) is Some {
    let u = kid(d, t, 0)->0;
    assert(in_group(d, g, u));
    let ob = i ^ off(us[i as int]);
    assert(l.at(j) == u && us[j as int] == leafunit(d.val(u))) by {
      reveal(layout);
      assert(lay_node(d, us, l.nd, l.grp, i));
      assert(lay_grp(d, us, l.nd, l.grp, ob));
      assert(lay_member(d, l.nd, ob, u));
      xor_facts(ob, ob, 0);
      assert(memb(d, ob, u) == ob);
      assert(lay_node(d, us, l.nd, l.grp, ob));
    }
    bval_pos(d.base[u]); leaf_props(d.val(u));
  }
}
pub proof fn rdone_keep(l: Lay, gu: Seq<GuideUnit>, fx: Seq<u8>, gv: Seq<GuideUnit>, fy: Seq<u8>, i: u32)
  requires l.ok(), l.d.len() > 1, rmono(l, gu, fx, gv, fy), rdone(l, gu, fx, i), bit8(fx, i)
  ensures rdone(l, gv, fy, i)
{
  lay_kid(l, i, 0);
  assert(rkeep(l, gu, fx, gv, fy, i));
  assert forall|c: u8| #[trigger] rkid(l, gv, fy, i, c) by {
    lay_kid(l, i, c);
    assert(rkid(l, gu, fx, i, c));
    assert(rkeep(l, gu, fx, gv, fy, nx(l.us, i, c)));
  }
}
pub proof fn rmono_trans(l: Lay, gu: Seq<GuideUnit>, fx: Seq<u8>, gv: Seq<GuideUnit>, fy: Seq<u8>, gw: Seq<GuideUnit>, fz: Seq<u8>)
  requires rmono(l, gu, fx, gv, fy), rmono(l, gv, fy, gw, fz)
  ensures rmono(l, gu, fx, gw, fz)
{ assert forall|i: u32| i < l.us.len() implies #[trigger] rkeep(l, gu, fx, gw, fz, i) by { assert(rkeep(l, gu, fx, gv, fy, i)); assert(rkeep(l, gv, fy, gw, fz, i)); } }
pub proof fn rnew_trans(l: Lay, f0: Seq<u8>, gu: Seq<GuideUnit>, fx: Seq<u8>, gv: Seq<GuideUnit>, fy: Seq<u8>)
  requires l.ok(), l.d.len() > 1, rnew(l, f0, gu, fx), rmono(l, gu, fx, gv, fy), rnew(l, fx, gv, fy)
  ensures rnew(l, f0, gv, fy)
{
  assert forall|i: u32| i < l.us.len() && #[trigger] bit8(fy, i) implies bit8(f0, i) || rdone(l, gv, fy, i) by {
    if bit8(fx, i) && !bit8(f0, i) { rdone_keep(l, gu, fx, gv, fy, i); }
  }
}
pub proof fn rdeep_keep(l: Lay, gu: Seq<GuideUnit>, fx: Seq<u8>, gv: Seq<GuideUnit>, fy: Seq<u8>, n: int, m: int)
  requires l.ok(), l.d.len() > 1, rdeep(l, gu, fx, n), rmono(l, gu, fx, gv, fy), rnew(l, fx, gv, fy), m <= n
  ensures rdeep(l, gv, fy, m)
{
  assert forall|i: u32| i < l.us.len() && #[trigger] bit8(fy, i) && rank(l.d, l.at(i)) < m implies rdone(l, gv, fy, i) by {
    if bit8(fx, i) { rdone_keep(l, gu, fx, gv, fy, i); }
  }
}
// ---- the links of a group
pub open spec fn mlinks(d: DG, g: int, n: int) -> Seq<RankedGuideLink> { Seq::new((n - g) as nat, |k: int| RankedGuideLink { label: d.label[g + k], value: best(d, g + k) }) }
pub open spec fn lord(a: RankedGuideLink, b: RankedGuideLink) -> bool { a.value > b.value || (a.value == b.value && a.label < b.label) }
pub open spec fn clinks(d: DG, g: int, s: Seq<RankedGuideLink>) -> bool {
  has_chain(d, g) && s.len() == chn(d, g).len() && forall|k: int| 0 <= k < s.len() ==> (#[trigger] s[k]).label == d.label[chn(d, g)[k]] && s[k].value == best(d, chn(d, g)[k])
}
pub proof fn lord_is(d: DG, g: int, u: int, v: int)
  requires pwf(d), start(d, g), in_group(d, g, u), in_group(d, g, v)
  ensures (d.label[u] < d.label[v]) == (u < v)
{
  group_member(d, g, u); group_member(d, g, v);
  gend_bounds(d, g);
  if u < v { scan_props(d, u, 0); } else if v < u { scan_props(d, v, 0); }
}
pub proof fn sorted_chain(d: DG, g: int, m: Seq<RankedGuideLink>, s: Seq<RankedGuideLink>)
  requires pwf(d), start(d, g), m == mlinks(d, g, gend(d, g) + 1), s.to_multiset() == m.to_multiset(), sorted_from(s, 0, |x: RankedGuideLink, y: RankedGuideLink| lord(x, y))
  ensures clinks(d, g, s)
{
  broadcast use vstd::seq_lib::group_to_multiset_ensures;
  gend_bounds(d, g);
  let f = |x: RankedGuideLink| scan(d, g, x.label)->0;
  let c = Seq::new(s.len(), |k: int| f(s[k]));
  assert(s.to_multiset().len() == s.len() && m.to_multiset().len() == m.len());
  assert forall|k: int| 0 <= k < m.len() implies in_group(d, g, g + k) && f(#[trigger] m[k]) == g + k by { group_member(d, g, g + k); }
  assert forall|k: int| 0 <= k < s.len() implies m.contains(#[trigger] s[k]) by { assert(s.contains(s[k])); assert(s.to_multiset().count(s[k]) > 0); }
  assert forall|k: int| 0 <= k < s.len() implies in_group(d, g, #[trigger] c[k]) && s[k].label == d.label[c[k]] && s[k].value == best(d, c[k]) by {
    assert(m.contains(s[k])); let j = choose|j: int| 0 <= j < m.len() && m[j] == s[k]; assert(f(m[j]) == g + j);
  }
  assert(m.no_duplicates()) by { assert forall|i: int, j: int| 0 <= i < m.len() && 0 <= j < m.len() && i != j implies m[i] != m[j] by { assert(f(m[i]) != f(m[j])); } }
  m.lemma_multiset_has_no_duplicates();
  assert(s.no_duplicates()) by {
    assert forall|x: RankedGuideLink| s.to_multiset().contains(x) implies #[trigger] s.to_multiset().count(x) == 1 by { assert(m.to_multiset().count(x) == 1); }
    s.lemma_multiset_has_no_duplicates_conv();
  }
  assert forall|u: int| #[trigger] in_group(d, g, u) implies c.contains(u) by {
    let x = m[u - g];
    assert(m.contains(x)); assert(m.to_multiset().count(x) > 0); assert(s.contains(x));
    let k = choose|k: int| 0 <= k < s.len() && s[k] == x; assert(f(m[u - g]) == u); assert(c[k] == u);
  }
  assert forall|k: int, j: int| 0 <= k < j < c.len() implies before(d, #[trigger] c[k], #[trigger] c[j]) by {
    lord_is(d, g, c[k], c[j]); lord_is(d, g, c[j], c[k]);
    assert(!lord(s[j], s[k]));
    assert(s[k] != s[j]);
    if s[k].value == s[j].value { assert(s[k].label != s[j].label); }
  }
  assert(is_chain(d, g, c));
  chain_unique(d, g, c);
}
@end
@ghostfield RankedGuideBuilder lay: Ghost<Option<Lay>> = Ghost(None)
@raw
pub open spec fn rgl(g: RankedGuideBuilder) -> Lay { g.lay@->0 }
pub open spec fn rgok(g: RankedGuideBuilder) -> bool {
  &&& g.lay@ is Some && rgl(g).ok() && rgl(g).d == dgd(g.dawg) && rgl(g).us == g.dict.units@ && g.dict.size == g.dict.units@.len() && rgl(g).d.len() > 1
  &&& rfine(rgl(g), g.units@, g.isFixedTable@)
}
pub open spec fn rgframe(g: RankedGuideBuilder, h: RankedGuideBuilder) -> bool { h == (RankedGuideBuilder { units: h.units, isFixedTable: h.isFixedTable, links: h.links, ..g }) }
pub open spec fn rkept(g: RankedGuideBuilder, h: RankedGuideBuilder) -> bool { rmono(rgl(g), g.units@, g.isFixedTable@, h.units@, h.isFixedTable@) && rnew(rgl(g), g.isFixedTable@, h.units@, h.isFixedTable@) }
pub open spec fn rdeepb(g: RankedGuideBuilder, n: int) -> bool { rdeep(rgl(g), g.units@, g.isFixedTable@, n) }
@end
@fn RankedGuideBuilder.isFixed
@requires index / 8 < self.isFixedTable@.len()
@ensures r == bit8(self.isFixedTable@, index)
@end
@fn RankedGuideBuilder.setIsFixed
@requires index / 8 < old(self).isFixedTable@.len()
@ensures *final(self) == (RankedGuideBuilder { isFixedTable: final(self).isFixedTable, ..*old(self) }), final(self).isFixedTable@.len() == old(self).isFixedTable@.len(),
  forall|j: u32| j / 8 < old(self).isFixedTable@.len() ==> #[trigger] bit8(final(self).isFixedTable@, j) == (bit8(old(self).isFixedTable@, j) || j == index)
@at exit
  proof { assert forall|j: u32| j / 8 < old(self).isFixedTable@.len() implies #[trigger] bit8(self.isFixedTable@, j) == (bit8(old(self).isFixedTable@, j) || j == index) by { bit8_set(old(self).isFixedTable@, index, j); } }
@end
@fn RankedGuideBuilder.findMaxValue
@requires rgok(*self), rgl(*self).is(dictIndex), bit8(self.isFixedTable@, dictIndex), rdeepb(*self, rank(rgl(*self).d, rgl(*self).at(dictIndex)) + 1)
@ensures r, *final(maxValue) == best(rgl(*self).d, rgl(*self).at(dictIndex))
@at entry
  let ghost l = rgl(*self);
  let ghost d = l.d;
  let ghost x = dictIndex;
  proof { lay_is(l, dictIndex); }
@loop 1
  invariant l.is(dictIndex), dictIndex < l.us.len(), bit8(self.isFixedTable@, dictIndex), rank(d, l.at(dictIndex)) <= rank(d, l.at(x)), best(d, l.at(dictIndex)) == best(d, l.at(x)), node(l.us, dictIndex)
  decreases rank(d, l.at(dictIndex))
@at begin 1
  let ghost i = dictIndex;
  let ghost t = l.at(i);
  proof {
    lay_is(l, i);
    assert(rdone(l, self.units@, self.isFixedTable@, i));
    chain_best(d, t); best_is(d, t); in_kid(d, t, rfirst(d, t));
    lay_kid(l, i, d.label[rfirst(d, t)]);
    assert(rkid(l, self.units@, self.isFixedTable@, i, d.label[rfirst(d, t)]));
  }
@at end 1
  proof { lay_is(l, dictIndex); }
@at after loop 1
  proof {
    let i = dictIndex; let t = l.at(i);
    lay_is(l, i);
    assert(rdone(l, self.units@, self.isFixedTable@, i));
    chain_best(d, t); best_is(d, t); in_kid(d, t, rfirst(d, t));
    lay_kid(l, i, 0);
  }
@end
@fn RankedGuideBuilder.followWithoutCheck
@requires node(self.dict.units@, index)
@ensures r == nx(self.dict.units@, index, label)
@at entry
  proof { nx_range(self.dict.units@, index, label); }
@end
@raw
pub open spec fn kids_marked(l: Lay, fx: Seq<u8>, x: u32, n: int) -> bool {
  forall|u: int| l.d.child(l.at(x)) <= u < n ==> l.d.leaf(u) || bit8(fx, nx(l.us, x, #[trigger] l.d.label[u]))
}
pub open spec fn kmarked(g: RankedGuideBuilder, x: u32, n: int) -> bool { kids_marked(rgl(g), g.isFixedTable@, x, n) }
pub proof fn kmarked_keep(g: RankedGuideBuilder, h: RankedGuideBuilder, x: u32, n: int)
  requires rgok(g), rgl(g).is(x), rgframe(g, h), kmarked(g, x, n), rkept(g, h), n <= gend(rgl(g).d, rgl(g).d.child(rgl(g).at(x))) + 1
  ensures kmarked(h, x, n)
{
  let l = rgl(g);
  lay_is(l, x); first_in(l.d, l.at(x));
  assert forall|u: int| l.d.child(l.at(x)) <= u < n implies l.d.leaf(u) || bit8(h.isFixedTable@, nx(l.us, x, #[trigger] l.d.label[u])) by {
    let j = nx(l.us, x, l.d.label[u]);
    in_kid(l.d, l.at(x), u);
    lay_kid(l, x, l.d.label[u]);
    assert(rkeep(l, g.units@, g.isFixedTable@, h.units@, h.isFixedTable@, j));
  }
}
@end
@fn RankedGuideBuilder.enumerateLinks
@requires rgok(*old(self)), rgl(*old(self)).pos(dictIndex, dawgIndex as int), bit8(old(self).isFixedTable@, dictIndex), rdeepb(*old(self), rank(rgl(*old(self)).d, dawgIndex as int)),
  forall|a: i32, b: i32| #[trigger] valuesCmp.requires((a, b)), forall|a: i32, b: i32, q: bool| #[trigger] valuesCmp.ensures((a, b), q) ==> q == (a < b)
@ensures r, rgok(*final(self)), rgframe(*old(self), *final(self)), rkept(*old(self), *final(self)),
  ({ let d = rgl(*old(self)).d; let g = d.child(dawgIndex as int); final(self).links@ == old(self).links@ + mlinks(d, g, gend(d, g) + 1) && kmarked(*final(self), dictIndex, gend(d, g) + 1) })
@decreases rank(rgl(*old(self)).d, dawgIndex as int), 0int
@at entry
  hide(rmono); hide(rnew); hide(rdeep); hide(rfine); hide(rdone); hide(follows); hide(nx); hide(gend); hide(kids_marked); hide(best);
  let ghost s0 = *self;
  let ghost l = rgl(s0);
  let ghost d = l.d;
  let ghost t = dawgIndex as int;
  let ghost g = d.child(t);
  let ghost mut n = g;
  proof { lay_is(l, dictIndex); first_in(d, t); pwf_at(d, g); gend_bounds(d, g); reveal(rmono); reveal(rnew); reveal(kids_marked); assert(dgd(s0.dawg).label[0] != 0); }
@at before loop 1
  proof { assert(self.links@ =~= s0.links@ + mlinks(d, g, g)); }
@loop 1
  invariant g <= n <= gend(d, g) + 1, dawgChildIndex == (if n <= gend(d, g) { n } else { 0 }), rgok(*self), rgframe(s0, *self), rkept(s0, *self), rdeepb(*self, rank(d, t)), kmarked(*self, dictIndex, n), self.links@ == s0.links@ + mlinks(d, g, n)
  decreases gend(d, g) + 1 - n
@at begin 1
  let ghost a = *self;
  let ghost u = dawgChildIndex as int;
  proof { assert(in_group(d, g, u)); in_kid(d, t, u); lay_kid(l, dictIndex, d.label[u]); pwf_at(d, u); if !d.leaf(u) { lay_is(l, nx(l.us, dictIndex, d.label[u])); } reveal(rfine); }
@at before call buildIndices 1
  proof { assert(rdeepb(a, u + 1)) by { reveal(rdeep); } }
@at after call buildIndices 1
  proof {
    rmono_trans(l, s0.units@, s0.isFixedTable@, a.units@, a.isFixedTable@, self.units@, self.isFixedTable@);
    rnew_trans(l, s0.isFixedTable@, a.units@, a.isFixedTable@, self.units@, self.isFixedTable@);
    rdeep_keep(l, a.units@, a.isFixedTable@, self.units@, self.isFixedTable@, rank(d, t), rank(d, t));
    kmarked_keep(a, *self, dictIndex, n);
  }
@at end 1
  proof {
    n = n + 1;
    assert(best(d, u) == value) by { reveal(best); }
    assert(self.links@ =~= s0.links@ + mlinks(d, g, n));
    assert(kmarked(*self, dictIndex, n)) by { reveal(kids_marked); }
  }
@end
@raw
pub open spec fn rturned(l: Lay, gu: Seq<GuideUnit>, gv: Seq<GuideUnit>, x: u32, i: u32) -> bool { (i != x ==> gv[i as int].Child == gu[i as int].Child) && (rsib(l, gu, i) ==> rsib(l, gv, i)) }
pub open spec fn rturn(l: Lay, gu: Seq<GuideUnit>, gv: Seq<GuideUnit>, x: u32) -> bool { forall|i: u32| i < l.us.len() ==> #[trigger] rturned(l, gu, gv, x, i) }
pub proof fn rput(l: Lay, g0: Seq<GuideUnit>, gu: Seq<GuideUnit>, fx: Seq<u8>, gv: Seq<GuideUnit>, x: u32, j: u32)
  requires l.ok(), rfine(l, gu, fx), rturn(l, g0, gu, x), j < l.us.len(), sib_put(gu, gv, j, lbl(l.d, rnext(l.d, l.at(j)))) || (gv == gu && rnext(l.d, l.at(j)) == 0)
  ensures rfine(l, gv, fx), rturn(l, g0, gv, x), rsib(l, gv, j), gv[x as int].Child == gu[x as int].Child || x >= gu.len(), rturn(l, gu, gv, x)
{
  assert(runit(l, gu, fx, j));
  assert forall|i: u32| i < l.us.len() implies #[trigger] runit(l, gv, fx, i) by { assert(runit(l, gu, fx, i)); }
  assert forall|i: u32| i < l.us.len() implies #[trigger] rturned(l, g0, gv, x, i) by { assert(rturned(l, g0, gu, x, i)); }
  assert forall|i: u32| i < l.us.len() implies #[trigger] rturned(l, gu, gv, x, i) by { }
}
pub open spec fn rsibs(l: Lay, gu: Seq<GuideUnit>, x: u32, n: int) -> bool {
  forall|k: int| 0 <= k < n ==> rsib(l, gu, nx(l.us, x, l.d.label[#[trigger] chn(l.d, l.d.child(l.at(x)))[k]]))
}
pub proof fn rsibs_keep(l: Lay, gu: Seq<GuideUnit>, gv: Seq<GuideUnit>, x: u32, n: int)
  requires l.ok(), l.is(x), l.d.len() > 1, rturn(l, gu, gv, x), rsibs(l, gu, x, n)
  ensures rsibs(l, gv, x, n)
{
  let s = chn(l.d, l.d.child(l.at(x)));
  assert forall|k: int| 0 <= k < n implies rsib(l, gv, nx(l.us, x, l.d.label[#[trigger] s[k]])) by { let j = nx(l.us, x, l.d.label[s[k]]); lay_kid(l, x, l.d.label[s[k]]); assert(rturned(l, gu, gv, x, j)); }
}
@end
@fn RankedGuideBuilder.turnLinksToUnits
@requires rgok(*old(self)), rgl(*old(self)).is(dictIndex), bit8(old(self).isFixedTable@, dictIndex), 0 <= linksBegin <= old(self).links@.len(), linksBegin < MAXLEN,
  ({ let l = rgl(*old(self)); let g = l.d.child(l.at(dictIndex)); clinks(l.d, g, old(self).links@.skip(linksBegin as int)) && kmarked(*old(self), dictIndex, gend(l.d, g) + 1) })
@ensures r, rgok(*final(self)), *final(self) == (RankedGuideBuilder { units: final(self).units, ..*old(self) }), rturn(rgl(*old(self)), old(self).units@, final(self).units@, dictIndex),
  rdone(rgl(*old(self)), final(self).units@, final(self).isFixedTable@, dictIndex), old(self).links@.len() > linksBegin
@at entry
  hide(rfine); hide(rturn); hide(nx); hide(chn); hide(gend); hide(is_chain); hide(rnext); hide(rfirst); hide(rsibs);
  let ghost s0 = *self;
  let ghost l = rgl(s0);
  let ghost d = l.d;
  let ghost t = l.at(dictIndex);
  let ghost g = d.child(t);
  let ghost s = chn(d, g);
  let ghost lk = self.links@.skip(linksBegin as int);
  proof {
    lay_is(l, dictIndex); first_in(d, t);
    chain_best(d, t);
    assert(rfirst(d, t) == s[0]) by { reveal(rfirst); }
    reveal(rfine);
    assert(lk[0] == self.links@[linksBegin as int]);
    assert(lbl(d, s[0]) == d.label[s[0]]);
    lay_kid(l, dictIndex, d.label[s[0]]); in_kid(d, t, s[0]);
  }
@at before loop 1
  proof {
    assert(rturn(l, s0.units@, self.units@, dictIndex)) by { reveal(rturn); }
    assert forall|i: u32| i < l.us.len() implies #[trigger] runit(l, self.units@, self.isFixedTable@, i) by { assert(runit(l, s0.units@, s0.isFixedTable@, i)); }
    assert(rsibs(l, self.units@, dictIndex, 0)) by { reveal(rsibs); }
  }
@loop 1
  invariant linksBegin < i <= self.links@.len(), *self == (RankedGuideBuilder { units: self.units, ..s0 }), rfine(l, self.units@, self.isFixedTable@), rturn(l, s0.units@, self.units@, dictIndex),
    self.units@[dictIndex as int].Child == lbl(d, s[0]), dictChildIndex == nx(l.us, dictIndex, d.label[s[i - linksBegin - 1]]), rsibs(l, self.units@, dictIndex, i - linksBegin - 1), self.units@.len() == l.us.len()
  decreases self.links@.len() - i
@at begin 1
  let ghost a = *self;
  let ghost k = i - linksBegin - 1;
  proof {
    assert(lk[k + 1] == self.links@[i as int]);
    chain_at(d, g, k); chain_at(d, g, k + 1);
    in_kid(d, t, s[k]); in_kid(d, t, s[k + 1]);
    lay_kid(l, dictIndex, d.label[s[k]]); lay_kid(l, dictIndex, d.label[s[k + 1]]);
  }
@at end 1
  proof {
    let j = nx(l.us, dictIndex, d.label[s[k]]);
    rput(l, s0.units@, a.units@, a.isFixedTable@, self.units@, dictIndex, j);
    rsibs_keep(l, a.units@, self.units@, dictIndex, k);
    assert(rsibs(l, self.units@, dictIndex, k + 1)) by { reveal(rsibs); }
  }
@at return 1
  proof {
    let k = s.len() - 1;
    let j = nx(l.us, dictIndex, d.label[s[k]]);
    chain_at(d, g, k); in_kid(d, t, s[k]); lay_kid(l, dictIndex, d.label[s[k]]);
    rput(l, s0.units@, self.units@, self.isFixedTable@, self.units@, dictIndex, j);
    let gu = self.units@; let fx = self.isFixedTable@;
    assert forall|c: u8| #[trigger] rkid(l, gu, fx, dictIndex, c) by {
      lay_kid(l, dictIndex, c);
      if kid(d, t, c) is Some {
        let u = kid(d, t, c)->0;
        assert(s.contains(u)) by { reveal(is_chain); }
        let m = choose|m: int| 0 <= m < s.len() && s[m] == u;
        assert(rsib(l, gu, nx(l.us, dictIndex, c))) by { if m < k { reveal(rsibs); assert(d.label[s[m]] == c); } }
        if c != 0 { assert(d.label[u] == c); }
      }
    }
    assert(rdone(l, gu, fx, dictIndex));
  }
@end
@raw
pub proof fn rturn_done(l: Lay, gu: Seq<GuideUnit>, gv: Seq<GuideUnit>, fx: Seq<u8>, x: u32, i: u32)
  requires l.ok(), l.d.len() > 1, rturn(l, gu, gv, x), rdone(l, gu, fx, i), i != x
  ensures rdone(l, gv, fx, i)
{
  lay_kid(l, i, 0);
  assert(rturned(l, gu, gv, x, i));
  assert forall|c: u8| #[trigger] rkid(l, gv, fx, i, c) by { lay_kid(l, i, c); assert(rkid(l, gu, fx, i, c)); assert(rturned(l, gu, gv, x, nx(l.us, i, c))); }
}
pub proof fn rmark(l: Lay, gu: Seq<GuideUnit>, fx: Seq<u8>, fy: Seq<u8>, x: u32)
  requires l.ok(), l.d.len() > 1, l.is(x), rfine(l, gu, fx), x < l.us.len(), !bit8(fx, x), fy.len() == fx.len(), forall|j: u32| j / 8 < fx.len() ==> #[trigger] bit8(fy, j) == (bit8(fx, j) || j == x),
    rdeep(l, gu, fx, rank(l.d, l.at(x)) + 1)
  ensures rfine(l, gu, fy), rmono(l, gu, fx, gu, fy), rdeep(l, gu, fy, rank(l.d, l.at(x))), bit8(fy, x), forall|i: u32| i < l.us.len() && #[trigger] bit8(fy, i) ==> bit8(fx, i) || i == x
{
  assert forall|i: u32| i < l.us.len() implies bit8(fy, i) == (bit8(fx, i) || i == x) by { assert(i / 8 < fx.len()); }
  assert forall|i: u32| i < l.us.len() implies #[trigger] runit(l, gu, fy, i) by { assert(runit(l, gu, fx, i)); }
  assert forall|i: u32| i < l.us.len() implies #[trigger] rkeep(l, gu, fx, gu, fy, i) by { }
  assert forall|i: u32| i < l.us.len() && #[trigger] bit8(fy, i) && rank(l.d, l.at(i)) < rank(l.d, l.at(x)) implies rdone(l, gu, fy, i) by { assert(bit8(fx, i)); rdone_keep(l, gu, fx, gu, fy, i); }
}
pub proof fn rclose(l: Lay, g0: Seq<GuideUnit>, f0: Seq<u8>, f1: Seq<u8>, gu: Seq<GuideUnit>, fx: Seq<u8>, gv: Seq<GuideUnit>, x: u32)
  requires l.ok(), l.d.len() > 1, rmono(l, g0, f1, gu, fx), rnew(l, f1, gu, fx), rturn(l, gu, gv, x), rdone(l, gv, fx, x), !bit8(f0, x), rmono(l, g0, f0, g0, f1), forall|i: u32| i < l.us.len() && #[trigger] bit8(f1, i) ==> bit8(f0, i) || i == x
  ensures rmono(l, g0, f0, gv, fx), rnew(l, f0, gv, fx)
{
  assert forall|i: u32| i < l.us.len() implies #[trigger] rkeep(l, g0, f0, gv, fx, i) by {
    assert(rkeep(l, g0, f0, g0, f1, i)); assert(rkeep(l, g0, f1, gu, fx, i)); assert(rturned(l, gu, gv, x, i));
  }
  assert forall|i: u32| i < l.us.len() && #[trigger] bit8(fx, i) implies bit8(f0, i) || rdone(l, gv, fx, i) by {
    if !bit8(f0, i) && i != x { assert(!bit8(f1, i)); rturn_done(l, gu, gv, fx, x, i); }
  }
}
@end
@fn RankedGuideBuilder.buildIndices
@requires rgok(*old(self)), rgl(*old(self)).pos(dictIndex, dawgIndex as int), rdeepb(*old(self), rank(rgl(*old(self)).d, dawgIndex as int) + 1),
  forall|a: i32, b: i32| #[trigger] valuesCmp.requires((a, b)), forall|a: i32, b: i32, q: bool| #[trigger] valuesCmp.ensures((a, b), q) ==> q == (a < b)
@ensures r, rgok(*final(self)), rgframe(*old(self), *final(self)), rkept(*old(self), *final(self)), final(self).links@ == old(self).links@, bit8(final(self).isFixedTable@, dictIndex), *final(maxValue) == best(rgl(*old(self)).d, dawgIndex as int)
@decreases rank(rgl(*old(self)).d, dawgIndex as int), 1int
@at entry
  hide(rmono); hide(rnew); hide(rdeep); hide(rfine); hide(rdone); hide(follows); hide(nx); hide(gend); hide(kids_marked); hide(best); hide(rturn);
  let ghost s0 = *self;
  let ghost l = rgl(s0);
  let ghost d = l.d;
  let ghost t = dawgIndex as int;
  let ghost g = d.child(t);
  proof { lay_is(l, dictIndex); first_in(d, t); reveal(rfine); gend_bounds(d, g); assert(dgd(s0.dawg).label[0] != 0); }
@at return 1
  proof { reveal(rmono); reveal(rnew); }
@at after call setIsFixed 1
  let ghost s1 = *self;
  proof { rmark(l, s0.units@, s0.isFixedTable@, s1.isFixedTable@, dictIndex); }
@at after call enumerateLinks 1
  let ghost s2 = *self;
  proof { assert(bit8(s2.isFixedTable@, dictIndex)) by { reveal(rmono); assert(rkeep(l, s1.units@, s1.isFixedTable@, s2.units@, s2.isFixedTable@, dictIndex)); } }
@at closure 1
  ensures r == lord(__a, __b)
@at order 1
|x: RankedGuideLink, y: RankedGuideLink| lord(x, y)
@at before call turnLinksToUnits 1
  proof {
    let n = initialNumLinks as int;
    let m = mlinks(d, g, gend(d, g) + 1);
    assert(s2.links@.skip(n) =~= m);
    let s = self.links@.skip(n);
    assert forall|i: int, j: int| 0 <= i < j < s.len() implies !lord(#[trigger] s[j], #[trigger] s[i]) by { assert(s[j] == self.links@[n + j] && s[i] == self.links@[n + i]); }
    sorted_chain(d, g, m, s);
  }
@at after call turnLinksToUnits 1
  proof {
    rclose(l, s0.units@, s0.isFixedTable@, s1.isFixedTable@, s2.units@, s2.isFixedTable@, self.units@, dictIndex);
    chain_best(d, t);
    assert(self.links@.skip(initialNumLinks as int)[0] == self.links@[initialNumLinks as int]);
    assert(self.links@.subrange(0, initialNumLinks as int) =~= self.links@.take(initialNumLinks as int));
    assert(s2.links@.take(initialNumLinks as int) =~= s0.links@);
  }
@end
@raw
// ---- the finished guide
pub open spec fn rguide_at(l: Lay, gu: Seq<GuideUnit>, vis: IMap<u32, bool>, i: u32) -> bool {
  &&& l.is(i) && rch(l, gu, i)
  &&& forall|c: u8| #[trigger] kid(l.d, l.at(i), c) is Some ==> rsib(l, gu, nx(l.us, i, c)) && (c != 0 ==> vis.contains_key(nx(l.us, i, c)))
}
#[verifier::opaque]
pub open spec fn rguides(l: Lay, gu: Seq<GuideUnit>, vis: IMap<u32, bool>) -> bool {
  &&& l.ok() && gu.len() == l.us.len() && l.d.len() > 1 && vis.contains_key(0)
  &&& forall|i: u32| #[trigger] vis.contains_key(i) ==> rguide_at(l, gu, vis, i)
}
pub open spec fn rguided(d: DG, us: Seq<u32>, gu: Seq<GuideUnit>) -> bool {
  if d.len() <= 1 { lays(d, us) && gu.len() == 0 } else { exists|l: Lay, vis: IMap<u32, bool>| l.d == d && l.us == us && #[trigger] rguides(l, gu, vis) }
}
pub proof fn rfinish(l: Lay, f0: Seq<u8>, gu: Seq<GuideUnit>, fx: Seq<u8>)
  requires l.ok(), l.d.len() > 1, rfine(l, gu, fx), bit8(fx, 0), l.is(0), forall|i: u32| #[trigger] f0[(i / 8) as int] == 0 || i / 8 >= f0.len(), f0.len() == fx.len(), rnew(l, f0, gu, fx)
  ensures rguided(l.d, l.us, gu)
{
  lay_is(l, 0);
  let all = IMap::<u32, bool>::new(|i: u32| i < l.us.len() && bit8(fx, i), |i: u32| true);
  assert forall|i: u32| i < l.us.len() && #[trigger] bit8(fx, i) implies rdone(l, gu, fx, i) by {
    assert(f0[(i / 8) as int] == 0);
    let m = (i % 8) as u8;
    assert(0u8 & (1u8 << m) == 0) by(bit_vector);
  }
  assert(rguides(l, gu, all)) by {
    reveal(rguides);
    assert forall|i: u32| #[trigger] all.contains_key(i) implies rguide_at(l, gu, all, i) by {
      assert forall|c: u8| #[trigger] kid(l.d, l.at(i), c) is Some implies rsib(l, gu, nx(l.us, i, c)) && (c != 0 ==> all.contains_key(nx(l.us, i, c))) by { assert(rkid(l, gu, fx, i, c)); lay_kid(l, i, c); }
    }
  }
}
@end
@fn RankedGuideBuilder.Build
@requires dwf(dgd(old(self).dawg)), lays(dgd(old(self).dawg), old(self).dict.units@), old(self).dict.size == old(self).dict.units@.len(), old(self).guide.units@.len() == 0, old(self).guide.size == 0,
  forall|a: i32, b: i32| #[trigger] valuesCmp.requires((a, b)), forall|a: i32, b: i32, q: bool| #[trigger] valuesCmp.ensures((a, b), q) ==> q == (a < b)
@ensures r, rguided(dgd(old(self).dawg), old(self).dict.units@, final(self).guide.units@), final(self).guide.size == final(self).guide.units@.len()
@at entry
  let ghost us = self.dict.units@;
  let ghost d = dgd(self.dawg);
  let ghost l = the_lay(d, us);
  proof { the_lay_ok(d, us); lay_root(d, us, l.nd, l.grp); lay_is(l, 0); }
@at before call buildIndices 1
  self.lay = Ghost(Some(l));
  let ghost s0 = *self;
  proof {
    assert forall|i: u32| i < us.len() implies #[trigger] runit(l, self.units@, self.isFixedTable@, i) by { }
    assert forall|i: u32| i < us.len() && #[trigger] bit8(self.isFixedTable@, i) implies rdone(l, self.units@, self.isFixedTable@, i) by {
      let m = (i % 8) as u8;
      assert(0u8 & (1u8 << m) == 0) by(bit_vector);
      assert(self.isFixedTable@[(i / 8) as int] == 0);
    }
  }
@at after call buildIndices 1
  proof { rfinish(l, s0.isFixedTable@, self.units@, self.isFixedTable@); }
@end
@share RankedGuideBuilder.Build: rgb.units -- the builder writes nothing after handing its units over
@fn BuildRankedGuideCmp
@requires dwf(dgd(*dawg)), lays(dgd(*dawg), dict.units@), dict.size == dict.units@.len(),
  forall|a: i32, b: i32| #[trigger] valuesCmp.requires((a, b)), forall|a: i32, b: i32, q: bool| #[trigger] valuesCmp.ensures((a, b), q) ==> q == (a < b)
@ensures r is Some, rguided(dgd(*dawg), dict.units@, r->0.units@), r->0.size == r->0.units@.len()
@end
@fn BuildRankedGuide
@requires dwf(dgd(*dawg)), lays(dgd(*dawg), dict.units@), dict.size == dict.units@.len()
@ensures r is Some, rguided(dgd(*dawg), dict.units@, r->0.units@), r->0.size == r->0.units@.len()
@at closure 1
  ensures r == (lhs < rhs)
@end
