@iface SomeGuide = Guide
@raw
// ---------------------------------------------------------------- counting the keys below a position
pub open spec fn cnt(d: DG, t: int) -> int { klist(d, t, Seq::empty()).len() as int }
pub proof fn klist_len(d: DG, t: int, p: Seq<u8>, q: Seq<u8>)
  requires tw(d, t)
  ensures klist(d, t, p).len() == klist(d, t, q).len(), clist(d, t, p).len() == clist(d, t, q).len()
  decreases rank(d, t), d.len() - t, 1int
{ clist_is(d, t, p); clist_is(d, t, q); if first(d, t) != 0 { slist_len(d, first(d, t), p, q); } }
pub proof fn slist_len(d: DG, u: int, p: Seq<u8>, q: Seq<u8>)
  requires tw(d, u), u > 0
  ensures slist(d, u, p).len() == slist(d, u, q).len()
  decreases gend(d, u), d.len() - u, 2int
{
  slist_is(d, u, p); slist_is(d, u, q);
  klist_len(d, u, p.push(d.label[u]), q.push(d.label[u]));
  if d.sib(u) { slist_len(d, u + 1, p, q); }
}
// ---- the finished index
pub open spec fn counted(l: Lay, vis: IMap<u32, bool>, iu: Seq<u32>, i: u32) -> bool { vis.contains_key(i) ==> iu[i as int] == cnt(l.d, l.at(i)) }
pub open spec fn numbers(l: Lay, gu: Seq<GuideUnit>, vis: IMap<u32, bool>, iu: Seq<u32>) -> bool {
  &&& guides(l, gu, vis) && iu.len() == l.us.len() && forall|i: u32| #[trigger] counted(l, vis, iu, i)
}
pub open spec fn indexed(d: DG, us: Seq<u32>, gu: Seq<GuideUnit>, iu: Seq<u32>) -> bool {
  &&& guided(d, us, gu) && iu.len() == us.len()
  &&& if d.len() <= 1 { iu[0] == 0 } else { exists|l: Lay, vis: IMap<u32, bool>| l.d == d && l.us == us && #[trigger] numbers(l, gu, vis, iu) }
}
// the keys of a dictionary, in order
pub open spec fn keys(us: Seq<u32>) -> Seq<KV> { choose|s: Seq<KV>| lists(us, 0, Seq::empty(), s) }
pub proof fn lex_anti(a: Seq<u8>, b: Seq<u8>)
  requires lexle(a, b), lexle(b, a)
  ensures a == b
  decreases a.len()
{
  if a.len() > 0 && b.len() > 0 { lex_anti(a.drop_first(), b.drop_first()); assert(a =~= seq![a[0]] + a.drop_first()); assert(b =~= seq![b[0]] + b.drop_first()); }
  else { assert(a =~= b); }
}
pub open spec fn same_set(s: Seq<KV>, t: Seq<KV>) -> bool { forall|x: KV| #[trigger] s.contains(x) == t.contains(x) }
pub proof fn inc_unique(s: Seq<KV>, t: Seq<KV>)
  requires increasing(s), increasing(t), same_set(s, t)
  ensures s == t
  decreases s.len()
{
  if s.len() == 0 { if t.len() > 0 { assert(t.contains(t[0])); assert(s.contains(t[0])); } assert(s =~= t); }
  else if t.len() == 0 { assert(s.contains(s[0])); assert(t.contains(s[0])); }
  else {
    assert(s.contains(s[0])); assert(t.contains(s[0])); assert(t.contains(t[0])); assert(s.contains(t[0]));
    let j = choose|j: int| 0 <= j < t.len() && t[j] == s[0];
    let m = choose|m: int| 0 <= m < s.len() && s[m] == t[0];
    if j > 0 { assert(lexlt(t[0].0, t[j].0)); if m > 0 { assert(lexlt(s[0].0, s[m].0)); lex_anti(s[0].0, t[0].0); } }
    assert(s[0] == t[0]);
    let a = s.drop_first(); let b = t.drop_first();
    assert(increasing(a)) by { assert forall|x: int, y: int| 0 <= x < y < a.len() implies lexlt(#[trigger] a[x].0, #[trigger] a[y].0) by { assert(lexlt(s[x + 1].0, s[y + 1].0)); } }
    assert(increasing(b)) by { assert forall|x: int, y: int| 0 <= x < y < b.len() implies lexlt(#[trigger] b[x].0, #[trigger] b[y].0) by { assert(lexlt(t[x + 1].0, t[y + 1].0)); } }
    assert forall|x: KV| #[trigger] a.contains(x) == b.contains(x) by { drop_has(s, x); drop_has(t, x); assert(s.contains(x) == t.contains(x)); }
    inc_unique(a, b);
    assert(s =~= seq![s[0]] + a); assert(t =~= seq![t[0]] + b);
  }
}
pub proof fn drop_has(s: Seq<KV>, x: KV)
  requires s.len() > 0, increasing(s)
  ensures s.drop_first().contains(x) == (s.contains(x) && x != s[0])
{
  let a = s.drop_first();
  if a.contains(x) { let i = choose|i: int| 0 <= i < a.len() && a[i] == x; assert(s[i + 1] == x); assert(lexlt(s[0].0, s[i + 1].0)); }
  if s.contains(x) && x != s[0] { let i = choose|i: int| 0 <= i < s.len() && s[i] == x; assert(a[i - 1] == x); }
}
pub proof fn keys_is(us: Seq<u32>, s: Seq<KV>)
  requires lists(us, 0, Seq::empty(), s)
  ensures keys(us) == s
{
  let t = keys(us);
  let e = Seq::<u8>::empty();
  assert forall|x: KV| #[trigger] s.contains(x) == t.contains(x) by { assert(e + x.0 =~= x.0); assert(s.contains((e + x.0, x.1)) == t.contains((e + x.0, x.1))); }
  inc_unique(s, t);
}
// ---- construction
pub open spec fn settled(l: Lay, iu: Seq<u32>, i: u32) -> bool {
  iu[i as int] == 0 || (iu[i as int] == cnt(l.d, l.at(i)) && forall|c: u8| #[trigger] follows(l.us, i, c) ==> iu[nx(l.us, i, c) as int] != 0)
}
pub open spec fn rk(l: Lay, i: u32) -> int { rank(l.d, l.at(i)) }
// all positions of a rank below n
pub open spec fn below(l: Lay, vis: IMap<u32, bool>, iu: Seq<u32>, n: int) -> bool { forall|j: u32| vis.contains_key(j) && rk(l, j) < n ==> #[trigger] settled(l, iu, j) }
pub open spec fn iframe(l: Lay, vis: IMap<u32, bool>, iu: Seq<u32>, iv: Seq<u32>, n: int) -> bool {
  &&& iv.len() == iu.len()
  &&& forall|j: u32| j < iu.len() && (!vis.contains_key(j) || rk(l, j) >= n || iu[j as int] != 0) ==> #[trigger] iv[j as int] == iu[j as int]
}
pub open spec fn but(l: Lay, vis: IMap<u32, bool>, iu: Seq<u32>, x: u32) -> bool { forall|j: u32| vis.contains_key(j) && rk(l, j) <= rk(l, x) && j != x ==> #[trigger] settled(l, iu, j) }
pub open spec fn lim(c: u8) -> int { if c == 0 { 256 } else { c as int } }
// the children of i with labels below b are counted
pub open spec fn kids_upto(l: Lay, iu: Seq<u32>, i: u32, b: int) -> bool { forall|c: u8| (c as int) < b && #[trigger] follows(l.us, i, c) ==> iu[nx(l.us, i, c) as int] != 0 }
// the keys from the child c on
pub open spec fn from(l: Lay, i: u32, c: u8, p: Seq<u8>) -> Seq<KV> { if c == 0 { Seq::empty() } else { let j = nx(l.us, i, c); klist(l.d, l.at(j), p.push(c)) + rest_of(l.d, l.at(j), p) } }
pub proof fn child_step(l: Lay, gu: Seq<GuideUnit>, vis: IMap<u32, bool>, i: u32, p: Seq<u8>)
  requires guides(l, gu, vis), vis.contains_key(i)
  ensures ({ let c = gu[i as int].Child;
    &&& clist(l.d, l.at(i), p) == from(l, i, c, p) && klist(l.d, l.at(i), p) == own(l.d, l.at(i), p) + from(l, i, c, p)
    &&& c != 0 ==> follows(l.us, i, c)
    &&& forall|b: u8| (b as int) < lim(c) ==> !#[trigger] follows(l.us, i, b) })
{
  to_child(l, gu, vis, i, p); klist_is(l.d, l.at(i), p); vis_is(l, gu, vis, i);
  let c = gu[i as int].Child; let d = l.d; let t = l.at(i);
  assert forall|b: u8| (b as int) < lim(c) implies !#[trigger] follows(l.us, i, b) by {
    if follows(l.us, i, b) { kid_in(d, t, b); first_in(d, t); let f = first(d, t); let u = kid(d, t, b)->0; group_member(d, d.child(t), f); scan_props(d, f, b); assert(u > f ==> d.label[f] < d.label[u]); }
  }
}
pub proof fn sibling_step(l: Lay, gu: Seq<GuideUnit>, vis: IMap<u32, bool>, i: u32, b: u8, p: Seq<u8>)
  requires guides(l, gu, vis), vis.contains_key(i), follows(l.us, i, b)
  ensures ({ let j = nx(l.us, i, b); let c = gu[j as int].Sibling;
    &&& b != 0 && vis.contains_key(j) && j < l.us.len() && rk(l, j) < rk(l, i)
    &&& from(l, i, b, p) == klist(l.d, l.at(j), p.push(b)) + from(l, i, c, p) && klist(l.d, l.at(j), p.push(b)).len() == cnt(l.d, l.at(j)) && cnt(l.d, l.at(j)) > 0
    &&& c != 0 ==> follows(l.us, i, c) && c > b
    &&& forall|x: u8| b < x && (x as int) < lim(c) ==> !#[trigger] follows(l.us, i, x) })
{
  vis_is(l, gu, vis, i);
  let j = nx(l.us, i, b); let c = gu[j as int].Sibling;
  vis_is(l, gu, vis, j);
  to_sibling(l, gu, vis, i, b, p);
  let d = l.d; let t = l.at(i); let u = l.at(j); let g = d.child(t);
  kid_in(d, t, b); first_in(d, t); in_kid(d, t, u);
  klist_len(d, u, p.push(b), Seq::empty()); klist_below(d, u, Seq::empty());
  assert(rest_of(d, u, p) == from(l, i, c, p));
  group_member(d, g, u); scan_props(d, u, b);
  if later(d, u) != 0 { assert(in_group(d, g, u + 1)); group_member(d, g, u + 1); assert(d.label[u] < d.label[u + 1]); scan_props(d, u + 1, b); }
  assert forall|x: u8| b < x && (x as int) < lim(c) implies !#[trigger] follows(l.us, i, x) by {
    if follows(l.us, i, x) {
      kid_in(d, t, x); let w = kid(d, t, x)->0; group_member(d, g, w); scan_props(d, w, b);
      assert(w < u ==> d.label[w] < d.label[u]);
      assert(later(d, u) != 0 && w > u + 1 ==> d.label[u + 1] < d.label[w]);
    }
  }
}
pub proof fn settled_put(l: Lay, vis: IMap<u32, bool>, iu: Seq<u32>, iv: Seq<u32>, x: u32, v: u32)
  requires but(l, vis, iu, x), x < iu.len(), iv =~= iu.update(x as int, v), v != 0
  ensures but(l, vis, iv, x)
{
  assert forall|j: u32| vis.contains_key(j) && rk(l, j) <= rk(l, x) && j != x implies #[trigger] settled(l, iv, j) by {
    assert(settled(l, iu, j));
    if iu[j as int] != 0 { assert forall|c: u8| #[trigger] follows(l.us, j, c) implies iv[nx(l.us, j, c) as int] != 0 by { assert(iu[nx(l.us, j, c) as int] != 0); } }
  }
}
pub proof fn settled_call(l: Lay, gu: Seq<GuideUnit>, vis: IMap<u32, bool>, iu: Seq<u32>, iv: Seq<u32>, x: u32, y: u32)
  requires guides(l, gu, vis), iu.len() == l.us.len(), but(l, vis, iu, x), rk(l, y) < rk(l, x), iframe(l, vis, iu, iv, rk(l, y) + 1), below(l, vis, iv, rk(l, y) + 1)
  ensures but(l, vis, iv, x)
{
  assert forall|j: u32| vis.contains_key(j) && rk(l, j) <= rk(l, x) && j != x implies #[trigger] settled(l, iv, j) by {
    assert(settled(l, iu, j));
    vis_is(l, gu, vis, j);
    if rk(l, j) > rk(l, y) {
      assert(iv[j as int] == iu[j as int]);
      if iu[j as int] != 0 { assert forall|c: u8| #[trigger] follows(l.us, j, c) implies iv[nx(l.us, j, c) as int] != 0 by { let m = nx(l.us, j, c); assert(iu[m as int] != 0); vis_is(l, gu, vis, m); assert(iv[m as int] == iu[m as int]); } }
    }
  }
}
@end
@ghostfield IndexBuilder lay: Ghost<Option<(Lay, IMap<u32, bool>)>> = Ghost(None)
@raw
pub open spec fn ilay(b: IndexBuilder) -> Lay { (b.lay@->0).0 }
pub open spec fn ivis(b: IndexBuilder) -> IMap<u32, bool> { (b.lay@->0).1 }
pub open spec fn iu(b: IndexBuilder) -> Seq<u32> { b.index.units@ }
pub open spec fn ibok(b: IndexBuilder) -> bool { b.lay@ is Some && guides(ilay(b), b.guide.units@, ivis(b)) && ilay(b).us == b.dict.units@ && iu(b).len() == ilay(b).us.len() }
pub open spec fn ibframe(a: IndexBuilder, b: IndexBuilder) -> bool { a.dict == b.dict && a.guide == b.guide && a.lay == b.lay }
pub proof fn count_done(l: Lay, gu: Seq<GuideUnit>, vis: IMap<u32, bool>, iv: Seq<u32>)
  requires guides(l, gu, vis), iv.len() == l.us.len(), below(l, vis, iv, rk(l, 0) + 1), iv[0] != 0
  ensures indexed(l.d, l.us, gu, iv)
{
  keys_at(l, gu, vis); vis_is(l, gu, vis, 0);
  let v2 = IMap::<u32, bool>::new(|i: u32| vis.contains_key(i) && iv[i as int] != 0 && rk(l, i) <= rk(l, 0), |i: u32| true);
  assert(vis.contains_key(0)) by { reveal(guides); }
  assert(guides(l, gu, v2)) by {
    reveal(guides);
    assert forall|i: u32| #[trigger] v2.contains_key(i) implies guide_at(l, gu, v2, i) by {
      assert(guide_at(l, gu, vis, i)); assert(settled(l, iv, i));
      assert forall|c: u8| c != 0 && #[trigger] follows(l.us, i, c) implies v2.contains_key(nx(l.us, i, c)) by { sibling_step(l, gu, vis, i, c, Seq::empty()); }
    }
  }
  assert forall|i: u32| #[trigger] counted(l, v2, iv, i) by { if v2.contains_key(i) { assert(settled(l, iv, i)); } }
  assert(numbers(l, gu, v2, iv));
}
// ---- the structures fit together
pub open spec fn ifits(dict: Dictionary, guide: Guide, iu: Seq<u32>) -> bool { fits(dict, guide) && exists|d: DG| #[trigger] indexed(d, dict.units@, guide.units@, iu) }
pub open spec fn countable(us: Seq<u32>) -> bool { keys(us).len() < 0xffff_fffe }
pub proof fn keys_at(l: Lay, gu: Seq<GuideUnit>, vis: IMap<u32, bool>)
  requires guides(l, gu, vis)
  ensures keys(l.us) == klist(l.d, l.at(0), Seq::empty()), keys(l.us).len() == cnt(l.d, l.at(0)), vis.contains_key(0), l.at(0) == 0, lists(l.us, 0, Seq::empty(), keys(l.us))
{
  assert(vis.contains_key(0)) by { reveal(guides); }
  vis_is(l, gu, vis, 0); lay_is(l, 0);
  lists_is(l, 0, Seq::empty());
  keys_is(l.us, klist(l.d, l.at(0), Seq::empty()));
}
pub proof fn keys_none(us: Seq<u32>, gu: Seq<GuideUnit>)
  requires exists|d: DG| #[trigger] guided(d, us, gu), gu.len() == 0
  ensures keys(us) == Seq::<KV>::empty(), lists(us, 0, Seq::empty(), keys(us))
{
  assert(walk(us, 0, Seq::empty()) == Some(0u32));
  none_below(us, gu, 0, Seq::empty());
  keys_is(us, Seq::empty());
}
pub proof fn small(d: DG, us: Seq<u32>, gu: Seq<GuideUnit>)
  requires guided(d, us, gu), gu.len() == 0
  ensures d.len() <= 1, us.len() > 0
{
  if d.len() > 1 { let (l, vis) = choose|l: Lay, vis: IMap<u32, bool>| l.d == d && l.us == us && #[trigger] guides(l, gu, vis); assert(false) by { reveal(guides); reveal(layout); } }
  the_lay_ok(d, us); let l = the_lay(d, us); lay_root(d, us, l.nd, l.grp);
}
pub open spec fn the_index(us: Seq<u32>, gu: Seq<GuideUnit>, iu: Seq<u32>) -> (Lay, IMap<u32, bool>) { choose|x: (Lay, IMap<u32, bool>)| x.0.us == us && #[trigger] numbers(x.0, gu, x.1, iu) }
pub proof fn the_index_ok(us: Seq<u32>, gu: Seq<GuideUnit>, iu: Seq<u32>)
  requires exists|d: DG| #[trigger] indexed(d, us, gu, iu)
  ensures gu.len() != 0 ==> ({ let x = the_index(us, gu, iu); x.0.us == us && numbers(x.0, gu, x.1, iu) }), gu.len() == 0 ==> iu[0] == 0, iu.len() > 0, iu.len() == us.len()
{
  let d = choose|d: DG| #[trigger] indexed(d, us, gu, iu);
  if d.len() > 1 {
    let (l, vis) = choose|l: Lay, vis: IMap<u32, bool>| l.d == d && l.us == us && #[trigger] numbers(l, gu, vis, iu);
    assert(gu.len() != 0) by { reveal(guides); reveal(layout); }
    keys_at(l, gu, vis); vis_is(l, gu, vis, 0);
    let x = (l, vis);
    assert(x.0.us == us && numbers(x.0, gu, x.1, iu));
  } else { the_lay_ok(d, us); let l = the_lay(d, us); lay_root(d, us, l.nd, l.grp); }
}
@end
@fn IndexBuilder.buildIndices
@requires ibok(*old(self)), ivis(*old(self)).contains_key(index), iu(*old(self))[index as int] == 0, below(ilay(*old(self)), ivis(*old(self)), iu(*old(self)), rk(ilay(*old(self)), index) + 1), cnt(ilay(*old(self)).d, ilay(*old(self)).at(index)) < 0x1_0000_0000
@ensures r, ibframe(*old(self), *final(self)), ibok(*final(self)), iu(*final(self))[index as int] != 0, below(ilay(*old(self)), ivis(*old(self)), iu(*final(self)), rk(ilay(*old(self)), index) + 1),
  iframe(ilay(*old(self)), ivis(*old(self)), iu(*old(self)), iu(*final(self)), rk(ilay(*old(self)), index) + 1), index == 0 ==> indexed(ilay(*old(self)).d, ilay(*old(self)).us, old(self).guide.units@, iu(*final(self)))
@decreases rk(ilay(*old(self)), index)
@at entry
  hide(follows); hide(nx); hide(below); hide(but); hide(settled); hide(iframe); hide(rank); hide(klist); hide(rest_of); hide(kids_upto); hide(from);
  let ghost s0 = *self;
  let ghost l = ilay(s0);
  let ghost vis = ivis(s0);
  let ghost gu = self.guide.units@;
  let ghost e = Seq::<u8>::empty();
  proof {
    vis_is(l, gu, vis, index); child_step(l, gu, vis, index, e); klist_below(l.d, l.at(index), e);
    assert(but(l, vis, iu(s0), index)) by { reveal(below); reveal(but); }
  }
@at before loop 1
  proof {
    reveal(kids_upto);
    if hasleaf(l.us[index as int]) { settled_put(l, vis, iu(s0), iu(*self), index, 1); }
    else { assert(own(l.d, l.at(index), e) =~= Seq::<KV>::empty()); reveal(from); }
    assert(iframe(l, vis, iu(s0), iu(*self), rk(l, index) + 1)) by { reveal(iframe); }
  }
@loop 1
  invariant ibframe(s0, *self), ibok(*self), but(l, vis, iu(*self), index), child != 0 ==> follows(l.us, index, child), iu(*self)[index as int] + from(l, index, child, e).len() == cnt(l.d, l.at(index)), kids_upto(l, iu(*self), index, lim(child)), iframe(l, vis, iu(s0), iu(*self), rk(l, index) + 1)
  decreases (if child == 0 { 0 } else { 256 - child })
@at begin 1
  let ghost u1 = iu(*self);
  let ghost c1 = child;
  let ghost y = nx(l.us, index, child);
  let ghost mut u2 = iu(*self);
  proof {
    sibling_step(l, gu, vis, index, c1, e);
    vis_is(l, gu, vis, y); vis_is(l, gu, vis, index); reveal(rank);
    assert(below(l, vis, u1, rk(l, y) + 1)) by { reveal(below); reveal(but); reveal(settled); }
  }
@at after call buildIndices 1
  proof { u2 = iu(*self); if u1[y as int] == 0 { settled_call(l, gu, vis, u1, u2, index, y); } assert(iframe(l, vis, iu(s0), u2, rk(l, index) + 1) && u2[index as int] == u1[index as int]) by { reveal(iframe); } assert(kids_upto(l, u2, index, lim(c1))) by { reveal(kids_upto); reveal(iframe); } }
@at before assign ib.index.units[index] 2
  proof { assert(u2[y as int] == cnt(l.d, l.at(y))) by { reveal(but); reveal(settled); assert(settled(l, u2, y)); } }
@at before assign child 1
  proof {
    settled_put(l, vis, u2, iu(*self), index, iu(*self)[index as int]);
    assert(iframe(l, vis, iu(s0), iu(*self), rk(l, index) + 1)) by { reveal(iframe); }
    assert(kids_upto(l, iu(*self), index, c1 + 1)) by { reveal(kids_upto); }
  }
@at after assign child 1
  proof { assert(kids_upto(l, iu(*self), index, lim(child))) by { reveal(kids_upto); } }
@at return 3
  proof {
    reveal(from); reveal(kids_upto); reveal(settled); reveal(but); reveal(below);
    assert(settled(l, iu(*self), index));
    if index == 0 { count_done(l, gu, vis, iu(*self)); }
  }
@end
@fn IndexBuilder.Build
@requires fits(old(self).dict, old(self).guide), countable(old(self).dict.units@)
@ensures r, old(self).dict == final(self).dict, old(self).guide == final(self).guide, ifits(final(self).dict, final(self).guide, iu(*final(self)))
@at return 1
  proof { let d = choose|d: DG| #[trigger] guided(d, self.dict.units@, self.guide.units@); small(d, self.dict.units@, self.guide.units@); assert(indexed(d, self.dict.units@, self.guide.units@, iu(*self))); }
@at return 2
  let ghost (l, vis) = the_guide(self.dict.units@, self.guide.units@);
  self.lay = Ghost(Some((l, vis)));
  proof {
    let us = self.dict.units@; let gu = self.guide.units@;
    assert(reached(us, 0)) by { assert(walk(us, 0, Seq::empty()) == Some(0u32)); }
    the_guide_ok(us, gu, 0);
    keys_at(l, gu, vis); vis_is(l, gu, vis, 0);
    assert(below(l, vis, iu(*self), rk(l, 0) + 1)) by { assert forall|j: u32| vis.contains_key(j) implies #[trigger] settled(l, iu(*self), j) by { vis_is(l, gu, vis, j); } }
  }
@end
@fn BuildIndex
@requires fits(*dict, *guide), countable(dict.units@)
@ensures r is Some, ifits(*dict, *guide, r->0.units@)
@end
@fn Indexer.TotalCount
@requires ifits(self.dict, self.guide, self.index.units@), countable(self.dict.units@)
@ensures r == keys(self.dict.units@).len()
@at entry
  proof {
    let us = self.dict.units@; let gu = self.guide.units@; let iv = self.index.units@;
    the_index_ok(us, gu, iv);
    if gu.len() == 0 { keys_none(us, gu); } else { let (l, vis) = the_index(us, gu, iv); keys_at(l, gu, vis); assert(counted(l, vis, iv, 0)); }
  }
@end
@fn NewIndexer
@ensures r.dict == *dict, r.guide == *guide, r.index == *index
@end

@raw
// the list of all keys, split at a position: as before, what lies below it, bs after
pub open spec fn split(l: Lay, a: int, i: u32, p: Seq<u8>) -> bool {
  let ks = keys(l.us); let m = klist(l.d, l.at(i), p);
  0 <= a && a + m.len() <= ks.len() && ks.subrange(a, a + m.len()) == m
}
// ... and at a child of it, c == 0: past all children
pub open spec fn part(l: Lay, a: int, i: u32, c: u8, p: Seq<u8>) -> bool {
  let ks = keys(l.us); let m = from(l, i, c, p);
  0 <= a && a + m.len() <= ks.len() && ks.subrange(a, a + m.len()) == m
}
pub proof fn split_first(l: Lay, gu: Seq<GuideUnit>, vis: IMap<u32, bool>, a: int, i: u32, p: Seq<u8>)
  requires guides(l, gu, vis), vis.contains_key(i), split(l, a, i, p)
  ensures ({ let h = hasleaf(l.us[i as int]); let c = gu[i as int].Child;
    &&& h ==> a < keys(l.us).len() && keys(l.us)[a].0 == p
    &&& part(l, if h { a + 1 } else { a }, i, c, p)
    &&& klist(l.d, l.at(i), p).len() == (if h { 1int } else { 0 }) + from(l, i, c, p).len() })
{
  child_step(l, gu, vis, i, p); vis_is(l, gu, vis, i);
  let ks = keys(l.us); let m = klist(l.d, l.at(i), p); let o = own(l.d, l.at(i), p); let f = from(l, i, gu[i as int].Child, p);
  if hasleaf(l.us[i as int]) {
    assert(m =~= o + f); assert(o.len() == 1); assert(m[0] == o[0]); assert(ks[a] == m[0]);
    assert(ks.subrange(a + 1, a + 1 + f.len()) =~= m.subrange(1, m.len() as int)); assert(m.subrange(1, m.len() as int) =~= f);
  } else { assert(m =~= f); }
}
pub proof fn part_next(l: Lay, gu: Seq<GuideUnit>, vis: IMap<u32, bool>, a: int, i: u32, c: u8, p: Seq<u8>)
  requires guides(l, gu, vis), vis.contains_key(i), follows(l.us, i, c), part(l, a, i, c, p)
  ensures ({ let j = nx(l.us, i, c); let n = cnt(l.d, l.at(j));
    &&& split(l, a, j, p.push(c)) && part(l, a + n, i, gu[j as int].Sibling, p)
    &&& from(l, i, c, p).len() == n + from(l, i, gu[j as int].Sibling, p).len() && klist(l.d, l.at(j), p.push(c)).len() == n && n > 0 })
{
  sibling_step(l, gu, vis, i, c, p);
  let ks = keys(l.us); let j = nx(l.us, i, c); let n = cnt(l.d, l.at(j)); let m = from(l, i, c, p); let f = from(l, i, gu[j as int].Sibling, p); let k = klist(l.d, l.at(j), p.push(c));
  assert(m =~= k + f);
  assert(ks.subrange(a, a + k.len()) =~= m.subrange(0, k.len() as int)); assert(m.subrange(0, k.len() as int) =~= k);
  assert(ks.subrange(a + n, a + n + f.len()) =~= m.subrange(k.len() as int, m.len() as int)); assert(m.subrange(k.len() as int, m.len() as int) =~= f);
}
// what the number of a key is
pub open spec fn numbered(us: Seq<u32>, k: Seq<u8>, r: u32) -> bool { (r < keys(us).len() && keys(us)[r as int].0 == k) || (r == 0xffff_ffff && find(us, k) is None) }
@end
@fn Indexer.BytesToIndex
@requires ifits(self.dict, self.guide, self.index.units@), countable(self.dict.units@)
@ensures numbered(self.dict.units@, bytes@, r)
@at entry
  hide(follows); hide(nx); hide(rank); hide(klist); hide(rest_of); hide(from); hide(walk); hide(keys); hide(split); hide(part);
  let ghost us = self.dict.units@;
  let ghost gu = self.guide.units@;
  let ghost iv = self.index.units@;
  let ghost (l, vis) = the_index(us, gu, iv);
  proof {
    the_index_ok(us, gu, iv);
    if gu.len() == 0 { keys_none(us, gu); no_key(us, bytes@); } else { keys_at(l, gu, vis); vis_is(l, gu, vis, 0); reveal(walk); reveal(split); assert(keys(us).subrange(0, keys(us).len() as int) =~= keys(us)); assert(bytes@.take(0) =~= Seq::empty()); }
  }
@loop 1
  invariant 0 <= i <= bytes@.len(), vis.contains_key(index), node(us, index), split(l, result as int, index, bytes@.take(i as int)), walk(us, 0, bytes@.take(i as int)) == Some(index)
  decreases bytes@.len() - i
@at begin 1
  let ghost p = bytes@.take(i as int);
  let ghost x = index;
  proof { vis_is(l, gu, vis, index); child_step(l, gu, vis, index, p); split_first(l, gu, vis, result as int, index, p); walk_push(us, 0, bytes@, i as int); if walk(us, 0, bytes@.take(i + 1)) is None { walk_none(us, 0, bytes@, i + 1); } reveal(split); }
@loop 2
  invariant part(l, result as int, index, childLabel, p), childLabel != 0 ==> follows(us, index, childLabel), forall|x: u8| (x as int) < lim(childLabel) && #[trigger] follows(us, index, x) ==> x < bytes@[i as int]
  decreases (if childLabel == 0 { 0 } else { 256 - childLabel })
@at begin 2
  proof {
    let y = nx(us, index, childLabel);
    part_next(l, gu, vis, result as int, index, childLabel, p); sibling_step(l, gu, vis, index, childLabel, p); vis_is(l, gu, vis, y); assert(counted(l, vis, iv, y)); reveal(part);
  }
@at end 1
  proof {
    assert(childLabel == bytes@[i as int]);
    part_next(l, gu, vis, result as int, x, childLabel, p); assert(p.push(childLabel) =~= bytes@.take(i + 1)); vis_is(l, gu, vis, index);
  }
@at after loop 1
  proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); vis_is(l, gu, vis, index); split_first(l, gu, vis, result as int, index, bytes@); }
@end
@raw
pub proof fn no_key(us: Seq<u32>, k: Seq<u8>)
  requires lists(us, 0, Seq::empty(), keys(us))
  ensures (find(us, k) is None) == (forall|n: int| 0 <= n < keys(us).len() ==> #[trigger] keys(us)[n].0 != k)
{
  let e = Seq::<u8>::empty(); assert(e + k =~= k);
  if find(us, k) is Some { let v = find(us, k)->0; assert(val_at(us, 0, k) == Some(v)); assert(keys(us).contains((e + k, v))); let n = choose|n: int| 0 <= n < keys(us).len() && keys(us)[n] == (e + k, v); assert(keys(us)[n].0 == k); }
  else { assert forall|n: int| 0 <= n < keys(us).len() implies #[trigger] keys(us)[n].0 != k by { if keys(us)[n].0 == k { let v = keys(us)[n].1; assert(keys(us)[n] == (e + k, v)); assert(keys(us).contains((e + k, v))); assert(val_at(us, 0, k) == Some(v)); } } }
}
@end
@fn Indexer.StringToIndex
@requires ifits(self.dict, self.guide, self.index.units@), countable(self.dict.units@)
@ensures numbered(self.dict.units@, s@, r)
@end
@fn Indexer.IndexToBytes
@requires ifits(self.dict, self.guide, self.index.units@), countable(self.dict.units@)
@ensures i < keys(self.dict.units@).len() ==> r@ == keys(self.dict.units@)[i as int].0, i >= keys(self.dict.units@).len() ==> r@.len() == 0
@at entry
  hide(follows); hide(nx); hide(rank); hide(klist); hide(rest_of); hide(from); hide(keys); hide(split); hide(part);
  let ghost us = self.dict.units@;
  let ghost gu = self.guide.units@;
  let ghost iv = self.index.units@;
  let ghost (l, vis) = the_index(us, gu, iv);
  proof {
    the_index_ok(us, gu, iv);
    if gu.len() == 0 { keys_none(us, gu); } else { keys_at(l, gu, vis); vis_is(l, gu, vis, 0); reveal(split); assert(keys(us).subrange(0, keys(us).len() as int) =~= keys(us)); }
  }
@at before loop 1
  proof { assert(buf@ =~= Seq::empty()); }
@loop 1
  invariant cur <= i, vis.contains_key(index), node(us, index), split(l, cur as int, index, buf@), i < keys(us).len() ==> i < cur + klist(l.d, l.at(index), buf@).len(), index == 0 || i < cur + klist(l.d, l.at(index), buf@).len()
  decreases rk(l, index)
@at begin 1
  let ghost p = buf@;
  let ghost x = index;
  proof { vis_is(l, gu, vis, index); child_step(l, gu, vis, index, p); split_first(l, gu, vis, cur as int, index, p); reveal(split); reveal(rank); }
@loop 2
  invariant cur <= i, part(l, cur as int, index, childLabel, p), childLabel != 0 ==> follows(us, index, childLabel), buf@ == p, index == x,  i < keys(us).len() ==> i < cur + from(l, index, childLabel, p).len()
  decreases (if childLabel == 0 { 0 } else { 256 - childLabel })
@at begin 2
  proof {
    let y = nx(us, index, childLabel);
    part_next(l, gu, vis, cur as int, index, childLabel, p); sibling_step(l, gu, vis, index, childLabel, p); vis_is(l, gu, vis, y); assert(counted(l, vis, iv, y)); reveal(part); reveal(split);
  }
@at after loop 2
  proof { reveal(from); }
@end
@fn Indexer.IndexToString
@requires ifits(self.dict, self.guide, self.index.units@), countable(self.dict.units@)
@ensures i < keys(self.dict.units@).len() ==> r@ == keys(self.dict.units@)[i as int].0, i >= keys(self.dict.units@).len() ==> r@.len() == 0
@end
@raw
// C06: the keys, in byte order, are numbered 0..n-1 both ways; r is what StringToIndex answers for k, t and s what IndexToString answers for i and j
pub proof fn prop_index(us: Seq<u32>, k: Seq<u8>, r: u32, j: u32, t: Seq<u8>)
  requires lists(us, 0, Seq::empty(), keys(us)), countable(us), numbered(us, k, r), j < keys(us).len() ==> t == keys(us)[j as int].0
  ensures
    (r != 0xffff_ffff) == (find(us, k) is Some), r != 0xffff_ffff ==> r < keys(us).len() && Some(keys(us)[r as int].1) == find(us, k),
    j < keys(us).len() ==> find(us, t) is Some && (t == k ==> r == j) && (r < j ==> lexlt(k, t)) && (find(us, k) is Some && lexlt(k, t) ==> r < j),
    increasing(keys(us)), forall|x: Seq<u8>, v: i32| #[trigger] keys(us).contains((x, v)) == (find(us, x) == Some(v)),
{
  let ks = keys(us); let e = Seq::<u8>::empty();
  no_key(us, k);
  assert forall|x: Seq<u8>, v: i32| #[trigger] ks.contains((x, v)) == (find(us, x) == Some(v)) by { assert(e + x =~= x); assert(ks.contains((e + x, v)) == (val_at(us, 0, x) == Some(v))); }
  if r < ks.len() { assert(ks.contains((ks[r as int].0, ks[r as int].1))); }
  if j < ks.len() {
    assert(ks.contains((ks[j as int].0, ks[j as int].1)));
    if r < ks.len() { if r < j { assert(lexlt(ks[r as int].0, ks[j as int].0)); } if j < r { assert(lexlt(ks[j as int].0, ks[r as int].0)); if lexlt(k, t) { lex_anti(k, t); } } }
  }
}
pub proof fn fitting_lists(dict: Dictionary, guide: Guide)
  requires fits(dict, guide)
  ensures lists(dict.units@, 0, Seq::empty(), keys(dict.units@))
{
  let us = dict.units@; let gu = guide.units@;
  assert(reached(us, 0)) by { assert(walk(us, 0, Seq::empty()) == Some(0u32)); }
  the_guide_ok(us, gu, 0);
  if gu.len() == 0 { keys_none(us, gu); } else { let (l, vis) = the_guide(us, gu); keys_at(l, gu, vis); }
}
@end
