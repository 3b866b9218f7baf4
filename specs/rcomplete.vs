@iface interface{} = RankedCompleterCandidate
@std container/heap Push Pop up down: Interface = *RankedCompleterCandidateQueue
@raw
// ---------------------------------------------------------------- the queue of candidates
pub open spec fn qless(a: RankedCompleterCandidate, b: RankedCompleterCandidate) -> bool { a.value > b.value || (a.value == b.value && a.nodeIndex > b.nodeIndex) }
pub open spec fn heaped(q: Seq<RankedCompleterCandidate>) -> bool { forall|i: int| 1 <= i < q.len() ==> !qless(#[trigger] q[i], q[(i - 1) / 2]) }
pub proof fn heap_top(q: Seq<RankedCompleterCandidate>, i: int)
  requires heaped(q), 0 <= i < q.len()
  ensures q[i].value <= q[0].value
  decreases i
{ if i > 0 { heap_top(q, (i - 1) / 2); assert(!qless(q[i], q[(i - 1) / 2])); } }
@end
@fn RankedCompleterCandidateQueue.Less
@requires 0 <= i < pq@.len(), 0 <= j < pq@.len()
@ensures r == qless(pq@[i as int], pq@[j as int])
@end
@fn RankedCompleterCandidateQueue.Len
@ensures r == pq@.len(), r < MAXLEN
@end
@fn RankedCompleterCandidateQueue.Swap
@requires 0 <= i < old(pq)@.len(), 0 <= j < old(pq)@.len()
@ensures final(pq)@ == old(pq)@.update(i as int, old(pq)@[j as int]).update(j as int, old(pq)@[i as int])
@end
@fn RankedCompleterCandidateQueue.Push
@ensures final(pq)@ == old(pq)@.push(*x)
@end
@share RankedCompleterCandidateQueue.Pop: old[0:n-1] -- the shortened slice replaces the queue
@share RankedCompleterCandidateQueue.Pop: item -- candidates are not written after they are made
@fn RankedCompleterCandidateQueue.Pop
@requires old(pq)@.len() > 0
@ensures final(pq)@ == old(pq)@.drop_last(), r == old(pq)@.last()
@end
@raw
// ---- container/heap, from the standard library
pub open spec fn par(i: int) -> int { (i - 1) / 2 }
pub open spec fn hle(q: Seq<RankedCompleterCandidate>, i: int, j: int) -> bool { !qless(q[i], q[j]) }
// a heap but for j, which may belong higher up
pub open spec fn upok(q: Seq<RankedCompleterCandidate>, j: int) -> bool {
  &&& forall|i: int| 1 <= i < q.len() && i != j ==> #[trigger] hle(q, i, par(i))
  &&& forall|i: int| 1 <= i < q.len() && par(i) == j && j > 0 ==> hle(q, i, #[trigger] par(par(i)))
}
// a heap of n but for j, which may belong further down
pub open spec fn downok(q: Seq<RankedCompleterCandidate>, j: int, n: int) -> bool {
  &&& forall|i: int| 1 <= i < n && par(i) != j ==> #[trigger] hle(q, i, par(i))
  &&& forall|i: int| 1 <= i < n && par(i) == j && j > 0 ==> hle(q, i, #[trigger] par(par(i)))
}
pub open spec fn swapped(q: Seq<RankedCompleterCandidate>, i: int, j: int) -> Seq<RankedCompleterCandidate> { q.update(i, q[j]).update(j, q[i]) }
pub proof fn swap_multi(q: Seq<RankedCompleterCandidate>, i: int, j: int)
  requires 0 <= i < q.len(), 0 <= j < q.len()
  ensures swapped(q, i, j).to_multiset() == q.to_multiset(), swapped(q, i, j).len() == q.len()
{
  broadcast use vstd::seq_lib::group_to_multiset_ensures;
  vstd::seq_lib::to_multiset_update(q, i, q[j]);
  vstd::seq_lib::to_multiset_update(q.update(i, q[j]), j, q[i]);
  let a = q.to_multiset();
  assert(q.contains(q[i]) && q.contains(q[j]));
  assert(a.count(q[i]) > 0 && a.count(q[j]) > 0);
  if i == j { assert(swapped(q, i, j) =~= q); }
  else { assert(swapped(q, i, j).to_multiset() =~= a); }
}
@end
@fn heap_up
@requires 0 <= j < old(h)@.len(), upok(old(h)@, j as int)
@ensures heaped(final(h)@), final(h)@.to_multiset() == old(h)@.to_multiset(), final(h)@.len() == old(h)@.len()
@at entry
  let ghost s0 = h@;
  let ghost mut a = h@;
  let ghost mut k = 0int;
@loop 1
  invariant 0 <= j < s0.len(), h@.len() == s0.len(), h@.to_multiset() == s0.to_multiset(), upok(h@, j as int)
  decreases j as int
@at begin 1
  proof { a = h@; k = j as int; }
@at then 1
  proof { assert forall|i: int| 1 <= i < a.len() implies !qless(#[trigger] a[i], a[(i - 1) / 2]) by { assert(hle(a, i, par(i)) || i == k); } }
@at after call Swap 1
  proof {
    let b = h@; let i = par(k);
    swap_multi(a, i, k);
    assert(b == swapped(a, i, k));
    assert forall|x: int| 1 <= x < b.len() && x != i implies #[trigger] hle(b, x, par(x)) by { assert(x == k || hle(a, x, par(x))); if par(x) == k { assert(hle(a, x, par(par(x)))); } }
    assert forall|x: int| 1 <= x < b.len() && par(x) == i && i > 0 implies hle(b, x, #[trigger] par(par(x))) by { assert(hle(a, i, par(i))); assert(x == k || hle(a, x, par(x))); }
  }
@end
@fn heap_down
@requires 0 <= i0 <= n <= old(h)@.len(), n < MAXLEN, downok(old(h)@, i0 as int, n as int)
@ensures heaped(final(h)@.take(n as int)), final(h)@.to_multiset() == old(h)@.to_multiset(), final(h)@.len() == old(h)@.len(), final(h)@.skip(n as int) == old(h)@.skip(n as int)
@at entry
  let ghost s0 = h@;
  let ghost mut a = h@;
  let ghost mut k = 0int;
@loop 1
  invariant i0 <= i <= n <= s0.len(), h@.len() == s0.len(), h@.to_multiset() == s0.to_multiset(), downok(h@, i as int, n as int), h@.skip(n as int) == s0.skip(n as int)
  decreases n - i
@at begin 1
  proof { a = h@; k = i as int; }
@at then 1
  proof { let t = a.take(n as int); assert forall|x: int| 1 <= x < t.len() implies !qless(#[trigger] t[x], t[(x - 1) / 2]) by { assert(hle(a, x, par(x))); } }
@at then 3
  proof { let t = a.take(n as int); assert forall|x: int| 1 <= x < t.len() implies !qless(#[trigger] t[x], t[(x - 1) / 2]) by { assert(hle(a, x, par(x)) || par(x) == k); } }
@at after call Swap 1
  proof {
    let b = h@; let m = j as int;
    swap_multi(a, k, m);
    assert(b == swapped(a, k, m));
    assert(b.skip(n as int) =~= a.skip(n as int));
    assert forall|x: int| 1 <= x < n && par(x) != m implies #[trigger] hle(b, x, par(x)) by { assert(par(x) == k || hle(a, x, par(x))); if x == k { assert(hle(a, m, par(par(m)))); } }
    assert forall|x: int| 1 <= x < n && par(x) == m && m > 0 implies hle(b, x, #[trigger] par(par(x))) by { assert(hle(a, x, par(x))); }
  }
@end
@fn heap_Push
@requires heaped(old(h)@)
@ensures heaped(final(h)@), final(h)@.to_multiset() == old(h)@.push(*x).to_multiset()
@at before call heap_up 1
  proof { let b = h@; assert forall|i: int| 1 <= i < b.len() && i != b.len() - 1 implies #[trigger] hle(b, i, par(i)) by { assert(!qless(old(h)@[i], old(h)@[(i - 1) / 2])); } }
@end
@fn heap_Pop
@requires heaped(old(h)@), old(h)@.len() > 0
@ensures heaped(final(h)@), r == old(h)@[0], final(h)@.to_multiset() == old(h)@.drop_first().to_multiset()
@at entry
  let ghost s0 = h@;
@at before call heap_down 1
  proof {
    let b = h@; let n1 = s0.len() - 1;
    swap_multi(s0, 0, n1);
    assert(b == swapped(s0, 0, n1));
    assert forall|i: int| 1 <= i < n1 && par(i) != 0 implies #[trigger] hle(b, i, par(i)) by { assert(!qless(s0[i], s0[(i - 1) / 2])); }
  }
  let ghost s1 = h@;
@at return 1
  proof {
    let b = h@; let n1 = s0.len() - 1;
    assert(b.skip(n1)[0] == b[n1]); assert(s1.skip(n1)[0] == s1[n1]);
    assert(b.take(n1) =~= b.drop_last());
    assert(b =~= b.drop_last().push(s0[0]));
    assert(s0 =~= seq![s0[0]] + s0.drop_first());
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    vstd::seq_lib::lemma_multiset_commutative(seq![s0[0]], s0.drop_first());
    assert(seq![s0[0]] =~= Seq::empty().push(s0[0]));
    assert(seq![s0[0]].to_multiset() =~= vstd::multiset::Multiset::singleton(s0[0]));
    assert(b.drop_last().to_multiset() =~= s0.drop_first().to_multiset()) by {
      assert(b.to_multiset() =~= b.drop_last().to_multiset().insert(s0[0]));
      assert forall|x: RankedCompleterCandidate| b.drop_last().to_multiset().count(x) == s0.drop_first().to_multiset().count(x) by { assert(b.to_multiset().count(x) == s0.to_multiset().count(x)); }
    }
  }
@end
@raw
// ---------------------------------------------------------------- the tree of nodes
pub type NS = Seq<RankedCompleterNode>;
pub open spec fn pv(ns: NS, n: int) -> int { ns[n].prevNodeIndex as int }
pub open spec fn nt(l: Lay, ns: NS, n: int) -> int { l.at(ns[n].dictIndex) }
pub open spec fn isleaf(ns: NS, n: int) -> bool { ns[n].label == 0 }
pub open spec fn hask(l: Lay, ns: NS, p: int, w: int) -> bool { exists|m: int| 0 < m < ns.len() && pv(ns, m) == p && #[trigger] nt(l, ns, m) == w }
pub open spec fn hasany(ns: NS, p: int) -> bool { exists|m: int| 0 < m < ns.len() && #[trigger] pv(ns, m) == p }
pub open spec fn nodeok(l: Lay, vis: IMap<u32, bool>, ns: NS, n: int) -> bool {
  &&& ns[n].label != 0 ==> vis.contains_key(ns[n].dictIndex)
  &&& n == 0 ==> ns[n].label != 0
  &&& n > 0 ==> { let p = pv(ns, n); p < n && ns[p].label != 0 && in_group(l.d, l.d.child(nt(l, ns, p)), nt(l, ns, n)) && ns[n].dictIndex == nx(l.us, ns[p].dictIndex, ns[n].label) && ns[n].label == l.d.label[nt(l, ns, n)] }
}
// the siblings before n are there
pub open spec fn earlier(l: Lay, ns: NS, n: int) -> bool {
  n > 0 ==> forall|w: int| #[trigger] in_group(l.d, l.d.child(nt(l, ns, pv(ns, n))), w) && before(l.d, w, nt(l, ns, n)) ==> hask(l, ns, pv(ns, n), w)
}
pub open spec fn termok(l: Lay, ns: NS, n: int) -> bool { ns[n].label != 0 ==> ns[n].hasTerminal == (kid(l.d, nt(l, ns, n), 0) is Some && !hask(l, ns, n, l.d.child(nt(l, ns, n)))) }
pub open spec fn tnode(l: Lay, vis: IMap<u32, bool>, ns: NS, tip: int, n: int) -> bool {
  &&& nodeok(l, vis, ns, n) && earlier(l, ns, n) && termok(l, ns, n)
  &&& ns[n].label != 0 ==> (hasany(ns, n) == (n != tip))
}
pub open spec fn tpair(l: Lay, ns: NS, n: int, m: int) -> bool { pv(ns, n) == pv(ns, m) ==> nt(l, ns, n) != nt(l, ns, m) }
#[verifier::opaque]
pub open spec fn tree(l: Lay, vis: IMap<u32, bool>, ns: NS, tip: int) -> bool {
  &&& 0 < ns.len() < MAXLEN
  &&& forall|n: int| 0 <= n < ns.len() ==> #[trigger] tnode(l, vis, ns, tip, n)
  &&& forall|n: int, m: int| 0 < n < ns.len() && 0 < m < ns.len() && n != m ==> #[trigger] tpair(l, ns, n, m)
}
pub proof fn tree_at(l: Lay, gu: Seq<GuideUnit>, vis: IMap<u32, bool>, ns: NS, tip: int, n: int)
  requires rguides(l, gu, vis), tree(l, vis, ns, tip), 0 <= n < ns.len()
  ensures tnode(l, vis, ns, tip, n), n > 0 ==> 0 <= pv(ns, n) < n && tnode(l, vis, ns, tip, pv(ns, n)) && tw(l.d, nt(l, ns, pv(ns, n))), ns[n].label != 0 ==> tw(l.d, nt(l, ns, n)), ns.len() < MAXLEN,
    ns[n].label == 0 ==> l.d.leaf(nt(l, ns, n)), 0 <= nt(l, ns, n) < l.d.len(), n > 0 ==> nt(l, ns, n) > 0 && nt(l, ns, n) < rank(l.d, nt(l, ns, pv(ns, n)))
{
  reveal(tree);
  assert(tnode(l, vis, ns, tip, n));
  if ns[n].label != 0 { rvis_is(l, gu, vis, ns[n].dictIndex); }
  if n > 0 {
    let p = pv(ns, n); assert(tnode(l, vis, ns, tip, p)); rvis_is(l, gu, vis, ns[p].dictIndex);
    first_in(l.d, nt(l, ns, p));
  }
}
pub proof fn rvis_is(l: Lay, gu: Seq<GuideUnit>, vis: IMap<u32, bool>, i: u32)
  requires rguides(l, gu, vis), vis.contains_key(i)
  ensures l.ok(), l.is(i), l.d.len() > 1, rch(l, gu, i), tw(l.d, l.at(i)), node(l.us, i), i < gu.len(), gu.len() == l.us.len(), rguide_at(l, gu, vis, i)
{
  assert(rguide_at(l, gu, vis, i) && l.ok() && gu.len() == l.us.len() && l.d.len() > 1) by { reveal(rguides); }
  lay_is(l, i);
}
pub proof fn rnext_is(d: DG, g: int, t: int)
  requires pwf(d), start(d, g), has_chain(d, g), in_group(d, g, t)
  ensures ({ let w = rnext(d, t);
    &&& w == 0 ==> forall|v: int| #[trigger] in_group(d, g, v) ==> v == t || before(d, v, t)
    &&& w != 0 ==> in_group(d, g, w) && before(d, t, w) && forall|v: int| #[trigger] in_group(d, g, v) && before(d, v, w) ==> v == t || before(d, v, t) })
{
  let s = chn(d, g);
  let k = choose|k: int| 0 <= k < s.len() && s[k] == t;
  chain_at(d, g, k);
  let w = rnext(d, t);
  if k + 1 < s.len() { chain_at(d, g, k + 1); assert(before(d, s[k], s[k + 1])); }
  assert forall|v: int| #[trigger] in_group(d, g, v) && (w == 0 || before(d, v, w)) implies v == t || before(d, v, t) by {
    let j = choose|j: int| 0 <= j < s.len() && s[j] == v;
    if j < k { assert(before(d, s[j], s[k])); }
    if j > k + 1 { assert(before(d, s[k + 1], s[j])); }
  }
}
// node n is a transition of a group that has a chain
pub proof fn tree_rnext(l: Lay, gu: Seq<GuideUnit>, vis: IMap<u32, bool>, ns: NS, tip: int, n: int)
  requires rguides(l, gu, vis), tree(l, vis, ns, tip), 0 < n < ns.len()
  ensures ({ let d = l.d; let t = nt(l, ns, n); let g = d.child(nt(l, ns, pv(ns, n))); let w = rnext(d, t);
    &&& in_group(d, g, t) && start(d, g) && has_chain(d, g)
    &&& w == 0 ==> forall|v: int| #[trigger] in_group(d, g, v) ==> v == t || before(d, v, t)
    &&& w != 0 ==> in_group(d, g, w) && before(d, t, w) && forall|v: int| #[trigger] in_group(d, g, v) && before(d, v, w) ==> v == t || before(d, v, t)
    &&& gu[ns[n].dictIndex as int].Sibling == lbl(d, w) && ns[n].dictIndex < gu.len() && gu.len() == l.us.len() })
{
  tree_at(l, gu, vis, ns, tip, n);
  let p = pv(ns, n); let i = ns[p].dictIndex;
  rvis_is(l, gu, vis, i);
  first_in(l.d, l.at(i));
  rnext_is(l.d, l.d.child(l.at(i)), nt(l, ns, n));
  in_kid(l.d, l.at(i), nt(l, ns, n));
  lay_kid(l, i, ns[n].label);
}
pub open spec fn same(a: RankedCompleterNode, b: RankedCompleterNode) -> bool { b == (RankedCompleterNode { hasTerminal: b.hasTerminal, ..a }) }
pub open spec fn ext(a: NS, b: NS) -> bool { a.len() <= b.len() && forall|n: int| 0 <= n < a.len() ==> same(#[trigger] a[n], b[n]) }
pub proof fn ext_has(l: Lay, a: NS, b: NS, p: int, w: int)
  requires ext(a, b), hask(l, a, p, w)
  ensures hask(l, b, p, w)
{ let m = choose|m: int| 0 < m < a.len() && pv(a, m) == p && #[trigger] nt(l, a, m) == w; assert(same(a[m], b[m])); assert(nt(l, b, m) == w && pv(b, m) == p); }
pub open spec fn added(l: Lay, a: NS, b: NS, p: int, w: int) -> bool {
  let c = l.d.label[w]; let i = nx(l.us, a[p].dictIndex, c);
  &&& b.len() == a.len() + 1
  &&& forall|n: int| 0 <= n < a.len() ==> #[trigger] b[n] == (if n == p && c == 0 { RankedCompleterNode { hasTerminal: false, ..a[n] } } else { a[n] })
  &&& b[a.len() as int] == (RankedCompleterNode { dictIndex: i, prevNodeIndex: p as u32, label: c, isQueued: false, hasTerminal: c != 0 && hasleaf(l.us[i as int]) })
}
pub proof fn tree_add(l: Lay, gu: Seq<GuideUnit>, vis: IMap<u32, bool>, a: NS, b: NS, tip: int, p: int, w: int)
  requires rguides(l, gu, vis), tree(l, vis, a, tip), 0 <= p < a.len(), a[p].label != 0, in_group(l.d, l.d.child(nt(l, a, p)), w), !hask(l, a, p, w),
    forall|v: int| #[trigger] in_group(l.d, l.d.child(nt(l, a, p)), v) && before(l.d, v, w) ==> hask(l, a, p, v),
    tip == p || !(0 <= tip < a.len()) || a[tip].label == 0, added(l, a, b, p, w), b.len() < MAXLEN
  ensures tree(l, vis, b, a.len() as int), nt(l, b, a.len() as int) == w, ext(a, b), forall|q: int, v: int| #[trigger] hask(l, b, q, v) == (hask(l, a, q, v) || (q == p && v == w))
{
  let d = l.d; let z = a.len() as int; let i = a[p].dictIndex; let c = d.label[w]; let j = nx(l.us, i, c);
  tree_at(l, gu, vis, a, tip, p);
  rvis_is(l, gu, vis, i);
  first_in(d, l.at(i));
  in_kid(d, l.at(i), w);
  lay_kid(l, i, c);
  assert(nt(l, b, z) == w && pv(b, z) == p);
  assert(ext(a, b)) by { assert forall|n: int| 0 <= n < a.len() implies same(#[trigger] a[n], b[n]) by { assert(b[n] == b[n]); } }
  assert forall|q: int, v: int| #[trigger] hask(l, b, q, v) == (hask(l, a, q, v) || (q == p && v == w)) by {
    if hask(l, a, q, v) { ext_has(l, a, b, q, v); }
    if hask(l, b, q, v) { let m = choose|m: int| 0 < m < b.len() && pv(b, m) == q && #[trigger] nt(l, b, m) == v; if m < z { assert(same(a[m], b[m])); assert(nt(l, a, m) == v && pv(a, m) == q); } }
  }
  assert forall|n: int| 0 <= n < z implies hasany(b, n) == (hasany(a, n) || n == p) by {
    if hasany(a, n) { let m = choose|m: int| 0 < m < a.len() && #[trigger] pv(a, m) == n; assert(same(a[m], b[m])); assert(pv(b, m) == n); }
    if hasany(b, n) { let m = choose|m: int| 0 < m < b.len() && #[trigger] pv(b, m) == n; if m < z { assert(same(a[m], b[m])); assert(pv(a, m) == n); } }
  }
  assert forall|n: int| 0 <= n < b.len() implies #[trigger] tnode(l, vis, b, z, n) by {
    if n < z {
      tree_at(l, gu, vis, a, tip, n);
      assert(same(a[n], b[n]));
      if n > 0 { assert(same(a[pv(a, n)], b[pv(a, n)])); assert(nt(l, b, pv(b, n)) == nt(l, a, pv(a, n))); assert(nt(l, b, n) == nt(l, a, n)); }
      assert(earlier(l, b, n)) by { assert(earlier(l, a, n)); }
      assert(termok(l, b, n)) by {
        assert(termok(l, a, n)); assert(nt(l, b, n) == nt(l, a, n));
        if n == p {
          lay_kid(l, i, 0);
          if c == 0 { assert(w == d.child(l.at(i))); }
          else { group_member(d, d.child(l.at(i)), w); if kid(d, l.at(i), 0) is Some { assert(d.child(l.at(i)) != w); } }
        }
      }
    } else {
      assert(same(a[p], b[p]));
      assert(nt(l, b, p) == nt(l, a, p));
      assert(!hasany(b, z)) by { if hasany(b, z) { let m = choose|m: int| 0 < m < b.len() && #[trigger] pv(b, m) == z; if m < z { tree_at(l, gu, vis, a, tip, m); assert(same(a[m], b[m])); } } }
      assert(earlier(l, b, z));
      assert(nodeok(l, vis, b, z)) by { assert(rguide_at(l, gu, vis, i)); }
      if c != 0 {
        lay_kid(l, j, 0); lay_is(l, j); lay_step(d, l.us, l.nd, l.grp, j, w, 0);
        assert(!hask(l, b, z, d.child(w))) by { if hask(l, b, z, d.child(w)) { let m = choose|m: int| 0 < m < b.len() && pv(b, m) == z && #[trigger] nt(l, b, m) == d.child(w); assert(pv(b, m) == z); assert(hasany(b, z)); } }
        assert(termok(l, b, z));
      }
    }
  }
  assert forall|n: int, m: int| 0 < n < b.len() && 0 < m < b.len() && n != m implies #[trigger] tpair(l, b, n, m) by {
    if n < z { assert(same(a[n], b[n])); assert(nt(l, a, n) == nt(l, b, n)); }
    if m < z { assert(same(a[m], b[m])); assert(nt(l, a, m) == nt(l, b, m)); }
    if n < z && m < z { assert(tpair(l, a, n, m)) by { reveal(tree); } }
  }
  reveal(tree);
}
// ---- below
pub open spec fn anc(ns: NS, q: int, c: int) -> bool
  decreases c
{ c == q || (0 < c && pv(ns, c) < c && anc(ns, q, pv(ns, c))) }
pub proof fn anc_ext(a: NS, b: NS, q: int, c: int)
  requires ext(a, b), 0 <= c < a.len()
  ensures anc(a, q, c) == anc(b, q, c)
  decreases c
{ assert(same(a[c], b[c])); if c > 0 && pv(a, c) < c { anc_ext(a, b, q, pv(a, c)); } }
pub open spec fn npath(ns: NS, n: int) -> Seq<u8>
  decreases n
{ if n <= 0 || pv(ns, n) >= n { Seq::empty() } else { npath(ns, pv(ns, n)).push(ns[n].label) } }
pub open spec fn livec(l: Lay, ns: NS, n: int, c: int) -> bool { 0 < c < ns.len() && isleaf(ns, c) && !ns[c].isQueued && anc(ns, n, c) && best(l.d, nt(l, ns, c)) == best(l.d, nt(l, ns, n)) }
pub open spec fn live(l: Lay, ns: NS, n: int) -> bool { exists|c: int| #[trigger] livec(l, ns, n, c) }
pub open spec fn rfree(l: Lay, ns: NS, n: int) -> bool { rnext(l.d, nt(l, ns, n)) == 0 || !hask(l, ns, pv(ns, n), rnext(l.d, nt(l, ns, n))) }
pub open spec fn settled(l: Lay, ns: NS, n: int) -> bool { rnext(l.d, nt(l, ns, n)) == 0 || hask(l, ns, pv(ns, n), rnext(l.d, nt(l, ns, n))) }
pub open spec fn nstate(l: Lay, ns: NS, todo: Seq<u32>, n: int) -> bool {
  if !ns[n].isQueued { live(l, ns, n) && rfree(l, ns, n) && !todo.contains(n as u32) } else { settled(l, ns, n) || todo.contains(n as u32) }
}
pub open spec fn todook(l: Lay, ns: NS, i: u32) -> bool { 0 < i < ns.len() && rfree(l, ns, i as int) && ns[i as int].isQueued }
#[verifier::opaque]
pub open spec fn mid(l: Lay, vis: IMap<u32, bool>, ns: NS, todo: Seq<u32>) -> bool {
  &&& tree(l, vis, ns, -1) && todo.no_duplicates() && ns.len() > 1
  &&& forall|n: int| 0 < n < ns.len() ==> #[trigger] nstate(l, ns, todo, n)
  &&& forall|j: int| 0 <= j < todo.len() ==> todook(l, ns, #[trigger] todo[j])
}
pub open spec fn isnew(l: Lay, ns: NS, z: int, c: int, n: int) -> bool { !ns[n].isQueued && anc(ns, n, c) && best(l.d, nt(l, ns, n)) == best(l.d, nt(l, ns, c)) && (n > z ==> pv(ns, n) == n - 1) }
// nodes from z on are a line down to the leaf c
pub open spec fn line(l: Lay, ns: NS, z: int, c: int) -> bool { c == ns.len() - 1 && z <= c && isleaf(ns, c) && forall|n: int| z <= n < ns.len() && n > 0 ==> #[trigger] isnew(l, ns, z, c, n) }
// the new nodes are fine
pub proof fn line_state(l: Lay, gu: Seq<GuideUnit>, vis: IMap<u32, bool>, ns: NS, todo: Seq<u32>, z: int, c: int, n: int)
  requires rguides(l, gu, vis), tree(l, vis, ns, -1), line(l, ns, z, c), z < n < ns.len(), n > 0, forall|m: int| 0 < m <= z ==> pv(ns, m) < m, !todo.contains(n as u32)
  ensures nstate(l, ns, todo, n)
{
  assert(isnew(l, ns, z, c, n)); assert(isnew(l, ns, z, c, c));
  tree_at(l, gu, vis, ns, -1, c);
  assert(livec(l, ns, n, c));
  tree_rnext(l, gu, vis, ns, -1, n);
  let w = rnext(l.d, nt(l, ns, n));
  if w != 0 && hask(l, ns, n - 1, w) {
    let m = choose|m: int| 0 < m < ns.len() && pv(ns, m) == n - 1 && #[trigger] nt(l, ns, m) == w;
    tree_at(l, gu, vis, ns, -1, m);
    if m > z { assert(isnew(l, ns, z, c, m)); }
    assert(m == n);
  }
}
// the first round
pub proof fn mid_first(l: Lay, gu: Seq<GuideUnit>, vis: IMap<u32, bool>, ns: NS, c: int)
  requires rguides(l, gu, vis), tree(l, vis, ns, -1), line(l, ns, 0, c), ns.len() > 1
  ensures mid(l, vis, ns, Seq::empty())
{
  assert forall|n: int| 0 < n < ns.len() implies #[trigger] nstate(l, ns, Seq::empty(), n) by { line_state(l, gu, vis, ns, Seq::empty(), 0, c, n); }
  reveal(mid);
}
// q had no sibling left
pub proof fn mid_last(l: Lay, gu: Seq<GuideUnit>, vis: IMap<u32, bool>, ns: NS, todo: Seq<u32>)
  requires rguides(l, gu, vis), mid(l, vis, ns, todo), todo.len() > 0, rnext(l.d, nt(l, ns, todo[0] as int)) == 0
  ensures mid(l, vis, ns, todo.drop_first())
{
  reveal(mid);
  drop_todo(todo);
  let r = todo.drop_first();
  assert forall|n: int| 0 < n < ns.len() implies #[trigger] nstate(l, ns, r, n) by { assert(nstate(l, ns, todo, n)); tree_at(l, gu, vis, ns, -1, n); if n != todo[0] { assert(r.contains(n as u32) == todo.contains(n as u32)); } else { assert(todook(l, ns, todo[0])); } }
  assert forall|j: int| 0 <= j < r.len() implies todook(l, ns, #[trigger] r[j]) by { assert(r[j] == todo[j + 1]); }
}
pub proof fn drop_todo(todo: Seq<u32>)
  requires todo.no_duplicates(), todo.len() > 0
  ensures todo.drop_first().no_duplicates(), forall|x: u32| #[trigger] todo.drop_first().contains(x) == (todo.contains(x) && x != todo[0]), todo.contains(todo[0])
{
  let r = todo.drop_first();
  assert forall|x: u32| #[trigger] r.contains(x) == (todo.contains(x) && x != todo[0]) by {
    if r.contains(x) { let j = choose|j: int| 0 <= j < r.len() && r[j] == x; assert(todo[j + 1] == x); }
    if todo.contains(x) && x != todo[0] { let j = choose|j: int| 0 <= j < todo.len() && todo[j] == x; assert(r[j - 1] == x); }
  }
}
// q got its next sibling z, and that a line down to the leaf c
pub proof fn mid_step(l: Lay, gu: Seq<GuideUnit>, vis: IMap<u32, bool>, a: NS, b: NS, todo: Seq<u32>, c: int)
  requires rguides(l, gu, vis), mid(l, vis, a, todo), todo.len() > 0, ext(a, b), tree(l, vis, b, -1), line(l, b, a.len() as int, c),
    ({ let q = todo[0] as int; let z = a.len() as int; rnext(l.d, nt(l, a, q)) != 0 && nt(l, b, z) == rnext(l.d, nt(l, a, q)) && pv(b, z) == pv(a, q) })
  ensures mid(l, vis, b, todo.drop_first())
{
  reveal(mid);
  drop_todo(todo);
  let q = todo[0] as int; let z = a.len() as int; let r = todo.drop_first(); let d = l.d;
  assert(todook(l, a, todo[0]));
  tree_at(l, gu, vis, a, -1, q);
  tree_rnext(l, gu, vis, a, -1, q);
  let p = pv(a, q); let w = rnext(d, nt(l, a, q));
  assert forall|e: int, v: int| 0 <= e < z && #[trigger] hask(l, b, e, v) implies hask(l, a, e, v) || (e == p && v == w) by {
    let m = choose|m: int| 0 < m < b.len() && pv(b, m) == e && #[trigger] nt(l, b, m) == v;
    if m < z { assert(same(a[m], b[m])); assert(nt(l, a, m) == v && pv(a, m) == e); } else { assert(isnew(l, b, z, c, m)); }
  }
  assert forall|j: int| 0 <= j < r.len() implies todook(l, b, #[trigger] r[j]) by {
    assert(r[j] == todo[j + 1]); assert(todook(l, a, todo[j + 1]));
    let n = r[j] as int;
    assert(r.contains(r[j]));
    step_free(l, gu, vis, a, b, q, n);
  }
  assert forall|n: int| 0 < n < b.len() implies #[trigger] nstate(l, b, r, n) by {
    if n < z {
      assert(nstate(l, a, todo, n)); tree_at(l, gu, vis, a, -1, n);
      assert(same(a[n], b[n]));
      assert(nt(l, b, n) == nt(l, a, n) && pv(b, n) == pv(a, n));
      if !a[n].isQueued {
        let e = choose|e: int| #[trigger] livec(l, a, n, e);
        assert(same(a[e], b[e])); anc_ext(a, b, n, e); assert(nt(l, b, e) == nt(l, a, e)); assert(livec(l, b, n, e));
        step_free(l, gu, vis, a, b, q, n);
      } else if settled(l, a, n) { if rnext(d, nt(l, a, n)) != 0 { ext_has(l, a, b, pv(a, n), rnext(d, nt(l, a, n))); } }
      else if n == q { assert(hask(l, b, p, w)) by { assert(nt(l, b, z) == w); } }
      else { assert(todo.contains(n as u32)); assert(r.contains(n as u32)); }
    } else {
      tree_at(l, gu, vis, b, -1, n);
      assert(!r.contains(n as u32)) by { if r.contains(n as u32) { let j = choose|j: int| 0 <= j < todo.len() && todo[j] == n as u32; assert(todook(l, a, todo[j])); } }
      assert forall|m: int| 0 < m <= z implies pv(b, m) < m by { tree_at(l, gu, vis, b, -1, m); }
      if n > z { line_state(l, gu, vis, b, r, z, c, n); }
      else {
        assert(isnew(l, b, z, c, z)); assert(isnew(l, b, z, c, c)); tree_at(l, gu, vis, b, -1, c);
        assert(livec(l, b, z, c));
        tree_rnext(l, gu, vis, b, -1, z);
        let x = rnext(d, w);
        if x != 0 && hask(l, b, p, x) {
          assert(hask(l, a, p, x));
          let m = choose|m: int| 0 < m < a.len() && pv(a, m) == p && #[trigger] nt(l, a, m) == x;
          tree_at(l, gu, vis, a, -1, m);
          assert(same(a[p], b[p]));
          assert(nt(l, a, p) == nt(l, b, p));
          assert(earlier(l, a, m));
          assert(hask(l, a, p, w));
        }
      }
    }
  }
}
pub proof fn step_free(l: Lay, gu: Seq<GuideUnit>, vis: IMap<u32, bool>, a: NS, b: NS, q: int, n: int)
  requires rguides(l, gu, vis), tree(l, vis, a, -1), 0 < q < a.len(), 0 < n < a.len(), ext(a, b), rfree(l, a, n), n != q,
    forall|e: int, v: int| 0 <= e < a.len() && #[trigger] hask(l, b, e, v) ==> hask(l, a, e, v) || (e == pv(a, q) && v == rnext(l.d, nt(l, a, q)))
  ensures rfree(l, b, n)
{
  tree_at(l, gu, vis, a, -1, n); tree_at(l, gu, vis, a, -1, q);
  tree_rnext(l, gu, vis, a, -1, n); tree_rnext(l, gu, vis, a, -1, q);
  assert(same(a[n], b[n]));
  assert(nt(l, b, n) == nt(l, a, n));
  let x = rnext(l.d, nt(l, a, n));
  if x != 0 && hask(l, b, pv(a, n), x) {
    assert(pv(a, n) == pv(a, q) && x == rnext(l.d, nt(l, a, q)));
    let t = nt(l, a, n); let u = nt(l, a, q);
    assert(before(l.d, t, x) && before(l.d, u, x));
    assert(t == u);
    assert(tpair(l, a, n, q)) by { reveal(tree); }
  }
}
@end
@raw
// ---- candidates: every leaf that was not reported, x aside
pub open spec fn centry(l: Lay, ns: NS, e: RankedCompleterCandidate, x: int) -> bool { let n = e.nodeIndex as int; 0 < n < ns.len() && isleaf(ns, n) && !ns[n].isQueued && e.value == best(l.d, nt(l, ns, n)) && n != x }
pub open spec fn inq(cq: Seq<RankedCompleterCandidate>, n: int) -> bool { exists|j: int| 0 <= j < cq.len() && (#[trigger] cq[j]).nodeIndex == n }
pub open spec fn iscand(ns: NS, n: int) -> bool { isleaf(ns, n) && !ns[n].isQueued }
#[verifier::opaque]
pub open spec fn cok(l: Lay, ns: NS, cq: Seq<RankedCompleterCandidate>, x: int) -> bool {
  &&& heaped(cq) && cq.no_duplicates()
  &&& forall|j: int| 0 <= j < cq.len() ==> centry(l, ns, #[trigger] cq[j], x)
  &&& forall|n: int| 0 < n < ns.len() && #[trigger] iscand(ns, n) && n != x ==> inq(cq, n)
}
pub proof fn multi_has<T>(a: Seq<T>, b: Seq<T>)
  requires a.to_multiset() == b.to_multiset()
  ensures forall|x: T| #[trigger] a.contains(x) == b.contains(x), a.no_duplicates() ==> b.no_duplicates()
{
  broadcast use vstd::seq_lib::group_to_multiset_ensures;
  assert forall|x: T| #[trigger] a.contains(x) == b.contains(x) by { assert(a.contains(x) == (a.to_multiset().count(x) > 0)); assert(b.contains(x) == (b.to_multiset().count(x) > 0)); }
  if a.no_duplicates() { a.lemma_multiset_has_no_duplicates(); assert forall|x: T| b.to_multiset().contains(x) implies #[trigger] b.to_multiset().count(x) == 1 by { assert(a.to_multiset().count(x) == 1); } b.lemma_multiset_has_no_duplicates_conv(); }
}
pub proof fn cok_push(l: Lay, ns: NS, cq: Seq<RankedCompleterCandidate>, e: RankedCompleterCandidate, cr: Seq<RankedCompleterCandidate>)
  requires cok(l, ns, cq, e.nodeIndex as int), centry(l, ns, e, -1), heaped(cr), cr.to_multiset() == cq.push(e).to_multiset()
  ensures cok(l, ns, cr, -1)
{
  reveal(cok);
  let x = e.nodeIndex as int;
  let p = cq.push(e);
  assert(p.no_duplicates()) by { assert forall|i: int, j: int| 0 <= i < p.len() && 0 <= j < p.len() && i != j implies p[i] != p[j] by { if i < cq.len() { assert(centry(l, ns, cq[i], x)); } if j < cq.len() { assert(centry(l, ns, cq[j], x)); } } }
  multi_has(p, cr);
  assert forall|j: int| 0 <= j < cr.len() implies centry(l, ns, #[trigger] cr[j], -1) by {
    assert(cr.contains(cr[j])); assert(p.contains(cr[j])); let i = choose|i: int| 0 <= i < p.len() && p[i] == cr[j]; if i < cq.len() { assert(centry(l, ns, cq[i], x)); }
  }
  assert forall|n: int| 0 < n < ns.len() && #[trigger] iscand(ns, n) && n != -1 implies inq(cr, n) by {
    let f = if n == x { e } else { let i = choose|i: int| 0 <= i < cq.len() && (#[trigger] cq[i]).nodeIndex == n; cq[i] };
    assert(p.contains(f)) by { if n == x { assert(p[cq.len() as int] == e); } else { let i = choose|i: int| 0 <= i < cq.len() && (#[trigger] cq[i]).nodeIndex == n; assert(p[i] == cq[i]); } }
    assert(cr.contains(f)); let j = choose|j: int| 0 <= j < cr.len() && cr[j] == f; assert(cr[j].nodeIndex == n);
  }
}
// new nodes down to the leaf c
pub proof fn cok_ext(l: Lay, gu: Seq<GuideUnit>, vis: IMap<u32, bool>, a: NS, b: NS, cq: Seq<RankedCompleterCandidate>, z: int, c: int)
  requires rguides(l, gu, vis), tree(l, vis, b, -1), cok(l, a, cq, -1), ext(a, b), line(l, b, z, c), z <= a.len() <= c, z < a.len() ==> z == 0 && a.len() == 1
  ensures cok(l, b, cq, c)
{
  reveal(cok);
  assert forall|j: int| 0 <= j < cq.len() implies centry(l, b, #[trigger] cq[j], c) by { assert(centry(l, a, cq[j], -1)); let n = cq[j].nodeIndex as int; assert(same(a[n], b[n])); assert(nt(l, a, n) == nt(l, b, n)); }
  assert forall|n: int| 0 < n < b.len() && #[trigger] iscand(b, n) && n != c implies inq(cq, n) by {
    if n < a.len() { assert(same(a[n], b[n])); assert(iscand(a, n)); }
    else { assert(isnew(l, b, z, c, n + 1)); tree_at(l, gu, vis, b, -1, n + 1); }
  }
}
pub proof fn tree_leaf(l: Lay, vis: IMap<u32, bool>, ns: NS, tip: int)
  requires tree(l, vis, ns, tip), 0 <= tip < ns.len(), isleaf(ns, tip)
  ensures tree(l, vis, ns, -1)
{ reveal(tree); assert forall|n: int| 0 <= n < ns.len() implies #[trigger] tnode(l, vis, ns, -1, n) by { assert(tnode(l, vis, ns, tip, n)); } }
// ---- ancestors form a line
pub proof fn anc_le(ns: NS, q: int, c: int)
  requires anc(ns, q, c)
  ensures q <= c, q != c ==> 0 < c && pv(ns, c) < c && anc(ns, q, pv(ns, c)) && q <= pv(ns, c)
  decreases c
{ if q != c { anc_le(ns, q, pv(ns, c)); } }
pub proof fn anc_line(ns: NS, q: int, m: int, c: int)
  requires anc(ns, q, c), anc(ns, m, c), q <= m
  ensures anc(ns, q, m)
  decreases c
{ anc_le(ns, q, c); anc_le(ns, m, c); if m != c { if q == c { } else { anc_line(ns, q, m, pv(ns, c)); } } }
pub proof fn anc_trans(ns: NS, q: int, m: int, c: int)
  requires anc(ns, q, m), anc(ns, m, c)
  ensures anc(ns, q, c)
  decreases c
{ anc_le(ns, m, c); anc_le(ns, q, m); if m != c { anc_trans(ns, q, m, pv(ns, c)); } }
pub proof fn anc_leaf(l: Lay, gu: Seq<GuideUnit>, vis: IMap<u32, bool>, ns: NS, n: int, c: int)
  requires rguides(l, gu, vis), tree(l, vis, ns, -1), 0 <= c < ns.len(), anc(ns, n, c), 0 <= n, n < ns.len(), isleaf(ns, n)
  ensures n == c
  decreases c
{ anc_le(ns, n, c); if n != c { tree_at(l, gu, vis, ns, -1, c); if n == pv(ns, c) { } else { anc_leaf(l, gu, vis, ns, n, pv(ns, c)); } } }
// ---- c is reported: it and what leads to it are due for their siblings
pub open spec fn marked(a: NS, b: NS) -> bool { a.len() == b.len() && forall|n: int| 0 <= n < a.len() ==> #[trigger] b[n] == (RankedCompleterNode { isQueued: b[n].isQueued, ..a[n] }) }
pub open spec fn flags(a: NS, b: NS, c: int, i: int) -> bool { forall|n: int| 0 < n < a.len() ==> (#[trigger] b[n]).isQueued == (a[n].isQueued || (anc(a, n, c) && n > i)) }
pub open spec fn newly(a: NS, q: Seq<u32>, c: int, i: int) -> bool { forall|x: u32| #[trigger] q.contains(x) == (0 < x < a.len() && !a[x as int].isQueued && anc(a, x as int, c) && x > i) }
pub proof fn anc_marked(a: NS, b: NS, q: int, c: int)
  requires marked(a, b), 0 <= c < a.len()
  ensures anc(a, q, c) == anc(b, q, c), npath(a, c) == npath(b, c)
  decreases c
{ assert(b[c] == (RankedCompleterNode { isQueued: b[c].isQueued, ..a[c] })); if c > 0 && pv(a, c) < c { anc_marked(a, b, q, pv(a, c)); } }
pub proof fn hask_marked(l: Lay, a: NS, b: NS)
  requires marked(a, b)
  ensures forall|p: int, w: int| #[trigger] hask(l, b, p, w) == hask(l, a, p, w), forall|p: int| #[trigger] hasany(b, p) == hasany(a, p), forall|n: int| 0 <= n < a.len() ==> #[trigger] nt(l, b, n) == nt(l, a, n) && pv(b, n) == pv(a, n)
{
  assert forall|n: int| 0 <= n < a.len() implies #[trigger] nt(l, b, n) == nt(l, a, n) && pv(b, n) == pv(a, n) by { assert(b[n] == (RankedCompleterNode { isQueued: b[n].isQueued, ..a[n] })); }
  assert forall|p: int, w: int| #[trigger] hask(l, b, p, w) == hask(l, a, p, w) by {
    if hask(l, a, p, w) { let m = choose|m: int| 0 < m < a.len() && pv(a, m) == p && #[trigger] nt(l, a, m) == w; assert(nt(l, b, m) == w && pv(b, m) == p); }
    if hask(l, b, p, w) { let m = choose|m: int| 0 < m < b.len() && pv(b, m) == p && #[trigger] nt(l, b, m) == w; assert(nt(l, a, m) == w && pv(a, m) == p); }
  }
  assert forall|p: int| #[trigger] hasany(b, p) == hasany(a, p) by {
    if hasany(a, p) { let m = choose|m: int| 0 < m < a.len() && #[trigger] pv(a, m) == p; assert(nt(l, b, m) == nt(l, a, m)); assert(pv(b, m) == p); }
    if hasany(b, p) { let m = choose|m: int| 0 < m < b.len() && #[trigger] pv(b, m) == p; assert(nt(l, b, m) == nt(l, a, m)); assert(pv(a, m) == p); }
  }
}
pub proof fn mid_pop(l: Lay, gu: Seq<GuideUnit>, vis: IMap<u32, bool>, a: NS, b: NS, c: int, q: Seq<u32>)
  requires rguides(l, gu, vis), mid(l, vis, a, Seq::empty()), 0 < c < a.len(), isleaf(a, c), !a[c].isQueued, marked(a, b), flags(a, b, c, 0), newly(a, q, c, 0), q.no_duplicates()
  ensures mid(l, vis, b, q)
{
  reveal(mid);
  hask_marked(l, a, b);
  assert(tree(l, vis, b, -1)) by {
    assert forall|n: int| 0 <= n < b.len() implies #[trigger] tnode(l, vis, b, -1, n) by {
      tree_at(l, gu, vis, a, -1, n);
      assert(b[n] == (RankedCompleterNode { isQueued: b[n].isQueued, ..a[n] }));
      assert(nt(l, b, n) == nt(l, a, n));
      assert(hasany(b, n) == hasany(a, n));
      if n > 0 { let p = pv(a, n); assert(nt(l, b, p) == nt(l, a, p)); assert(b[p] == (RankedCompleterNode { isQueued: b[p].isQueued, ..a[p] })); assert(earlier(l, a, n)); assert(earlier(l, b, n)); }
      assert(termok(l, b, n)) by { assert(termok(l, a, n)); }
    }
    assert forall|n: int, m: int| 0 < n < b.len() && 0 < m < b.len() && n != m implies #[trigger] tpair(l, b, n, m) by { assert(tpair(l, a, n, m)) by { reveal(tree); } assert(nt(l, b, n) == nt(l, a, n)); assert(nt(l, b, m) == nt(l, a, m)); }
    reveal(tree);
  }
  tree_at(l, gu, vis, a, -1, c);
  assert forall|n: int| 0 < n < b.len() implies #[trigger] nstate(l, b, q, n) by {
    assert(nstate(l, a, Seq::empty(), n));
    assert(nt(l, b, n) == nt(l, a, n));
    assert(b[n].isQueued == (a[n].isQueued || (anc(a, n, c) && n > 0)));
    assert(q.contains(n as u32) == (!a[n].isQueued && anc(a, n, c)));
    if !b[n].isQueued {
      let e = choose|e: int| #[trigger] livec(l, a, n, e);
      anc_marked(a, b, n, e);
      assert(b[e] == (RankedCompleterNode { isQueued: b[e].isQueued, ..a[e] }));
      assert(nt(l, b, e) == nt(l, a, e));
      if anc(a, e, c) { anc_leaf(l, gu, vis, a, e, c); }
      assert(livec(l, b, n, e));
    } else if a[n].isQueued { assert(settled(l, b, n)); }
  }
  assert forall|j: int| 0 <= j < q.len() implies todook(l, b, #[trigger] q[j]) by {
    let n = q[j] as int;
    assert(q.contains(q[j]));
    assert(nstate(l, a, Seq::empty(), n));
    assert(nt(l, b, n) == nt(l, a, n));
  }
}
pub proof fn cok_pop(l: Lay, a: NS, b: NS, cq: Seq<RankedCompleterCandidate>, cr: Seq<RankedCompleterCandidate>, c: int)
  requires cok(l, a, cq, -1), cq.len() > 0, c == cq[0].nodeIndex, marked(a, b), forall|n: int| 0 < n < a.len() && isleaf(a, n) ==> (#[trigger] b[n]).isQueued == (a[n].isQueued || n == c), heaped(cr), cr.to_multiset() == cq.drop_first().to_multiset()
  ensures cok(l, b, cr, -1)
{
  reveal(cok);
  let r = cq.drop_first();
  multi_has(r, cr);
  assert(centry(l, a, cq[0], -1));
  assert forall|j: int| 0 <= j < cr.len() implies centry(l, b, #[trigger] cr[j], -1) by {
    assert(cr.contains(cr[j])); assert(r.contains(cr[j])); let i = choose|i: int| 0 <= i < r.len() && r[i] == cr[j]; assert(r[i] == cq[i + 1]); assert(centry(l, a, cq[i + 1], -1));
    let n = cr[j].nodeIndex as int;
    assert(n != c) by { if n == c { assert(cq[i + 1] == cq[0]); } }
    assert(b[n] == (RankedCompleterNode { isQueued: b[n].isQueued, ..a[n] }));
  }
  assert forall|n: int| 0 < n < b.len() && #[trigger] iscand(b, n) && n != -1 implies inq(cr, n) by {
    assert(b[n] == (RankedCompleterNode { isQueued: b[n].isQueued, ..a[n] }));
    assert(iscand(a, n));
    let i = choose|i: int| 0 <= i < cq.len() && (#[trigger] cq[i]).nodeIndex == n;
    assert(i != 0);
    assert(r[i - 1] == cq[i]); assert(r.contains(cq[i])); assert(cr.contains(cq[i]));
    let j = choose|j: int| 0 <= j < cr.len() && cr[j] == cq[i]; assert(cr[j].nodeIndex == n);
  }
}
// ---- keys
pub open spec fn repn(ns: NS, n: int, k: Seq<u8>) -> bool { 0 < n < ns.len() && isleaf(ns, n) && ns[n].isQueued && npath(ns, pv(ns, n)) == k }
pub open spec fn reported(ns: NS, k: Seq<u8>) -> bool { exists|n: int| #[trigger] repn(ns, n, k) }
pub proof fn np_ext(a: NS, b: NS, n: int)
  requires ext(a, b), 0 <= n < a.len()
  ensures npath(a, n) == npath(b, n)
  decreases n
{ assert(same(a[n], b[n])); if n > 0 && pv(a, n) < n { np_ext(a, b, pv(a, n)); } }
pub proof fn np_walk(l: Lay, gu: Seq<GuideUnit>, vis: IMap<u32, bool>, ns: NS, tip: int, n: int)
  requires rguides(l, gu, vis), tree(l, vis, ns, tip), 0 <= n < ns.len(), !isleaf(ns, n)
  ensures dwalk(l.d, nt(l, ns, 0), npath(ns, n)) == Some(nt(l, ns, n))
  decreases n
{
  tree_at(l, gu, vis, ns, tip, n);
  if n > 0 {
    let p = pv(ns, n); let c = ns[n].label; let d = l.d;
    np_walk(l, gu, vis, ns, tip, p);
    in_kid(d, nt(l, ns, p), nt(l, ns, n));
    dwalk_cat(d, nt(l, ns, 0), npath(ns, p), seq![c]);
    assert(npath(ns, p) + seq![c] =~= npath(ns, n));
    assert(seq![c].drop_first() =~= Seq::<u8>::empty());
    reveal_with_fuel(dwalk, 2);
  }
}
pub proof fn np_inj(l: Lay, gu: Seq<GuideUnit>, vis: IMap<u32, bool>, ns: NS, tip: int, n: int, m: int)
  requires rguides(l, gu, vis), tree(l, vis, ns, tip), 0 <= n < ns.len(), 0 <= m < ns.len(), npath(ns, n) == npath(ns, m), isleaf(ns, n) == isleaf(ns, m)
  ensures n == m
  decreases n
{
  tree_at(l, gu, vis, ns, tip, n); tree_at(l, gu, vis, ns, tip, m);
  if n > 0 && m > 0 {
    let p = pv(ns, n); let q = pv(ns, m);
    assert(npath(ns, n).drop_last() =~= npath(ns, p)); assert(npath(ns, m).drop_last() =~= npath(ns, q));
    assert(npath(ns, n).last() == ns[n].label && npath(ns, m).last() == ns[m].label);
    np_inj(l, gu, vis, ns, tip, p, q);
    in_kid(l.d, nt(l, ns, p), nt(l, ns, n)); in_kid(l.d, nt(l, ns, p), nt(l, ns, m));
    if n != m { assert(tpair(l, ns, n, m)) by { reveal(tree); } }
  } else if n > 0 || m > 0 {
    assert(npath(ns, 0).len() == 0);
    assert(npath(ns, n).len() == npath(ns, m).len());
  }
}
// a leaf spells a key with its value
pub proof fn leaf_look(l: Lay, gu: Seq<GuideUnit>, vis: IMap<u32, bool>, ns: NS, tip: int, c: int)
  requires rguides(l, gu, vis), tree(l, vis, ns, tip), 0 < c < ns.len(), isleaf(ns, c)
  ensures dlook(l.d, nt(l, ns, 0), npath(ns, pv(ns, c))) == Some(best(l.d, nt(l, ns, c))), best(l.d, nt(l, ns, c)) >= 0
{
  tree_at(l, gu, vis, ns, tip, c);
  let p = pv(ns, c);
  np_walk(l, gu, vis, ns, tip, p);
  in_kid(l.d, nt(l, ns, p), nt(l, ns, c));
  bval_pos(l.d.base[nt(l, ns, c)]);
}
pub proof fn look_val(l: Lay, i: u32, k: Seq<u8>)
  requires l.ok(), l.is(i)
  ensures val_at(l.us, i, k) == dlook(l.d, l.at(i), k)
{
  lay_walk(l.d, l.us, l.nd, l.grp, i, l.at(i), k);
  if walk(l.us, i, k) is Some { lay_step(l.d, l.us, l.nd, l.grp, walk(l.us, i, k)->0, dwalk(l.d, l.at(i), k)->0, 0); }
}
pub proof fn best_look(d: DG, t: int, k: Seq<u8>)
  requires tw(d, t), dlook(d, t, k) is Some
  ensures dlook(d, t, k)->0 <= best(d, t)
  decreases k.len()
{
  let c = if k.len() == 0 { 0u8 } else { k[0] };
  best_is(d, t);
  first_in(d, t);
  let u = kid(d, t, c)->0;
  scan_props(d, d.child(t), c); gend_bounds(d, d.child(t));
  assert(in_group(d, d.child(t), u));
  gbest_max(d, d.child(t), u);
  if k.len() > 0 { best_look(d, u, k.drop_first()); }
}
pub proof fn before_trans(d: DG, a: int, b: int, c: int)
  requires before(d, a, b), before(d, b, c)
  ensures before(d, a, c)
{ }
// below n, the k-th of the chain is missing: the last one there waits
pub proof fn waiting(l: Lay, gu: Seq<GuideUnit>, vis: IMap<u32, bool>, ns: NS, n: int, k: int) -> (q: int)
  requires rguides(l, gu, vis), tree(l, vis, ns, -1), 0 <= n < ns.len(), !isleaf(ns, n), 0 <= k < chn(l.d, l.d.child(nt(l, ns, n))).len(), !(hask(l, ns, n, chn(l.d, l.d.child(nt(l, ns, n)))[k]))
  ensures 0 < q < ns.len(), pv(ns, q) == n, !settled(l, ns, q), before(l.d, nt(l, ns, q), chn(l.d, l.d.child(nt(l, ns, n)))[k])
  decreases k
{
  let d = l.d; let g = d.child(nt(l, ns, n)); let s = chn(d, g);
  tree_at(l, gu, vis, ns, -1, n);
  rvis_is(l, gu, vis, ns[n].dictIndex);
  first_in(d, nt(l, ns, n));
  if k == 0 {
    assert(hasany(ns, n));
    let m = choose|m: int| 0 < m < ns.len() && #[trigger] pv(ns, m) == n;
    tree_at(l, gu, vis, ns, -1, m);
    assert(s.contains(nt(l, ns, m)));
    let j = choose|j: int| 0 <= j < s.len() && s[j] == nt(l, ns, m);
    assert(in_group(d, g, s[0]));
    if j > 0 { assert(before(d, s[0], s[j])); assert(earlier(l, ns, m)); assert(hask(l, ns, n, s[0])); }
    0
  } else if hask(l, ns, n, s[k - 1]) {
    let m = choose|m: int| 0 < m < ns.len() && pv(ns, m) == n && #[trigger] nt(l, ns, m) == s[k - 1];
    chain_at(d, g, k - 1); chain_at(d, g, k);
    assert(before(d, s[k - 1], s[k]));
    m
  } else {
    let m = waiting(l, gu, vis, ns, n, k - 1);
    assert(before(d, s[k - 1], s[k]));
    before_trans(d, nt(l, ns, m), s[k - 1], s[k]);
    m
  }
}
// a key below n is reported, or a candidate has at least its value
pub proof fn reach_leaf(l: Lay, gu: Seq<GuideUnit>, vis: IMap<u32, bool>, ns: NS, n: int, k: Seq<u8>) -> (c: int)
  requires rguides(l, gu, vis), mid(l, vis, ns, Seq::empty()), 0 <= n < ns.len(), !isleaf(ns, n), dlook(l.d, nt(l, ns, n), k) is Some
  ensures 0 < c < ns.len(), isleaf(ns, c), best(l.d, nt(l, ns, c)) >= dlook(l.d, nt(l, ns, n), k)->0, ns[c].isQueued ==> npath(ns, pv(ns, c)) == npath(ns, n) + k
  decreases k.len()
{
  assert(tree(l, vis, ns, -1)) by { reveal(mid); }
  let d = l.d; let t = nt(l, ns, n); let g = d.child(t); let b = if k.len() == 0 { 0u8 } else { k[0] };
  tree_at(l, gu, vis, ns, -1, n);
  rvis_is(l, gu, vis, ns[n].dictIndex);
  first_in(d, t); scan_props(d, g, b); gend_bounds(d, g);
  let u = kid(d, t, b)->0;
  assert(in_group(d, g, u));
  let v = dlook(d, t, k)->0;
  if k.len() > 0 { assert(tw(d, u)); best_look(d, u, k.drop_first()); }
  assert(best(d, u) >= v);
  if hask(l, ns, n, u) {
    let m = choose|m: int| 0 < m < ns.len() && pv(ns, m) == n && #[trigger] nt(l, ns, m) == u;
    tree_at(l, gu, vis, ns, -1, m);
    if k.len() == 0 { assert(npath(ns, n) + k =~= npath(ns, n)); m }
    else { let c = reach_leaf(l, gu, vis, ns, m, k.drop_first()); assert(npath(ns, m) + k.drop_first() =~= npath(ns, n) + k); c }
  } else {
    let s = chn(d, g);
    assert(s.contains(u));
    let j = choose|j: int| 0 <= j < s.len() && s[j] == u;
    let q = waiting(l, gu, vis, ns, n, j);
    assert(nstate(l, ns, Seq::empty(), q)) by { reveal(mid); }
    choose|c: int| #[trigger] livec(l, ns, q, c)
  }
}
pub proof fn some_candidate(l: Lay, gu: Seq<GuideUnit>, vis: IMap<u32, bool>, ns: NS, cq: Seq<RankedCompleterCandidate>, k: Seq<u8>)
  requires rguides(l, gu, vis), mid(l, vis, ns, Seq::empty()), cok(l, ns, cq, -1), dlook(l.d, nt(l, ns, 0), k) is Some, !reported(ns, k)
  ensures cq.len() > 0, dlook(l.d, nt(l, ns, 0), k)->0 <= cq[0].value
{
  assert(tree(l, vis, ns, -1) && ns.len() > 1) by { reveal(mid); }
  tree_at(l, gu, vis, ns, -1, 0);
  let c = reach_leaf(l, gu, vis, ns, 0, k);
  assert(npath(ns, 0) + k =~= k);
  if ns[c].isQueued { assert(repn(ns, c, k)); }
  reveal(cok);
  assert(iscand(ns, c));
  let j = choose|j: int| 0 <= j < cq.len() && (#[trigger] cq[j]).nodeIndex == c;
  assert(centry(l, ns, cq[j], -1));
  heap_top(cq, j);
}
pub proof fn rep_ext(l: Lay, a: NS, b: NS, k: Seq<u8>)
  requires ext(a, b), forall|n: int| 0 < n < a.len() ==> 0 <= #[trigger] pv(a, n) < n, forall|n: int| a.len() <= n < b.len() ==> !(#[trigger] b[n]).isQueued
  ensures reported(a, k) == reported(b, k)
{
  if reported(a, k) { let n = choose|n: int| #[trigger] repn(a, n, k); assert(same(a[n], b[n])); np_ext(a, b, pv(a, n)); assert(repn(b, n, k)); }
  if reported(b, k) { let n = choose|n: int| #[trigger] repn(b, n, k); assert(n < a.len()); assert(same(a[n], b[n])); np_ext(a, b, pv(a, n)); assert(repn(a, n, k)); }
}
pub proof fn rep_pop(l: Lay, gu: Seq<GuideUnit>, vis: IMap<u32, bool>, a: NS, b: NS, c: int, k: Seq<u8>)
  requires rguides(l, gu, vis), tree(l, vis, a, -1), marked(a, b), 0 < c < a.len(), isleaf(a, c), forall|n: int| 0 < n < a.len() && isleaf(a, n) ==> (#[trigger] b[n]).isQueued == (a[n].isQueued || n == c)
  ensures reported(b, k) == (reported(a, k) || k == npath(a, pv(a, c)))
{
  if reported(a, k) { let n = choose|n: int| #[trigger] repn(a, n, k); tree_at(l, gu, vis, a, -1, n); assert(b[n] == (RankedCompleterNode { isQueued: b[n].isQueued, ..a[n] })); anc_marked(a, b, 0, pv(a, n)); assert(repn(b, n, k)); }
  if reported(b, k) { let n = choose|n: int| #[trigger] repn(b, n, k); tree_at(l, gu, vis, a, -1, n); assert(b[n] == (RankedCompleterNode { isQueued: b[n].isQueued, ..a[n] })); anc_marked(a, b, 0, pv(a, n)); if n != c { assert(repn(a, n, k)); } }
  if k == npath(a, pv(a, c)) { tree_at(l, gu, vis, a, -1, c); assert(b[c] == (RankedCompleterNode { isQueued: b[c].isQueued, ..a[c] })); anc_marked(a, b, 0, pv(a, c)); assert(repn(b, c, k)); }
}
// a candidate was not reported
pub proof fn cand_new(l: Lay, gu: Seq<GuideUnit>, vis: IMap<u32, bool>, ns: NS, c: int)
  requires rguides(l, gu, vis), tree(l, vis, ns, -1), 0 < c < ns.len(), isleaf(ns, c), !ns[c].isQueued
  ensures !reported(ns, npath(ns, pv(ns, c)))
{
  let k = npath(ns, pv(ns, c));
  if reported(ns, k) {
    let n = choose|n: int| #[trigger] repn(ns, n, k);
    tree_at(l, gu, vis, ns, -1, n); tree_at(l, gu, vis, ns, -1, c);
    np_inj(l, gu, vis, ns, -1, pv(ns, n), pv(ns, c));
    in_kid(l.d, nt(l, ns, pv(ns, c)), nt(l, ns, c)); in_kid(l.d, nt(l, ns, pv(ns, c)), nt(l, ns, n));
    assert(tpair(l, ns, n, c)) by { reveal(tree); }
  }
}
@end
@ghostfield RankedCompleter lay: Ghost<Option<(Lay, IMap<u32, bool>)>> = Ghost(None)
@raw
// ---------------------------------------------------------------- the ranked completer
pub open spec fn rlay(c: RankedCompleter) -> Lay { (c.lay@->0).0 }
pub open spec fn rvs(c: RankedCompleter) -> IMap<u32, bool> { (c.lay@->0).1 }
pub open spec fn rready(c: RankedCompleter) -> bool { c.lay@ is Some && rlay(c).us == c.dict.units@ && rguides(rlay(c), c.guide.units@, rvs(c)) }
pub open spec fn rtree(c: RankedCompleter, tip: int) -> bool { tree(rlay(c), rvs(c), c.nodes@, tip) }
pub open spec fn rcok(c: RankedCompleter, x: int) -> bool { cok(rlay(c), c.nodes@, c.candidateQueue@, x) }
pub proof fn ext_trans(a: NS, b: NS, c: NS)
  requires ext(a, b), ext(b, c)
  ensures ext(a, c)
{ assert forall|n: int| 0 <= n < a.len() implies same(#[trigger] a[n], c[n]) by { assert(same(a[n], b[n])); assert(same(b[n], c[n])); } }
// the best child of p
pub proof fn child_is(l: Lay, gu: Seq<GuideUnit>, vis: IMap<u32, bool>, ns: NS, tip: int, p: int)
  requires rguides(l, gu, vis), tree(l, vis, ns, tip), 0 <= p < ns.len(), ns[p].label != 0
  ensures ({ let i = ns[p].dictIndex; let t = nt(l, ns, p); let w = rfirst(l.d, t); let c = gu[i as int].Child;
    &&& i < gu.len() && gu.len() == l.us.len() && node(l.us, i) && c == l.d.label[w] && (c != 0 ==> node(l.us, nx(l.us, i, c)))
    &&& in_group(l.d, l.d.child(t), w) && best(l.d, w) == best(l.d, t) && w > 0
    &&& forall|v: int| #[trigger] in_group(l.d, l.d.child(t), v) ==> !before(l.d, v, w) })
{
  tree_at(l, gu, vis, ns, tip, p);
  let i = ns[p].dictIndex; let t = nt(l, ns, p); let d = l.d;
  rvis_is(l, gu, vis, i);
  chain_best(d, t); first_in(d, t);
  let s = chn(d, d.child(t)); let w = s[0];
  in_kid(d, t, w);
  lay_kid(l, i, d.label[w]);
  if d.label[w] != 0 { lay_is(l, nx(l.us, i, d.label[w])); }
  assert forall|v: int| #[trigger] in_group(d, d.child(t), v) implies !before(d, v, w) by { assert(s.contains(v)); let j = choose|j: int| 0 <= j < s.len() && s[j] == v; if j > 0 { assert(before(d, s[0], s[j])); } }
}
// one step down from the last node
pub proof fn go_down(l: Lay, gu: Seq<GuideUnit>, vis: IMap<u32, bool>, a: NS, b: NS, z: int, p: int)
  requires rguides(l, gu, vis), tree(l, vis, a, p), p == a.len() - 1, a[p].label != 0, added(l, a, b, p, rfirst(l.d, nt(l, a, p))), b.len() < MAXLEN,
    0 <= z <= p, forall|n: int| z <= n < a.len() && n > 0 ==> #[trigger] isnew(l, a, z, p, n)
  ensures tree(l, vis, b, p + 1), ext(a, b), forall|n: int| z <= n < b.len() && n > 0 ==> #[trigger] isnew(l, b, z, p + 1, n), 0 <= rank(l.d, nt(l, b, p + 1)) < rank(l.d, nt(l, a, p))
{
  let w = rfirst(l.d, nt(l, a, p));
  child_is(l, gu, vis, a, p, p);
  tree_at(l, gu, vis, a, p, p);
  assert(!hasany(a, p));
  if hask(l, a, p, w) { let m = choose|m: int| 0 < m < a.len() && pv(a, m) == p && #[trigger] nt(l, a, m) == w; assert(pv(a, m) == p); }
  tree_add(l, gu, vis, a, b, p, p, w);
  tree_at(l, gu, vis, b, p + 1, p + 1);
  assert(same(a[p], b[p]));
  assert(nt(l, b, p) == nt(l, a, p));
  assert forall|n: int| z <= n < b.len() && n > 0 implies #[trigger] isnew(l, b, z, p + 1, n) by {
    if n <= p { assert(isnew(l, a, z, p, n)); assert(same(a[n], b[n])); anc_ext(a, b, n, p); assert(anc(b, n, p + 1)); assert(nt(l, b, n) == nt(l, a, n)); }
  }
}
// the next sibling of q
pub proof fn sib_is(l: Lay, gu: Seq<GuideUnit>, vis: IMap<u32, bool>, ns: NS, q: int)
  requires rguides(l, gu, vis), tree(l, vis, ns, -1), 0 < q < ns.len(), rfree(l, ns, q)
  ensures ({ let p = pv(ns, q); let i = ns[q].dictIndex; let j = ns[p].dictIndex; let t = nt(l, ns, p); let w = rnext(l.d, nt(l, ns, q)); let s = gu[i as int].Sibling;
    &&& 0 <= p < q && i < gu.len() && gu.len() == l.us.len() && node(l.us, j) && ns[p].label != 0
    &&& (s != 0 ==> w != 0) && (s == 0 ==> ns[p].hasTerminal == (w != 0))
    &&& w != 0 ==> in_group(l.d, l.d.child(t), w) && l.d.label[w] == s && !hask(l, ns, p, w) && (s != 0 ==> node(l.us, nx(l.us, j, s))) && forall|v: int| #[trigger] in_group(l.d, l.d.child(t), v) && before(l.d, v, w) ==> hask(l, ns, p, v) })
{
  tree_at(l, gu, vis, ns, -1, q);
  tree_rnext(l, gu, vis, ns, -1, q);
  let p = pv(ns, q); let i = ns[q].dictIndex; let j = ns[p].dictIndex; let d = l.d; let t = nt(l, ns, p); let u = nt(l, ns, q); let w = rnext(d, u); let s = gu[i as int].Sibling; let g = d.child(t);
  rvis_is(l, gu, vis, j);
  first_in(d, t); scan_props(d, g, 0); gend_bounds(d, g);
  assert(hask(l, ns, p, u));
  assert(earlier(l, ns, q) && termok(l, ns, p));
  if w != 0 {
    in_kid(d, t, w); lay_kid(l, j, s);
    if s != 0 { lay_is(l, nx(l.us, j, s)); }
  }
  if s == 0 {
    lay_kid(l, j, 0);
    if ns[p].hasTerminal && w == 0 { assert(in_group(d, g, g)); assert(g == u || before(d, g, u)); assert(hask(l, ns, p, g)); }
  }
}
@end
@fn RankedCompleter.createNode
@requires label != 0 ==> node(old(self).dict.units@, dictIndex)
@ensures *final(self) == (RankedCompleter { nodes: final(self).nodes, ..*old(self) }), final(self).nodes@.len() < MAXLEN, r == old(self).nodes@.len(),
  final(self).nodes@ == old(self).nodes@.push(RankedCompleterNode { dictIndex, prevNodeIndex, label, isQueued: false, hasTerminal: label != 0 && hasleaf(old(self).dict.units@[dictIndex as int]) })
@end
@fn RankedCompleter.followWithoutCheck
@requires node(self.dict.units@, index)
@ensures r == nx(self.dict.units@, index, label)
@at entry
  proof { nx_range(self.dict.units@, index, label); }
@end
@fn RankedCompleter.findTerminal
@requires rready(*old(self)), rtree(*old(self), nodeIndex as int), nodeIndex == old(self).nodes@.len() - 1, nodeIndex > 0 ==> !old(self).nodes@[nodeIndex as int].isQueued
@ensures *final(self) == (RankedCompleter { nodes: final(self).nodes, ..*old(self) }), ext(old(self).nodes@, final(self).nodes@), rtree(*final(self), -1), line(rlay(*old(self)), final(self).nodes@, nodeIndex as int, r as int), r == final(self).nodes@.len() - 1, r > 0
@at entry
  hide(follows); hide(nx);
  let ghost s0 = *self;
  let ghost l = rlay(s0);
  let ghost vis = rvs(s0);
  let ghost gu = self.guide.units@;
  let ghost z = nodeIndex as int;
  let ghost mut a = self.nodes@;
  proof { tree_at(l, gu, vis, self.nodes@, z, z); }
@loop 1
  invariant *self == (RankedCompleter { nodes: self.nodes, ..s0 }), nodeIndex == self.nodes@.len() - 1, z <= nodeIndex, ext(s0.nodes@, self.nodes@), tree(l, vis, self.nodes@, nodeIndex as int), self.nodes@.len() < MAXLEN,
    forall|n: int| z <= n < self.nodes@.len() && n > 0 ==> #[trigger] isnew(l, self.nodes@, z, nodeIndex as int, n)
  decreases rank(l.d, nt(l, self.nodes@, nodeIndex as int))
@at begin 1
  proof { a = self.nodes@; child_is(l, gu, vis, a, nodeIndex as int, nodeIndex as int); tree_at(l, gu, vis, a, nodeIndex as int, nodeIndex as int); }
@at end 1
  proof { go_down(l, gu, vis, a, self.nodes@, z, a.len() - 1); ext_trans(s0.nodes@, a, self.nodes@); }
@at after loop 1
  proof { tree_at(l, gu, vis, self.nodes@, nodeIndex as int, nodeIndex as int); tree_leaf(l, vis, self.nodes@, nodeIndex as int); }
@end
@fn RankedCompleter.findSibling
@requires rready(*old(self)), rtree(*old(self), -1), 0 < *old(nodeIndex) < old(self).nodes@.len(), rfree(rlay(*old(self)), old(self).nodes@, *old(nodeIndex) as int)
@ensures *final(self) == (RankedCompleter { nodes: final(self).nodes, ..*old(self) }), ext(old(self).nodes@, final(self).nodes@),
  ({ let l = rlay(*old(self)); let a = old(self).nodes@; let b = final(self).nodes@; let q = *old(nodeIndex) as int; let z = a.len() as int; let w = rnext(l.d, nt(l, a, q));
    &&& r == (w != 0) && (!r ==> b == a)
    &&& r ==> *final(nodeIndex) == z && b.len() == z + 1 && rtree(*final(self), z) && nt(l, b, z) == w && pv(b, z) == pv(a, q) && !b[z].isQueued })
@at entry
  hide(follows); hide(nx);
  let ghost l = rlay(*self);
  let ghost vis = rvs(*self);
  let ghost gu = self.guide.units@;
  let ghost a = self.nodes@;
  let ghost q = *nodeIndex as int;
  proof { sib_is(l, gu, vis, a, q); tree_at(l, gu, vis, a, -1, q); }
@at return 2
  proof { tree_add(l, gu, vis, a, self.nodes@, -1, pv(a, q), rnext(l.d, nt(l, a, q))); }
@end
@fn RankedCompleter.enqueueCandidate
@requires rready(*old(self)), rtree(*old(self), -1), 0 < nodeIndex < old(self).nodes@.len(), isleaf(old(self).nodes@, nodeIndex as int), !old(self).nodes@[nodeIndex as int].isQueued, rcok(*old(self), nodeIndex as int)
@ensures *final(self) == (RankedCompleter { candidateQueue: final(self).candidateQueue, ..*old(self) }), rcok(*final(self), -1)
@at entry
  let ghost l = rlay(*self);
  let ghost ns = self.nodes@;
  let ghost n = nodeIndex as int;
  let ghost cq = self.candidateQueue@;
  proof {
    assert(heaped(cq)) by { reveal(cok); }
    tree_at(l, self.guide.units@, rvs(*self), ns, -1, n);
    rvis_is(l, self.guide.units@, rvs(*self), ns[pv(ns, n)].dictIndex);
    in_kid(l.d, nt(l, ns, pv(ns, n)), nt(l, ns, n));
    lay_kid(l, ns[pv(ns, n)].dictIndex, 0);
  }
@at exit
  proof { cok_push(l, ns, cq, RankedCompleterCandidate { nodeIndex: nodeIndex, value: best(l.d, nt(l, ns, n)) }, self.candidateQueue@); }
@end
@fn RankedCompleter.enqueueNode
@requires nodeIndex < old(self).nodes@.len()
@ensures *final(self) == (RankedCompleter { nodes: final(self).nodes, nodeQueue: final(self).nodeQueue, ..*old(self) }),
  ({ let n = nodeIndex as int; let a = old(self).nodes@; let q = a[n].isQueued; final(self).nodes@ == (if q { a } else { a.update(n, RankedCompleterNode { isQueued: true, ..a[n] }) }) && final(self).nodeQueue@ == (if q { old(self).nodeQueue@ } else { old(self).nodeQueue@.push(nodeIndex) }) })
@end
@fn reverseUCharSlice
@ensures final(slice)@ == old(slice)@.reverse()
@at entry
  let ghost s0 = slice@;
@loop 1
  invariant 0 <= i <= s0.len() / 2, slice@.len() == s0.len(), last == s0.len() - 1, forall|j: int| 0 <= j < s0.len() ==> #[trigger] slice@[j] == (if j < i || j > last - i { s0[last - j] } else { s0[j] })
  decreases s0.len() - i
@at exit
  proof { assert(slice@ =~= s0.reverse()); }
@end
@raw
// what Next has still to report
pub open spec fn rpre(c: RankedCompleter) -> Seq<u8> { c.path@.take(c.prefixLength as int) }
pub open spec fn below(us: Seq<u32>, i: u32, pre: Seq<u8>, x: KV) -> bool { prefixed(x.0, pre) && val_at(us, i, x.0.skip(pre.len() as int)) == Some(x.1) }
pub open spec fn left(c: RankedCompleter, x: KV) -> bool {
  c.nodes@.len() > 0 && below(c.dict.units@, c.nodes@[0].dictIndex, rpre(c), x) && !reported(c.nodes@, x.0.skip(c.prefixLength as int))
}
pub open spec fn rinv(c: RankedCompleter) -> bool {
  let ns = c.nodes@;
  &&& 0 <= c.prefixLength <= c.path@.len()
  &&& ns.len() == 0 ==> c.nodeQueue@.len() == 0 && c.candidateQueue@.len() == 0
  &&& ns.len() > 0 ==> rready(c)
  &&& ns.len() == 1 ==> rtree(c, 0) && c.nodeQueue@ == seq![0u32] && c.candidateQueue@.len() == 0 && c.value == -1i32
  &&& ns.len() > 1 ==> mid(rlay(c), rvs(c), ns, c.nodeQueue@) && rcok(c, -1) && c.value >= 0
}
pub open spec fn rframe(c: RankedCompleter, e: RankedCompleter) -> bool { e.dict == c.dict && e.guide == c.guide }
pub open spec fn told(c: RankedCompleter) -> KV { (c.path@, c.value) }
pub open spec fn rstepped(a: RankedCompleter, b: RankedCompleter, r: bool) -> bool {
  &&& rframe(a, b) && rinv(b)
  &&& !r ==> (forall|x: KV| !#[trigger] left(a, x)) && (forall|x: KV| !#[trigger] left(b, x))
  &&& r ==> left(a, told(b)) && (forall|x: KV| #[trigger] left(a, x) ==> x.1 <= b.value) && (forall|x: KV| #[trigger] left(b, x) == (left(a, x) && x != told(b)))
}
pub open spec fn rfits(dict: Dictionary, guide: RankedGuide) -> bool { guide.size == guide.units@.len() && exists|d: DG| #[trigger] rguided(d, dict.units@, guide.units@) }
pub open spec fn the_rguide(us: Seq<u32>, gu: Seq<GuideUnit>) -> (Lay, IMap<u32, bool>) { choose|x: (Lay, IMap<u32, bool>)| x.0.us == us && #[trigger] rguides(x.0, gu, x.1) }
pub proof fn rvis_walk(l: Lay, gu: Seq<GuideUnit>, vis: IMap<u32, bool>, i: u32, p: Seq<u8>)
  requires rguides(l, gu, vis), vis.contains_key(i), walk(l.us, i, p) is Some
  ensures vis.contains_key(walk(l.us, i, p)->0)
  decreases p.len()
{ if p.len() > 0 { rvis_is(l, gu, vis, i); lay_kid(l, i, p[0]); lay_step(l.d, l.us, l.nd, l.grp, i, l.at(i), p[0]); rvis_walk(l, gu, vis, nx(l.us, i, p[0]), p.drop_first()); } }
pub proof fn the_rguide_ok(us: Seq<u32>, gu: Seq<GuideUnit>, i: u32)
  requires exists|d: DG| #[trigger] rguided(d, us, gu), reached(us, i)
  ensures gu.len() != 0 ==> ({ let x = the_rguide(us, gu); x.0.us == us && rguides(x.0, gu, x.1) && x.1.contains_key(i) })
{
  if gu.len() != 0 {
    let d = choose|d: DG| #[trigger] rguided(d, us, gu);
    let (l, vis) = choose|l: Lay, vis: IMap<u32, bool>| l.d == d && l.us == us && #[trigger] rguides(l, gu, vis);
    let x = (l, vis);
    assert(x.0.us == us && rguides(x.0, gu, x.1));
    let y = the_rguide(us, gu);
    assert(y.0.us == us && rguides(y.0, gu, y.1));
    let p = choose|p: Seq<u8>| #[trigger] walk(us, 0, p) == Some(i);
    assert(y.1.contains_key(0)) by { reveal(rguides); }
    rvis_walk(y.0, gu, y.1, 0, p);
  }
}
pub proof fn rnone_below(us: Seq<u32>, gu: Seq<GuideUnit>, i: u32, pre: Seq<u8>)
  requires exists|d: DG| #[trigger] rguided(d, us, gu), reached(us, i), gu.len() == 0
  ensures lists(us, i, pre, Seq::<KV>::empty()), forall|x: KV| !below(us, i, pre, x)
{
  let d = choose|d: DG| #[trigger] rguided(d, us, gu);
  if d.len() > 1 { let (l, vis) = choose|l: Lay, vis: IMap<u32, bool>| l.d == d && l.us == us && #[trigger] rguides(l, gu, vis); assert(false) by { reveal(rguides); reveal(layout); } }
  let p = choose|p: Seq<u8>| #[trigger] walk(us, 0, p) == Some(i);
  lay_find(d, us, p);
  assert(dwf(d)) by { the_lay_ok(d, us); let l = the_lay(d, us); lay_root(d, us, l.nd, l.grp); }
  assert(d.len() == 1) by { reveal(pwf); }
  assert(p.len() == 0);
  assert forall|k: Seq<u8>, v: i32| #[trigger] Seq::<KV>::empty().contains((pre + k, v)) == (val_at(us, i, k) == Some(v)) by { lay_find(d, us, k); }
  assert forall|x: KV| !below(us, i, pre, x) by { lay_find(d, us, x.0.skip(pre.len() as int)); }
}
// the start
pub proof fn tree_start(l: Lay, gu: Seq<GuideUnit>, vis: IMap<u32, bool>, ns: NS)
  requires rguides(l, gu, vis), ns.len() == 1, ns[0].label != 0, vis.contains_key(ns[0].dictIndex), ns[0].hasTerminal == hasleaf(l.us[ns[0].dictIndex as int])
  ensures tree(l, vis, ns, 0)
{
  let i = ns[0].dictIndex;
  rvis_is(l, gu, vis, i);
  lay_kid(l, i, 0);
  assert(!hasany(ns, 0));
  assert(tnode(l, vis, ns, 0, 0));
  reveal(tree);
}
pub proof fn cand_some(l: Lay, vis: IMap<u32, bool>, ns: NS, cq: Seq<RankedCompleterCandidate>)
  requires mid(l, vis, ns, Seq::empty()), cok(l, ns, cq, -1), !ns[1].isQueued
  ensures cq.len() > 0
{
  reveal(mid); reveal(cok);
  assert(nstate(l, ns, Seq::empty(), 1));
  let c = choose|c: int| #[trigger] livec(l, ns, 1, c);
  assert(iscand(ns, c));
}
// where the loop over the queue is
pub open spec fn halfway(s: RankedCompleter, c: RankedCompleter, i: int) -> bool {
  &&& c == (RankedCompleter { nodes: c.nodes, candidateQueue: c.candidateQueue, ..s }) && ext(s.nodes@, c.nodes@) && 0 <= i <= s.nodeQueue@.len()
  &&& forall|n: int| s.nodes@.len() <= n < c.nodes@.len() ==> !(#[trigger] c.nodes@[n]).isQueued
  &&& if s.nodes@.len() == 0 || (s.nodes@.len() == 1 && i == 0) { c.nodes == s.nodes && c.candidateQueue == s.candidateQueue }
      else { mid(rlay(s), rvs(s), c.nodes@, s.nodeQueue@.skip(i)) && rcok(c, -1) && c.nodes@.len() > 1 }
}
// nothing is left when there is no candidate; a candidate in front is at least as good as all that is left
pub proof fn top_max(s: RankedCompleter, c: RankedCompleter, x: KV)
  requires rinv(s), s.nodes@.len() > 0, halfway(s, c, s.nodeQueue@.len() as int)
  ensures left(c, x) == left(s, x), left(s, x) ==> c.candidateQueue@.len() > 0 && x.1 <= c.candidateQueue@[0].value
{
  let l = rlay(s); let vis = rvs(s); let gu = s.guide.units@; let k = x.0.skip(s.prefixLength as int);
  assert(s.nodeQueue@.skip(s.nodeQueue@.len() as int) =~= Seq::<u32>::empty());
  assert(tree(l, vis, c.nodes@, -1)) by { reveal(mid); }
  assert forall|n: int| 0 < n < s.nodes@.len() implies 0 <= #[trigger] pv(s.nodes@, n) < n by { tree_at(l, gu, vis, c.nodes@, -1, n); assert(same(s.nodes@[n], c.nodes@[n])); }
  rep_ext(l, s.nodes@, c.nodes@, k);
  assert(same(s.nodes@[0], c.nodes@[0]));
  if left(s, x) {
    let i = s.nodes@[0].dictIndex;
    tree_at(l, gu, vis, c.nodes@, -1, 0);
    rvis_is(l, gu, vis, i);
    look_val(l, i, k);
    some_candidate(l, gu, vis, c.nodes@, c.candidateQueue@, k);
  }
}
// one more of those that lead to c is in the queue
pub proof fn mark_one(a: NS, b: NS, e: NS, q: Seq<u32>, r: Seq<u32>, c: int, m: int)
  requires marked(a, b), flags(a, b, c, m), newly(a, q, c, m), q.no_duplicates(), 0 < m < a.len() < MAXLEN, anc(a, m, c), 0 <= pv(a, m) < m,
    e == (if b[m].isQueued { b } else { b.update(m, RankedCompleterNode { isQueued: true, ..b[m] }) }), r == (if b[m].isQueued { q } else { q.push(m as u32) })
  ensures marked(a, e), flags(a, e, c, pv(a, m)), newly(a, r, c, pv(a, m)), r.no_duplicates(), anc(a, pv(a, m), c)
{
  let p = pv(a, m);
  assert(anc(a, p, m)) by { reveal_with_fuel(anc, 2); }
  anc_trans(a, p, m, c);
  assert(b[m].isQueued == a[m].isQueued);
  assert(b[m] == (RankedCompleterNode { isQueued: b[m].isQueued, ..a[m] }));
  assert forall|n: int| 0 <= n < a.len() implies #[trigger] e[n] == (RankedCompleterNode { isQueued: e[n].isQueued, ..a[n] }) by { assert(b[n] == (RankedCompleterNode { isQueued: b[n].isQueued, ..a[n] })); }
  assert forall|n: int| anc(a, n, c) && n > p implies n >= m by { if n < m { anc_line(a, n, m, c); anc_le(a, n, m); } }
  assert forall|n: int| 0 < n < a.len() implies (#[trigger] e[n]).isQueued == (a[n].isQueued || (anc(a, n, c) && n > p)) by { assert(b[n].isQueued == (a[n].isQueued || (anc(a, n, c) && n > m))); }
  assert(!q.contains(m as u32));
  assert forall|x: u32| #[trigger] r.contains(x) == (0 < x < a.len() && !a[x as int].isQueued && anc(a, x as int, c) && x > p) by {
    assert(q.contains(x) == (0 < x < a.len() && !a[x as int].isQueued && anc(a, x as int, c) && x > m));
    if !b[m].isQueued {
      assert(r.contains(x) == (q.contains(x) || x == m as u32)) by { if q.contains(x) { let j = choose|j: int| 0 <= j < q.len() && q[j] == x; assert(r[j] == x); } if x == m as u32 { assert(r[q.len() as int] == x); } if r.contains(x) { let j = choose|j: int| 0 <= j < r.len() && r[j] == x; if j < q.len() { assert(q[j] == x); } } }
    }
  }
  assert(r.no_duplicates()) by { if !b[m].isQueued { assert forall|i: int, j: int| 0 <= i < r.len() && 0 <= j < r.len() && i != j implies r[i] != r[j] by { if i < q.len() { assert(q.contains(q[i])); } if j < q.len() { assert(q.contains(q[j])); } } } }
}
// the step as a whole
pub proof fn popped(s: RankedCompleter, m: RankedCompleter, b: RankedCompleter, c: int)
  requires rinv(s), s.nodes@.len() > 0, halfway(s, m, s.nodeQueue@.len() as int), m.candidateQueue@.len() > 0, c == m.candidateQueue@[0].nodeIndex,
    b == (RankedCompleter { nodes: b.nodes, nodeQueue: b.nodeQueue, path: b.path, value: b.value, candidateQueue: b.candidateQueue, ..m }),
    marked(m.nodes@, b.nodes@), flags(m.nodes@, b.nodes@, c, 0), newly(m.nodes@, b.nodeQueue@, c, 0), b.nodeQueue@.no_duplicates(),
    heaped(b.candidateQueue@), b.candidateQueue@.to_multiset() == m.candidateQueue@.drop_first().to_multiset(),
    b.path@ == rpre(s) + npath(m.nodes@, pv(m.nodes@, c)), b.value == m.candidateQueue@[0].value
  ensures rstepped(s, b, true)
{
  let l = rlay(s); let vis = rvs(s); let gu = s.guide.units@; let a = m.nodes@; let e = b.nodes@; let cq = m.candidateQueue@; let pl = s.prefixLength as int; let pre = rpre(s);
  let k = npath(a, pv(a, c)); let y = told(b); let i = s.nodes@[0].dictIndex;
  assert(s.nodeQueue@.skip(s.nodeQueue@.len() as int) =~= Seq::<u32>::empty());
  assert(mid(l, vis, a, Seq::empty()));
  assert(tree(l, vis, a, -1)) by { reveal(mid); }
  assert(centry(l, a, cq[0], -1)) by { reveal(cok); }
  mid_pop(l, gu, vis, a, e, c, b.nodeQueue@);
  tree_at(l, gu, vis, a, -1, c); tree_at(l, gu, vis, a, -1, 0);
  assert forall|n: int| 0 < n < a.len() && isleaf(a, n) implies (#[trigger] e[n]).isQueued == (a[n].isQueued || n == c) by { if anc(a, n, c) { anc_leaf(l, gu, vis, a, n, c); } else { assert(n != c); } }
  cok_pop(l, a, e, cq, b.candidateQueue@, c);
  assert(same(s.nodes@[0], a[0])); assert(e[0] == (RankedCompleterNode { isQueued: e[0].isQueued, ..a[0] }));
  assert(nt(l, a, 0) == l.at(i));
  leaf_look(l, gu, vis, a, -1, c);
  cand_new(l, gu, vis, a, c);
  rvis_is(l, gu, vis, i);
  look_val(l, i, k);
  assert(rpre(b) =~= pre);
  assert(y.0.skip(pl) =~= k);
  assert(below(s.dict.units@, i, pre, y));
  top_max(s, m, y);
  assert(rpre(m) == pre);
  assert(left(m, y));
  assert forall|x: KV| #[trigger] left(s, x) implies x.1 <= b.value by { top_max(s, m, x); }
  assert forall|x: KV| #[trigger] left(b, x) == (left(s, x) && x != y) by {
    top_max(s, m, x);
    rep_pop(l, gu, vis, a, e, c, x.0.skip(pl));
    if prefixed(x.0, pre) && x.0.skip(pl) == k { assert(x.0 =~= pre + k); }
  }
}
@end
@fn RankedCompleter.Next
@requires rinv(*old(self))
@ensures rstepped(*old(self), *final(self), r)
@at entry
  hide(follows); hide(nx); hide(halfway); hide(marked); hide(flags); hide(newly);
  let ghost s0 = *self;
  let ghost l = rlay(s0);
  let ghost vis = rvs(s0);
  let ghost gu = self.guide.units@;
  let ghost q0 = self.nodeQueue@;
  let ghost mut a = s0;
  proof { reveal(halfway); if s0.nodes@.len() > 1 { assert(q0.skip(0) =~= q0); } }
@loop 1
  invariant halfway(s0, *self, i as int), self.nodeQueue == s0.nodeQueue, self.value == s0.value, self.path == s0.path, self.prefixLength == s0.prefixLength, 0 <= i <= q0.len()
  decreases q0.len() - i
@at begin 1
  let ghost todo = q0.skip(i as int);
  let ghost i0 = i as int;
  proof {
    a = *self; reveal(halfway);
    if s0.nodes@.len() > 1 { assert(todo[0] == q0[i0]); assert(todook(l, self.nodes@, todo[0]) && tree(l, vis, self.nodes@, -1)) by { reveal(mid); } }
    else { assert(i0 == 0); }
    assert(q0.skip(i0 + 1) =~= todo.drop_first());
  }
@at then 1
  proof { reveal(halfway); mid_last(l, gu, vis, a.nodes@, todo); assert(self.nodes@ == a.nodes@); assert(rcok(*self, -1)); assert(halfway(s0, *self, i0 + 1)); }
@at before call enqueueCandidate 1
  proof {
    reveal(halfway);
    let c = nodeIndex as int; let b = self.nodes@;
    ext_trans(s0.nodes@, a.nodes@, b);
    if s0.nodes@.len() == 1 { mid_first(l, gu, vis, b, c); assert(cok(l, a.nodes@, a.candidateQueue@, -1)) by { reveal(cok); } cok_ext(l, gu, vis, a.nodes@, b, a.candidateQueue@, 0, c); assert(todo.drop_first() =~= Seq::<u32>::empty()); assert(isnew(l, b, 0, c, c)); }
    else { mid_step(l, gu, vis, a.nodes@, b, todo, c); cok_ext(l, gu, vis, a.nodes@, b, a.candidateQueue@, a.nodes@.len() as int, c); assert(isnew(l, b, a.nodes@.len() as int, c, c)); }
  }
@at after call enqueueCandidate 1
  proof { reveal(halfway); assert(ext(s0.nodes@, self.nodes@));
    assert(mid(l, vis, self.nodes@, q0.skip(i0 + 1))); assert(rcok(*self, -1));
    assert(self.nodes@.len() > 1);
    assert forall|n: int| s0.nodes@.len() <= n < self.nodes@.len() implies !(#[trigger] self.nodes@[n]).isQueued by { if n < a.nodes@.len() { assert(same(a.nodes@[n], self.nodes@[n])); } else { assert(isnew(l, self.nodes@, if s0.nodes@.len() == 1 { 0 } else { a.nodes@.len() as int }, nodeIndex as int, n)); } }
    assert(halfway(s0, *self, i0 + 1)); }
@at after loop 1
  let ghost m = *self;
  proof {
    reveal(halfway);
    assert(q0.skip(q0.len() as int) =~= Seq::<u32>::empty());
  }
@at return 1
  proof {
    assert(self.nodeQueue@ =~= Seq::<u32>::empty());
    assert(rframe(s0, *self));
    if s0.nodes@.len() == 0 { assert(self.nodes == s0.nodes); assert(rinv(*self)); assert forall|x: KV| !#[trigger] left(s0, x) by { } assert forall|x: KV| !#[trigger] left(*self, x) by { } assert(rstepped(s0, *self, false)); }
    if s0.nodes@.len() > 0 {
      assert forall|x: KV| !#[trigger] left(s0, x) by { top_max(s0, m, x); }
      assert forall|x: KV| !#[trigger] left(*self, x) by { top_max(s0, m, x); assert(left(*self, x) == left(m, x)); }
      if s0.nodes@.len() == 1 { cand_some(l, vis, m.nodes@, m.candidateQueue@); }
      assert(rinv(*self));
      assert(rstepped(s0, *self, false));
    }
  }
@at before call enqueueNode 1
  let ghost ms = m.nodes@;
  let ghost c = nodeIndex as int;
  let ghost pl = s0.prefixLength as int;
  proof {
    reveal(halfway);
    assert(tree(l, vis, ms, -1)) by { reveal(mid); }
    assert(centry(l, ms, m.candidateQueue@[0], -1) && heaped(m.candidateQueue@)) by { reveal(cok); }
    tree_at(l, gu, vis, ms, -1, c);
    assert(self.nodeQueue@ =~= Seq::<u32>::empty());
  }
@at after call enqueueNode 1
  proof {
    reveal(marked); reveal(flags); reveal(newly);
    let q = Seq::<u32>::empty();
    assert forall|n: int| 0 < n < ms.len() && anc(ms, n, c) implies n <= c by { anc_le(ms, n, c); }
    mark_one(ms, ms, self.nodes@, q, self.nodeQueue@, c, c);
  }
@at before loop 2
  proof { assert(self.path@ =~= rpre(s0)); assert(self.path@.skip(pl).reverse() =~= Seq::<u8>::empty()); assert(npath(ms, nodeIndex as int) + Seq::<u8>::empty() =~= npath(ms, nodeIndex as int)); }
@loop 2
  invariant *self == (RankedCompleter { nodes: self.nodes, nodeQueue: self.nodeQueue, path: self.path, ..m }), 0 <= nodeIndex < ms.len(), ms.len() == self.nodes@.len(), marked(ms, self.nodes@), flags(ms, self.nodes@, c, nodeIndex as int), newly(ms, self.nodeQueue@, c, nodeIndex as int), self.nodeQueue@.no_duplicates(),
    anc(ms, nodeIndex as int, c), self.path@.len() >= pl, self.path@.take(pl) == rpre(s0), npath(ms, pv(ms, c)) == npath(ms, nodeIndex as int) + self.path@.skip(pl).reverse()
  decreases nodeIndex as int
@at begin 2
  let ghost b = *self;
  let ghost n = nodeIndex as int;
  proof { tree_at(l, gu, vis, ms, -1, n); assert(b.nodes@[n] == (RankedCompleterNode { isQueued: b.nodes@[n].isQueued, ..ms[n] })) by { reveal(marked); } }
@at after call enqueueNode 2
  proof { mark_one(ms, b.nodes@, self.nodes@, b.nodeQueue@, self.nodeQueue@, c, n); assert(self.nodes@[n] == (RankedCompleterNode { isQueued: self.nodes@[n].isQueued, ..ms[n] })) by { reveal(marked); } }
@at end 2
  proof {
    assert(self.path@.take(pl) =~= b.path@.take(pl));
    assert(npath(ms, nodeIndex as int) + self.path@.skip(pl).reverse() =~= npath(ms, n) + b.path@.skip(pl).reverse());
  }
@at before assign rc.value 1
  proof { assert(self.path@ =~= rpre(s0) + npath(ms, pv(ms, c))) by { assert(npath(ms, 0).len() == 0); } }
@at return 2
  proof { popped(s0, m, *self, c); }
@end
@fn RankedCompleter.StartStringLen
@requires rfits(old(self).dict, old(self).guide), reached(old(self).dict.units@, index), 0 <= length <= prefix@.len(), length < MAXLEN
@ensures rframe(*old(self), *final(self)), rinv(*final(self)), final(self).value == -1i32, rstarted(*final(self), index, prefix@.take(length as int))
@at entry
  let ghost (l, vis) = the_rguide(self.dict.units@, self.guide.units@);
  let ghost pre = prefix@.take(length as int);
  self.lay = Ghost(Some((l, vis)));
  proof {
    the_rguide_ok(self.dict.units@, self.guide.units@, index);
    if self.guide.size == 0 { rnone_below(self.dict.units@, self.guide.units@, index, pre); }
    else { rvis_is(l, self.guide.units@, vis, index); lists_is(l, index, pre); }
  }
@loop 1
  invariant 0 <= i <= length, self.path@.len() == length, forall|j: int| 0 <= j < i ==> #[trigger] self.path@[j] == prefix@[j], *self == (RankedCompleter { path: self.path, lay: self.lay, ..*old(self) }), self.lay@ == Some((l, vis))
  decreases length - i
@at exit
  proof {
    assert(rpre(*self) =~= pre);
    assert(lists(self.dict.units@, index, pre, if self.guide.size == 0 { Seq::<KV>::empty() } else { klist(l.d, l.at(index), pre) }));
    if self.guide.size != 0 {
      assert(self.nodes@.len() == 1);
      assert(self.nodeQueue@ =~= seq![0u32]);
      tree_start(l, self.guide.units@, vis, self.nodes@);
      assert forall|x: KV| left(*self, x) == below(self.dict.units@, index, pre, x) by { assert(!reported(self.nodes@, x.0.skip(self.prefixLength as int))); }
    } else { assert forall|x: KV| left(*self, x) == below(self.dict.units@, index, pre, x) by { } }
  }
@end
@raw
// the completer is about to report what lies below i, with pre in front
pub open spec fn rstarted(c: RankedCompleter, i: u32, pre: Seq<u8>) -> bool {
  &&& forall|x: KV| left(c, x) == below(c.dict.units@, i, pre, x)
  &&& exists|s: Seq<KV>| #[trigger] lists(c.dict.units@, i, pre, s)
}
@end
@fn RankedCompleter.StartString
@requires rfits(old(self).dict, old(self).guide), reached(old(self).dict.units@, index)
@ensures rframe(*old(self), *final(self)), rinv(*final(self)), final(self).value == -1i32, rstarted(*final(self), index, prefix@)
@at entry
  proof { assert(prefix@.take(prefix@.len() as int) =~= prefix@); }
@end
@fn RankedCompleter.Start
@requires rfits(old(self).dict, old(self).guide), reached(old(self).dict.units@, index)
@ensures rframe(*old(self), *final(self)), rinv(*final(self)), final(self).value == -1i32, rstarted(*final(self), index, Seq::<u8>::empty())
@at entry
  proof { assert(Seq::<u8>::empty().take(0) =~= Seq::<u8>::empty()); }
@end
@fn RankedCompleter.Length
@ensures r == told(*self).0.len()
@end
@fn RankedCompleter.Key
@ensures r@ == told(*self).0
@end
@fn RankedCompleter.Value
@ensures r == told(*self).1
@end
@fn NewRankedCompleter
@ensures r.dict == *dict, r.guide == *guide, rinv(r), forall|x: KV| !left(r, x)
@end
@raw
// C05: a run of Next
pub open spec fn rrun(cs: Seq<RankedCompleter>, rs: Seq<bool>) -> bool {
  &&& cs.len() == rs.len() + 1
  &&& forall|n: int| 0 <= n < rs.len() ==> rstepped(cs[n], #[trigger] cs[n + 1], rs[n])
}
pub proof fn rrun_left(cs: Seq<RankedCompleter>, rs: Seq<bool>, m: int, n: int, x: KV)
  requires rrun(cs, rs), 0 <= m <= n < cs.len()
  ensures left(cs[n], x) ==> left(cs[m], x), forall|j: int| m <= j < n && rs[j] && left(cs[n], x) ==> told(#[trigger] cs[j + 1]) != x,
    left(cs[m], x) ==> left(cs[n], x) || exists|j: int| m <= j < n && rs[j] && told(#[trigger] cs[j + 1]) == x
  decreases n - m
{
  if m < n {
    let p = n - 1;
    rrun_left(cs, rs, m, p, x);
    assert(rstepped(cs[p], cs[p + 1], rs[p]));
    if left(cs[m], x) && !left(cs[n], x) {
      if left(cs[p], x) { assert(rs[p]); assert(told(cs[p + 1]) == x); }
    }
  }
}
pub proof fn rrun_frame(cs: Seq<RankedCompleter>, rs: Seq<bool>, n: int)
  requires rrun(cs, rs), 0 <= n < cs.len()
  ensures rframe(cs[0], cs[n])
  decreases n
{ if n > 0 { rrun_frame(cs, rs, n - 1); assert(rstepped(cs[n - 1], cs[n - 1 + 1], rs[n - 1])); } }
// once false, always false
pub proof fn rrun_true(cs: Seq<RankedCompleter>, rs: Seq<bool>, m: int, n: int)
  requires rrun(cs, rs), 0 <= m <= n < rs.len(), rs[n]
  ensures rs[m], left(cs[m], told(cs[m + 1])), left(cs[m], told(cs[n + 1])), told(cs[n + 1]).1 <= told(cs[m + 1]).1, m < n ==> told(cs[m + 1]) != told(cs[n + 1])
{
  assert(rstepped(cs[n], cs[n + 1], rs[n]));
  assert(rstepped(cs[m], cs[m + 1], rs[m]));
  rrun_left(cs, rs, m, n, told(cs[n + 1]));
  if m < n { rrun_left(cs, rs, m + 1, n, told(cs[n + 1])); }
}
// the answers are all the entries below i, no key twice, by value from the greatest, and they end
pub proof fn prop_ranked(cs: Seq<RankedCompleter>, rs: Seq<bool>, us: Seq<u32>, p: Seq<u8>, i: u32, pre: Seq<u8>, s: Seq<KV>, m: int, n: int, k: Seq<u8>, v: i32)
  requires rrun(cs, rs), us == cs[0].dict.units@, walk(us, 0, p) == Some(i), rstarted(cs[0], i, pre), lists(us, i, pre, s), 0 <= n < rs.len()
  ensures
    rs[n] ==> n < s.len() && prefixed(told(cs[n + 1]).0, pre) && find(us, p + told(cs[n + 1]).0.skip(pre.len() as int)) == Some(told(cs[n + 1]).1),
    rs[n] && 0 <= m < n ==> rs[m] && told(cs[m + 1]).0 != told(cs[n + 1]).0 && told(cs[m + 1]).1 >= told(cs[n + 1]).1,
    !rs[n] && find(us, p + k) == Some(v) ==> exists|j: int| 0 <= j < n && rs[j] && told(#[trigger] cs[j + 1]) == (pre + k, v),
    cs[n + 1].dict == cs[0].dict, cs[n + 1].guide == cs[0].guide
{
  rrun_frame(cs, rs, n + 1);
  assert(rstepped(cs[n], cs[n + 1], rs[n]));
  if rs[n] {
    let y = told(cs[n + 1]);
    rrun_true(cs, rs, 0, n);
    walk_cat(us, 0, p, y.0.skip(pre.len() as int));
    if 0 <= m < n {
      rrun_true(cs, rs, m, n);
      rrun_true(cs, rs, 0, m);
    }
    let t = Seq::new((n + 1) as nat, |j: int| told(cs[j + 1]));
    assert(t.no_duplicates()) by { assert forall|a: int, b: int| 0 <= a < t.len() && 0 <= b < t.len() && a != b implies t[a] != t[b] by { rrun_true(cs, rs, a, n); rrun_true(cs, rs, b, n); if a < b { rrun_true(cs, rs, a, b); } else { rrun_true(cs, rs, b, a); } } }
    assert forall|x: KV| #[trigger] t.to_set().contains(x) implies s.to_set().contains(x) by {
      let j = choose|j: int| 0 <= j < t.len() && t[j] == x;
      rrun_true(cs, rs, j, n); rrun_true(cs, rs, 0, j);
      assert(below(us, i, pre, x));
      let e = x.0.skip(pre.len() as int);
      assert(pre + e =~= x.0);
      assert(s.contains((pre + e, x.1)));
    }
    t.unique_seq_to_set();
    s.lemma_cardinality_of_set();
    vstd::set_lib::lemma_len_subset(t.to_set(), s.to_set());
  } else if find(us, p + k) == Some(v) {
    walk_cat(us, 0, p, k);
    let x = (pre + k, v);
    assert(x.0.skip(pre.len() as int) =~= k);
    assert(below(us, i, pre, x));
    rrun_left(cs, rs, 0, n, x);
  }
}
@end
