@raw
// ---------------------------------------------------------------- the keys below a transition, in order
pub type KV = (Seq<u8>, i32);
pub open spec fn rank(d: DG, t: int) -> int { if t == 0 { d.len() } else { t } }
pub open spec fn own(d: DG, t: int, p: Seq<u8>) -> Seq<KV> { match stateval(d, t) { Some(v) => seq![(p, v)], None => Seq::empty() } }
pub open spec fn klist(d: DG, t: int, p: Seq<u8>) -> Seq<KV>
  decreases rank(d, t), d.len() - t, 1int
{ own(d, t, p) + clist(d, t, p) }
pub open spec fn clist(d: DG, t: int, p: Seq<u8>) -> Seq<KV>
  decreases rank(d, t), d.len() - t, 0int
{ let f = first(d, t); if 0 <= t < d.len() && 0 < f < d.len() && f <= gend(d, f) < rank(d, t) { slist(d, f, p) } else { Seq::empty() } }
pub open spec fn slist(d: DG, u: int, p: Seq<u8>) -> Seq<KV>
  decreases gend(d, u), d.len() - u, 2int
{
  if !(0 < u <= gend(d, u) && u < d.len()) { Seq::empty() }
  else { klist(d, u, p.push(d.label[u])) + (if u + 1 < d.len() && d.sib(u) { slist(d, u + 1, p) } else { Seq::empty() }) }
}
pub open spec fn rest_of(d: DG, u: int, p: Seq<u8>) -> Seq<KV> { if u != 0 && d.sib(u) { slist(d, u + 1, p) } else { Seq::empty() } }
// a transition that is not a leaf, in an automaton with keys
pub open spec fn tw(d: DG, t: int) -> bool { dwf(d) && d.len() > 1 && 0 <= t < d.len() && !d.leaf(t) }
pub proof fn klist_is(d: DG, t: int, p: Seq<u8>) ensures klist(d, t, p) == own(d, t, p) + clist(d, t, p) { }
pub proof fn clist_is(d: DG, t: int, p: Seq<u8>)
  requires tw(d, t)
  ensures first(d, t) == 0 ==> clist(d, t, p) =~= Seq::<KV>::empty() && stateval(d, t) is Some,
    first(d, t) != 0 ==> clist(d, t, p) == slist(d, first(d, t), p) && tw(d, first(d, t)) && first(d, t) > 0 && gend(d, first(d, t)) == gend(d, d.child(t)) && gend(d, d.child(t)) < rank(d, t) && in_group(d, d.child(t), first(d, t))
{
  first_in(d, t);
  let f = first(d, t);
  if f != 0 { group_member(d, d.child(t), f); gend_bounds(d, f); }
  else { gend_bounds(d, d.child(t)); assert(in_group(d, d.child(t), d.child(t))); }
}
pub proof fn slist_is(d: DG, u: int, p: Seq<u8>)
  requires tw(d, u), u > 0
  ensures slist(d, u, p) =~= klist(d, u, p.push(d.label[u])) + rest_of(d, u, p), d.sib(u) ==> tw(d, u + 1) && gend(d, u + 1) == gend(d, u) && d.label[u] < d.label[u + 1] && u < gend(d, u), !d.sib(u) ==> gend(d, u) == u, gend(d, u) < d.len(), u <= gend(d, u)
{ gend_bounds(d, u); pwf_at(d, u); if d.sib(u) { gend_bounds(d, u + 1); } }

pub open spec fn prefixed(k: Seq<u8>, p: Seq<u8>) -> bool { p.len() <= k.len() && forall|i: int| 0 <= i < p.len() ==> #[trigger] k[i] == p[i] }
pub open spec fn all_below(s: Seq<KV>, p: Seq<u8>) -> bool { forall|i: int| 0 <= i < s.len() ==> prefixed(#[trigger] s[i].0, p) }
pub open spec fn all_from(s: Seq<KV>, p: Seq<u8>, c: u8) -> bool { forall|i: int| 0 <= i < s.len() ==> prefixed(#[trigger] s[i].0, p) && s[i].0.len() > p.len() && s[i].0[p.len() as int] >= c }
pub open spec fn lexlt(a: Seq<u8>, b: Seq<u8>) -> bool { lexle(a, b) && a != b }
pub open spec fn increasing(s: Seq<KV>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> lexlt(#[trigger] s[i].0, #[trigger] s[j].0) }
pub proof fn lex_at(a: Seq<u8>, b: Seq<u8>, n: int)
  requires 0 <= n <= a.len(), n < b.len(), forall|i: int| 0 <= i < n ==> #[trigger] a[i] == b[i], n == a.len() || a[n] < b[n]
  ensures lexlt(a, b)
  decreases n
{
  if n > 0 {
    let x = a.drop_first(); let y = b.drop_first();
    assert forall|i: int| 0 <= i < n - 1 implies #[trigger] x[i] == y[i] by { assert(a[i + 1] == b[i + 1]); }
    lex_at(x, y, n - 1);
    assert(a[0] == b[0]);
  }
  if a == b { if n < a.len() { assert(a[n] == b[n]); } }
}
pub proof fn klist_below(d: DG, t: int, p: Seq<u8>)
  requires tw(d, t)
  ensures all_below(klist(d, t, p), p), klist(d, t, p).len() > 0, all_from(clist(d, t, p), p, 0)
  decreases rank(d, t), d.len() - t, 1int
{
  clist_is(d, t, p);
  if first(d, t) != 0 { slist_below(d, first(d, t), p); }
}
pub proof fn slist_below(d: DG, u: int, p: Seq<u8>)
  requires tw(d, u), u > 0
  ensures all_from(slist(d, u, p), p, d.label[u]), slist(d, u, p).len() > 0
  decreases gend(d, u), d.len() - u, 2int
{
  slist_is(d, u, p);
  let q = p.push(d.label[u]);
  klist_below(d, u, q);
  if d.sib(u) { slist_below(d, u + 1, p); }
  let a = klist(d, u, q); let b = rest_of(d, u, p);
  assert forall|i: int| 0 <= i < a.len() + b.len() implies prefixed(#[trigger] (a + b)[i].0, p) && (a + b)[i].0.len() > p.len() && (a + b)[i].0[p.len() as int] >= d.label[u] by {
    if i < a.len() { let k = a[i].0; assert(prefixed(k, q)); assert(k[p.len() as int] == q[p.len() as int]); assert forall|j: int| 0 <= j < p.len() implies #[trigger] k[j] == p[j] by { assert(k[j] == q[j]); } }
    else { assert((a + b)[i] == b[i - a.len()]); }
  }
}
pub proof fn inc_cat(a: Seq<KV>, b: Seq<KV>)
  requires increasing(a), increasing(b), forall|i: int, j: int| 0 <= i < a.len() && 0 <= j < b.len() ==> lexlt(#[trigger] a[i].0, #[trigger] b[j].0)
  ensures increasing(a + b)
{
  let s = a + b;
  assert forall|i: int, j: int| 0 <= i < j < s.len() implies lexlt(#[trigger] s[i].0, #[trigger] s[j].0) by {
    if j < a.len() { assert(s[i] == a[i] && s[j] == a[j]); } else if i < a.len() { assert(s[i] == a[i] && s[j] == b[j - a.len()]); } else { assert(s[i] == b[i - a.len()] && s[j] == b[j - a.len()]); }
  }
}
pub proof fn klist_inc(d: DG, t: int, p: Seq<u8>)
  requires tw(d, t)
  ensures increasing(klist(d, t, p)), increasing(clist(d, t, p))
  decreases rank(d, t), d.len() - t, 1int
{
  clist_is(d, t, p);
  klist_below(d, t, p);
  let a = own(d, t, p); let b = clist(d, t, p);
  if first(d, t) != 0 { slist_inc(d, first(d, t), p); }
  assert forall|i: int, j: int| 0 <= i < a.len() && 0 <= j < b.len() implies lexlt(#[trigger] a[i].0, #[trigger] b[j].0) by {
    let k = b[j].0; assert(prefixed(k, p) && k.len() > p.len());
    assert forall|x: int| 0 <= x < p.len() implies #[trigger] p[x] == k[x] by { assert(k[x] == p[x]); }
    lex_at(p, k, p.len() as int);
  }
  inc_cat(a, b);
}
pub proof fn slist_inc(d: DG, u: int, p: Seq<u8>)
  requires tw(d, u), u > 0
  ensures increasing(slist(d, u, p))
  decreases gend(d, u), d.len() - u, 2int
{
  slist_is(d, u, p);
  let q = p.push(d.label[u]);
  klist_inc(d, u, q); klist_below(d, u, q);
  if d.sib(u) { slist_inc(d, u + 1, p); slist_below(d, u + 1, p); }
  let a = klist(d, u, q); let b = rest_of(d, u, p);
  assert forall|i: int, j: int| 0 <= i < a.len() && 0 <= j < b.len() implies lexlt(#[trigger] a[i].0, #[trigger] b[j].0) by {
    let k = b[j].0; let m = a[i].0; assert(prefixed(k, p) && k.len() > p.len() && k[p.len() as int] >= d.label[u + 1]); assert(prefixed(m, q)); assert(m[p.len() as int] == q[p.len() as int]);
    assert forall|x: int| 0 <= x < p.len() implies #[trigger] m[x] == k[x] by { assert(k[x] == p[x]); assert(m[x] == q[x]); }
    lex_at(m, k, p.len() as int);
  }
  inc_cat(a, b);
}
// ---- what the list holds
pub proof fn cat_has(a: Seq<KV>, b: Seq<KV>, x: KV)
  ensures (a + b).contains(x) == (a.contains(x) || b.contains(x))
{
  let s = a + b;
  if s.contains(x) { let i = choose|i: int| 0 <= i < s.len() && s[i] == x; if i < a.len() { assert(a[i] == x); } else { assert(b[i - a.len()] == x); } }
  if a.contains(x) { let i = choose|i: int| 0 <= i < a.len() && a[i] == x; assert(s[i] == x); }
  if b.contains(x) { let i = choose|i: int| 0 <= i < b.len() && b[i] == x; assert(s[i + a.len()] == x); }
}
pub proof fn klist_has(d: DG, t: int, p: Seq<u8>, k: Seq<u8>, v: i32)
  requires tw(d, t)
  ensures klist(d, t, p).contains((p + k, v)) == (dlook(d, t, k) == Some(v))
  decreases rank(d, t), d.len() - t, 1int
{
  clist_is(d, t, p);
  klist_below(d, t, p);
  first_in(d, t);
  let a = own(d, t, p); let b = clist(d, t, p); let x = (p + k, v);
  cat_has(a, b, x);
  if k.len() == 0 {
    assert(p + k =~= p);
    if b.contains(x) { let i = choose|i: int| 0 <= i < b.len() && b[i] == x; assert(b[i].0.len() > p.len()); }
    if stateval(d, t) == Some(v) { assert(a[0] == x); }
  } else {
    if a.contains(x) { assert(x.0 == p); assert((p + k).len() > p.len()); }
    if first(d, t) != 0 {
      let f = first(d, t);
      slist_has(d, f, p, k, v);
      if k[0] != 0 {
        scan_props(d, d.child(t), k[0]); scan_props(d, f, k[0]);
        if kid(d, t, k[0]) is Some { kid_in(d, t, k[0]); let u = kid(d, t, k[0])->0; assert(d.label[u] == k[0]); }
        if scan(d, f, k[0]) is Some { let u = scan(d, f, k[0])->0; assert(d.label[u] == k[0]); }
        assert(kid(d, t, k[0]) == scan(d, f, k[0]));
      }
    } else if k[0] != 0 && kid(d, t, k[0]) is Some { kid_in(d, t, k[0]); }
  }
}
pub proof fn slist_has(d: DG, u: int, p: Seq<u8>, k: Seq<u8>, v: i32)
  requires tw(d, u), u > 0, k.len() > 0
  ensures slist(d, u, p).contains((p + k, v)) == (k[0] != 0 && scan(d, u, k[0]) is Some && dlook(d, scan(d, u, k[0])->0, k.drop_first()) == Some(v))
  decreases gend(d, u), d.len() - u, 2int
{
  slist_is(d, u, p);
  let c = d.label[u]; let q = p.push(c); let x = (p + k, v); let r = k.drop_first();
  let a = klist(d, u, q); let b = rest_of(d, u, p);
  cat_has(a, b, x);
  klist_below(d, u, q);
  scan_props(d, u, k[0]);
  if d.sib(u) { slist_has(d, u + 1, p, k, v); scan_props(d, u + 1, k[0]); }
  if k[0] == c { assert(p + k =~= q + r); klist_has(d, u, q, r, v); }
  else if a.contains(x) { let i = choose|i: int| 0 <= i < a.len() && a[i] == x; assert(prefixed(a[i].0, q)); assert((p + k)[p.len() as int] == q[p.len() as int]); }
  if b.contains(x) { let i = choose|i: int| 0 <= i < b.len() && b[i] == x; slist_below(d, u + 1, p); assert(b[i].0[p.len() as int] >= d.label[u + 1]); assert((p + k)[p.len() as int] == k[0]); }
}
// ---- in terms of the dictionary: s lists what lies below position i, with pre in front
pub open spec fn val_at(us: Seq<u32>, i: u32, k: Seq<u8>) -> Option<i32> {
  match walk(us, i, k) { Some(j) => if hasleaf(us[j as int]) { Some(leafval(us, j)) } else { None }, None => None }
}
pub open spec fn lists(us: Seq<u32>, i: u32, pre: Seq<u8>, s: Seq<KV>) -> bool {
  &&& increasing(s)
  &&& forall|n: int| 0 <= n < s.len() ==> prefixed(#[trigger] s[n].0, pre)
  &&& forall|k: Seq<u8>, v: i32| #[trigger] s.contains((pre + k, v)) == (val_at(us, i, k) == Some(v))
}
pub proof fn lists_is(l: Lay, i: u32, pre: Seq<u8>)
  requires l.ok(), l.is(i), l.d.len() > 1
  ensures lists(l.us, i, pre, klist(l.d, l.at(i), pre))
{
  let t = l.at(i);
  lay_is(l, i);
  klist_inc(l.d, t, pre); klist_below(l.d, t, pre);
  assert forall|k: Seq<u8>, v: i32| #[trigger] klist(l.d, t, pre).contains((pre + k, v)) == (val_at(l.us, i, k) == Some(v)) by {
    klist_has(l.d, t, pre, k, v);
    lay_walk(l.d, l.us, l.nd, l.grp, i, t, k);
    if walk(l.us, i, k) is Some { lay_step(l.d, l.us, l.nd, l.grp, walk(l.us, i, k)->0, dwalk(l.d, t, k)->0, 0); }
  }
}
@end
@ghostfield Completer lay: Ghost<Option<(Lay, IMap<u32, bool>)>> = Ghost(None)
@raw
// ---------------------------------------------------------------- the completer
// the stack of positions st spells the end of key
pub open spec fn trace(l: Lay, vis: IMap<u32, bool>, st: Seq<u32>, key: Seq<u8>) -> bool
  decreases st.len()
{
  if st.len() == 0 { false }
  else if st.len() == 1 { vis.contains_key(st[0]) }
  else {
    &&& vis.contains_key(st.last()) && key.len() > 0 && key.last() != 0 && trace(l, vis, st.drop_last(), key.drop_last())
    &&& follows(l.us, st[st.len() - 2], key.last()) && st.last() == nx(l.us, st[st.len() - 2], key.last())
  }
}
// what comes after everything below the last position
pub open spec fn lower(l: Lay, st: Seq<u32>, key: Seq<u8>) -> Seq<KV>
  decreases st.len()
{
  if st.len() <= 1 { Seq::empty() } else { rest_of(l.d, l.at(st.last()), key.drop_last()) + lower(l, st.drop_last(), key.drop_last()) }
}
pub open spec fn ckey(c: Completer) -> Seq<u8> { c.path@.drop_last() }
pub open spec fn clay(c: Completer) -> Lay { (c.lay@->0).0 }
pub open spec fn cvis(c: Completer) -> IMap<u32, bool> { (c.lay@->0).1 }
pub open spec fn due(c: Completer) -> Seq<KV> { let l = clay(c); let st = c.indexStack@; klist(l.d, l.at(st.last()), ckey(c)) + lower(l, st, ckey(c)) }
// what Next has still to report
pub open spec fn rem(c: Completer) -> Seq<KV> {
  let l = clay(c); let st = c.indexStack@;
  if st.len() == 0 { Seq::empty() } else if !c.isStarted { due(c) } else { clist(l.d, l.at(st.last()), ckey(c)) + lower(l, st, ckey(c)) }
}
pub open spec fn cready(c: Completer) -> bool {
  let l = clay(c); let vis = cvis(c);
  &&& c.lay@ is Some && l.us == c.dict.units@ && guides(l, c.guide.units@, vis) && trace(l, vis, c.indexStack@, ckey(c)) && c.path@.len() > 0
}
pub open spec fn cinv(c: Completer) -> bool { c.indexStack@.len() == 0 || cready(c) }
pub open spec fn cframe(c: Completer, e: Completer) -> bool { e.dict == c.dict && e.guide == c.guide }
// the guide was built for the dictionary
pub open spec fn fits(dict: Dictionary, guide: Guide) -> bool { guide.size == guide.units@.len() && exists|d: DG| #[trigger] guided(d, dict.units@, guide.units@) }
pub open spec fn reached(us: Seq<u32>, i: u32) -> bool { exists|p: Seq<u8>| #[trigger] walk(us, 0, p) == Some(i) }

pub proof fn vis_is(l: Lay, gu: Seq<GuideUnit>, vis: IMap<u32, bool>, i: u32)
  requires guides(l, gu, vis), vis.contains_key(i)
  ensures l.ok(), l.is(i), l.d.len() > 1, child_right(l, gu, i), sib_right(l, gu, i), tw(l.d, l.at(i)), node(l.us, i), i < gu.len(), gu.len() == l.us.len(),
    forall|c: u8| #[trigger] follows(l.us, i, c) ==> c != 0 && vis.contains_key(nx(l.us, i, c)) && kid(l.d, l.at(i), c) == Some(l.at(nx(l.us, i, c))),
    forall|c: u8| c != 0 && #[trigger] kid(l.d, l.at(i), c) is Some ==> follows(l.us, i, c),
    hasleaf(l.us[i as int]) == (stateval(l.d, l.at(i)) is Some), stateval(l.d, l.at(i)) matches Some(v) ==> leafval(l.us, i) == v,
{
  assert(guide_at(l, gu, vis, i) && l.ok() && gu.len() == l.us.len() && l.d.len() > 1) by { reveal(guides); }
  lay_is(l, i);
  lay_step(l.d, l.us, l.nd, l.grp, i, l.at(i), 0);
  assert forall|c: u8| #[trigger] follows(l.us, i, c) implies c != 0 && vis.contains_key(nx(l.us, i, c)) && kid(l.d, l.at(i), c) == Some(l.at(nx(l.us, i, c))) by { lay_step(l.d, l.us, l.nd, l.grp, i, l.at(i), c); }
  assert forall|c: u8| c != 0 && #[trigger] kid(l.d, l.at(i), c) is Some implies follows(l.us, i, c) by { lay_step(l.d, l.us, l.nd, l.grp, i, l.at(i), c); }
}
pub proof fn vis_walk(l: Lay, gu: Seq<GuideUnit>, vis: IMap<u32, bool>, i: u32, p: Seq<u8>)
  requires guides(l, gu, vis), vis.contains_key(i), walk(l.us, i, p) is Some
  ensures vis.contains_key(walk(l.us, i, p)->0)
  decreases p.len()
{ if p.len() > 0 { vis_is(l, gu, vis, i); vis_walk(l, gu, vis, nx(l.us, i, p[0]), p.drop_first()); } }
// the first child
pub proof fn to_child(l: Lay, gu: Seq<GuideUnit>, vis: IMap<u32, bool>, i: u32, p: Seq<u8>)
  requires guides(l, gu, vis), vis.contains_key(i)
  ensures ({ let c = gu[i as int].Child; let j = nx(l.us, i, c);
    &&& c == 0 ==> clist(l.d, l.at(i), p) == Seq::<KV>::empty() && stateval(l.d, l.at(i)) is Some
    &&& c != 0 ==> follows(l.us, i, c) && vis.contains_key(j) && clist(l.d, l.at(i), p) == klist(l.d, l.at(j), p.push(c)) + rest_of(l.d, l.at(j), p) })
{
  vis_is(l, gu, vis, i);
  let d = l.d; let t = l.at(i); let f = first(d, t);
  clist_is(d, t, p);
  if f != 0 { in_kid(d, t, f); slist_is(d, f, p); }
}
// the next sibling of j, below i
pub proof fn to_sibling(l: Lay, gu: Seq<GuideUnit>, vis: IMap<u32, bool>, i: u32, b: u8, p: Seq<u8>)
  requires guides(l, gu, vis), vis.contains_key(i), follows(l.us, i, b)
  ensures ({ let j = nx(l.us, i, b); let c = gu[j as int].Sibling; let m = nx(l.us, i, c);
    &&& vis.contains_key(j)
    &&& c == 0 ==> rest_of(l.d, l.at(j), p) == Seq::<KV>::empty()
    &&& c != 0 ==> follows(l.us, i, c) && vis.contains_key(m) && rest_of(l.d, l.at(j), p) == klist(l.d, l.at(m), p.push(c)) + rest_of(l.d, l.at(m), p) })
{
  vis_is(l, gu, vis, i);
  let j = nx(l.us, i, b);
  vis_is(l, gu, vis, j);
  let d = l.d; let t = l.at(i); let u = l.at(j);
  kid_in(d, t, b); first_in(d, t); in_kid(d, t, u);
  if later(d, u) != 0 { assert(in_group(d, d.child(t), u + 1)); in_kid(d, t, u + 1); assert(!d.leaf(u + 1)); slist_is(d, u + 1, p); }
}
pub proof fn trace_vis(l: Lay, vis: IMap<u32, bool>, st: Seq<u32>, key: Seq<u8>)
  requires trace(l, vis, st, key)
  ensures st.len() > 0, vis.contains_key(st.last()), st.len() > 1 ==> vis.contains_key(st[st.len() - 2])
{ reveal_with_fuel(trace, 2); if st.len() > 1 { let s = st.drop_last(); assert(s.last() == st[st.len() - 2]); } }
pub proof fn trace_push(l: Lay, vis: IMap<u32, bool>, st: Seq<u32>, key: Seq<u8>, c: u8)
  requires trace(l, vis, st, key), c != 0, follows(l.us, st.last(), c), vis.contains_key(nx(l.us, st.last(), c))
  ensures ({ let j = nx(l.us, st.last(), c); trace(l, vis, st.push(j), key.push(c)) && lower(l, st.push(j), key.push(c)) == rest_of(l.d, l.at(j), key) + lower(l, st, key) })
{ let j = nx(l.us, st.last(), c); assert(st.push(j).drop_last() =~= st); assert(key.push(c).drop_last() =~= key); }
pub open spec fn the_guide(us: Seq<u32>, gu: Seq<GuideUnit>) -> (Lay, IMap<u32, bool>) { choose|x: (Lay, IMap<u32, bool>)| x.0.us == us && #[trigger] guides(x.0, gu, x.1) }
pub proof fn the_guide_ok(us: Seq<u32>, gu: Seq<GuideUnit>, i: u32)
  requires exists|d: DG| #[trigger] guided(d, us, gu), reached(us, i)
  ensures gu.len() != 0 ==> ({ let x = the_guide(us, gu); x.0.us == us && guides(x.0, gu, x.1) && x.1.contains_key(i) })
{
  if gu.len() != 0 {
    let d = choose|d: DG| #[trigger] guided(d, us, gu);
    let (l, vis) = choose|l: Lay, vis: IMap<u32, bool>| l.d == d && l.us == us && #[trigger] guides(l, gu, vis);
    let x = (l, vis);
    assert(x.0.us == us && guides(x.0, gu, x.1));
    let y = the_guide(us, gu);
    assert(y.0.us == us && guides(y.0, gu, y.1));
    let p = choose|p: Seq<u8>| #[trigger] walk(us, 0, p) == Some(i);
    assert(y.1.contains_key(0)) by { reveal(guides); }
    vis_walk(y.0, gu, y.1, 0, p);
  }
}
pub proof fn none_below(us: Seq<u32>, gu: Seq<GuideUnit>, i: u32, pre: Seq<u8>)
  requires exists|d: DG| #[trigger] guided(d, us, gu), reached(us, i), gu.len() == 0
  ensures lists(us, i, pre, Seq::<KV>::empty())
{
  let d = choose|d: DG| #[trigger] guided(d, us, gu);
  if d.len() > 1 { let (l, vis) = choose|l: Lay, vis: IMap<u32, bool>| l.d == d && l.us == us && #[trigger] guides(l, gu, vis); assert(false) by { reveal(guides); reveal(layout); } }
  let p = choose|p: Seq<u8>| #[trigger] walk(us, 0, p) == Some(i);
  lay_find(d, us, p);
  assert(dwf(d)) by { the_lay_ok(d, us); let l = the_lay(d, us); lay_root(d, us, l.nd, l.grp); }
  assert(d.len() == 1) by { reveal(pwf); }
  assert(p.len() == 0);
  assert forall|k: Seq<u8>, v: i32| #[trigger] Seq::<KV>::empty().contains((pre + k, v)) == (val_at(us, i, k) == Some(v)) by { lay_find(d, us, k); }
}
@end
@fn NewCompleter
@requires fits(*dict, *guide)
@ensures r.dict == *dict, r.guide == *guide, cinv(r), rem(r).len() == 0
@end
@fn Completer.Length
@requires self.path@.len() > 0
@ensures r == ckey(*self).len()
@end
@fn Completer.Key
@requires self.path@.len() > 0
@ensures r@ == ckey(*self)
@end
@fn Completer.Value
@requires node(self.dict.units@, self.lastIndex)
@ensures r == leafval(self.dict.units@, self.lastIndex)
@end
@fn Completer.StartStringLen
@requires fits(old(self).dict, old(self).guide), reached(old(self).dict.units@, index), 0 <= length <= prefix@.len(), length < MAXLEN
@ensures cframe(*old(self), *final(self)), cinv(*final(self)), lists(old(self).dict.units@, index, prefix@.take(length as int), rem(*final(self)))
@at entry
  let ghost (l, vis) = the_guide(self.dict.units@, self.guide.units@);
  let ghost pre = prefix@.take(length as int);
  self.lay = Ghost(Some((l, vis)));
  proof {
    the_guide_ok(self.dict.units@, self.guide.units@, index);
    if self.guide.size == 0 { none_below(self.dict.units@, self.guide.units@, index, pre); }
    else { vis_is(l, self.guide.units@, vis, index); lists_is(l, index, pre); }
  }
@loop 1
  invariant 0 <= i <= length, self.path@.len() == length + 1, forall|j: int| 0 <= j < i ==> #[trigger] self.path@[j] == prefix@[j], *self == (Completer { path: self.path, lay: self.lay, ..*old(self) }), self.lay@ == Some((l, vis))
  decreases length - i
@at exit
  proof { assert(ckey(*self) =~= pre); if self.guide.size != 0 { assert(self.indexStack@ =~= seq![index]); assert(rem(*self) =~= klist(l.d, l.at(index), pre)); } else { assert(rem(*self) =~= Seq::<KV>::empty()); } }
@end
@fn Completer.StartString
@requires fits(old(self).dict, old(self).guide), reached(old(self).dict.units@, index)
@ensures cframe(*old(self), *final(self)), cinv(*final(self)), lists(old(self).dict.units@, index, prefix@, rem(*final(self)))
@at entry
  proof { assert(prefix@.take(prefix@.len() as int) =~= prefix@); }
@end
@fn Completer.Start
@requires fits(old(self).dict, old(self).guide), reached(old(self).dict.units@, index)
@ensures cframe(*old(self), *final(self)), cinv(*final(self)), lists(old(self).dict.units@, index, Seq::<u8>::empty(), rem(*final(self)))
@at entry
  proof { assert(Seq::<u8>::empty().take(0) =~= Seq::<u8>::empty()); }
@end
@fn Completer.Next
@requires cinv(*old(self))
@ensures stepped(*old(self), *final(self), r)
@at entry
  hide(follows); hide(nx); hide(klist); hide(clist); hide(rest_of);
  let ghost s0 = *self;
  let ghost l = clay(s0);
  let ghost vis = cvis(s0);
  let ghost gu = self.guide.units@;
  proof { if s0.indexStack@.len() > 0 { trace_vis(l, vis, s0.indexStack@, ckey(s0)); vis_is(l, gu, vis, s0.indexStack@.last()); to_child(l, gu, vis, s0.indexStack@.last(), ckey(s0)); } }
@at after call Follow 1
  proof { trace_push(l, vis, s0.indexStack@, ckey(s0), childLabel); assert(due(*self) =~= rem(s0)); }
@at before loop 1
  proof { assert(rem(s0) =~= lower(l, s0.indexStack@, ckey(s0))); }
@loop 1
  invariant cready(*self), cframe(s0, *self), self.lay == s0.lay, self.isStarted, index == self.indexStack@.last(), lower(l, self.indexStack@, ckey(*self)) == rem(s0)
  decreases self.indexStack@.len()
@at begin 1
  let ghost a = *self;
  let ghost st = a.indexStack@;
  let ghost key = ckey(a);
  proof { trace_vis(l, vis, st, key); vis_is(l, gu, vis, st.last()); if st.len() > 1 { to_sibling(l, gu, vis, st[st.len() - 2], key.last(), key.drop_last()); } }
@at before assign index 1
  proof {
    assert(self.indexStack@ =~= st.drop_last()); assert(ckey(*self) =~= key.drop_last()); 
    assert(cready(*self));
  }
  let ghost b = *self;
@at after assign index 1
  proof { assert(index == b.indexStack@.last()); if siblingLabel == 0 { assert(lower(l, b.indexStack@, ckey(b)) =~= rem(s0)); } }
@at after call Follow 2
  proof { trace_push(l, vis, b.indexStack@, ckey(b), siblingLabel); assert(due(*self) =~= rem(s0)); }
@at before call FindTerminal 1
  proof { assert(cready(*self) && due(*self) == rem(s0)); }
@end
@raw
pub open spec fn reports(c: Completer, x: KV) -> bool { c.path@.len() > 0 && ckey(c) == x.0 && node(c.dict.units@, c.lastIndex) && leafval(c.dict.units@, c.lastIndex) == x.1 }
@end
@fn Completer.Follow
@requires cready(*old(self)), *old(index) == old(self).indexStack@.last(), label != 0
@ensures cframe(*old(self), *final(self)), r == follows(old(self).dict.units@, *old(index), label), r ==> *final(index) == nx(old(self).dict.units@, *old(index), label),
   r ==> cready(*final(self)) && *final(self) == (Completer { path: final(self).path, indexStack: final(self).indexStack, ..*old(self) }) && ckey(*final(self)) == ckey(*old(self)).push(label) && final(self).indexStack@ == old(self).indexStack@.push(*final(index))
@at entry
  let ghost s0 = *self;
  proof { trace_vis(clay(s0), cvis(s0), s0.indexStack@, ckey(s0)); vis_is(clay(s0), self.guide.units@, cvis(s0), s0.indexStack@.last()); }
@at return 2
  proof { trace_push(clay(s0), cvis(s0), s0.indexStack@, ckey(s0), label); assert(ckey(*self) =~= ckey(s0).push(label)); }
@end
@fn Completer.FindTerminal
@requires cready(*old(self)), index == old(self).indexStack@.last()
@ensures r, cframe(*old(self), *final(self)), cready(*final(self)), final(self).isStarted, due(*old(self)).len() > 0, reports(*final(self), due(*old(self))[0]), rem(*final(self)) == due(*old(self)).drop_first()
@at entry
  hide(follows); hide(nx); hide(klist); hide(clist); hide(rest_of);
  let ghost s0 = *self;
  let ghost l = clay(s0);
  let ghost vis = cvis(s0);
  let ghost gu = self.guide.units@;
  proof { trace_vis(l, vis, s0.indexStack@, ckey(s0)); vis_is(l, gu, vis, index); }
@loop 1
  invariant cready(*self), cframe(s0, *self), self.lay == s0.lay, index == self.indexStack@.last(), vis.contains_key(index), node(l.us, index), index < gu.len(), due(*self) == due(s0)
  decreases rank(l.d, l.at(index))
@at begin 1
  let ghost a = *self;
  let ghost i = index;
  proof { vis_is(l, gu, vis, i); to_child(l, gu, vis, i, ckey(a)); }
@at end 1
  proof {
    trace_push(l, vis, a.indexStack@, ckey(a), label); assert(ckey(*self) =~= ckey(a).push(label));
    vis_is(l, gu, vis, index); kid_in(l.d, l.at(i), label); first_in(l.d, l.at(i));
    klist_is(l.d, l.at(i), ckey(a)); assert(own(l.d, l.at(i), ckey(a)) =~= Seq::<KV>::empty());
    assert(due(*self) =~= due(a));
  }
@at return 2
  proof {
    vis_is(l, gu, vis, index);
    klist_is(l.d, l.at(index), ckey(*self));
    let v = stateval(l.d, l.at(index))->0;
    assert(own(l.d, l.at(index), ckey(*self)) =~= seq![(ckey(*self), v)]);
    assert(rem(*self) =~= due(s0).drop_first());
  }
@end
@raw
// C04: what a completer reports between a start and the end is the list of what lookups find below the prefix p
pub proof fn prop_complete(us: Seq<u32>, p: Seq<u8>, i: u32, pre: Seq<u8>, s: Seq<KV>)
  requires walk(us, 0, p) == Some(i), lists(us, i, pre, s)
  ensures increasing(s),
    forall|n: int| 0 <= n < s.len() ==> prefixed(#[trigger] s[n].0, pre),
    forall|k: Seq<u8>, v: i32| #[trigger] s.contains((pre + k, v)) == (find(us, p + k) == Some(v)),
    reached(us, i)
{
  assert forall|k: Seq<u8>, v: i32| #[trigger] s.contains((pre + k, v)) == (find(us, p + k) == Some(v)) by {
    walk_cat(us, 0, p, k);
    assert(val_at(us, i, k) == find(us, p + k));
  }
}
pub proof fn walk_cat(us: Seq<u32>, i: u32, p: Seq<u8>, k: Seq<u8>)
  ensures walk(us, i, p) is None ==> walk(us, i, p + k) is None, walk(us, i, p) matches Some(j) ==> walk(us, i, p + k) == walk(us, j, k)
  decreases p.len()
{
  if p.len() == 0 { assert(p + k =~= k); }
  else {
    assert((p + k).drop_first() =~= p.drop_first() + k); assert((p + k)[0] == p[0]);
    if follows(us, i, p[0]) { walk_cat(us, nx(us, i, p[0]), p.drop_first(), k); }
  }
}
// a run of Next: the states of a completer and the answers; the n-th answer is the n-th entry, then false for ever
pub open spec fn run(cs: Seq<Completer>, rs: Seq<bool>) -> bool {
  &&& cs.len() == rs.len() + 1
  &&& forall|n: int| 0 <= n < rs.len() ==> stepped(cs[n], #[trigger] cs[n + 1], rs[n])
}
pub open spec fn stepped(a: Completer, b: Completer, r: bool) -> bool {
  &&& cframe(a, b) && cinv(b) && r == (rem(a).len() > 0) && (!r ==> rem(b).len() == 0)
  &&& r ==> reports(b, rem(a)[0]) && rem(b) == rem(a).drop_first()
}
pub proof fn prop_run(cs: Seq<Completer>, rs: Seq<bool>, s: Seq<KV>, n: int)
  requires run(cs, rs), rem(cs[0]) == s, 0 <= n < rs.len()
  ensures rs[n] == (n < s.len()), rs[n] ==> reports(cs[n + 1], s[n]), cs[n + 1].dict == cs[0].dict, cs[n + 1].guide == cs[0].guide, rem(cs[n + 1]) == (if n < s.len() { s.skip(n + 1) } else { Seq::empty() })
  decreases n
{
  assert(stepped(cs[n], cs[n + 1], rs[n]));
  if n > 0 { prop_run(cs, rs, s, n - 1); if n - 1 < s.len() { assert(s.skip(n).len() == s.len() - n); if n < s.len() { assert(s.skip(n)[0] == s[n]); assert(s.skip(n).drop_first() =~= s.skip(n + 1)); } else { assert(rem(cs[n + 1]) =~= Seq::empty()); } } else { assert(rem(cs[n + 1]) =~= Seq::empty()); } }
  else { if s.len() > 0 { assert(s.drop_first() =~= s.skip(1)); } else { assert(rem(cs[n + 1]) =~= Seq::empty()); } }
}
@end
