@raw
// ---------------------------------------------------------------- the hash table holds every group, where a search finds it
pub open spec fn h1(b: u32, c: u8) -> u32 { ihash(((c as u32) << 24u32) ^ b) }
// over the first n transitions from t on
pub open spec fn ghash(d: DG, t: int, n: int) -> u32
  decreases n
{ if n <= 0 { 0 } else { ghash(d, t, n - 1) ^ h1(d.base[t + n - 1], d.label[t + n - 1]) } }
pub open spec fn gh(d: DG, t: int) -> u32 { ghash(d, t, gend(d, t) - t + 1) }
pub open spec fn lhash(l: Seq<DawgUnit>, n: int) -> u32
  decreases n
{ if n <= 0 { 0 } else { lhash(l, n - 1) ^ h1(ubase(l[n - 1]), l[n - 1].label) } }
pub open spec fn is_whole(d: DG, t: int, l: Seq<DawgUnit>) -> bool { is_group(d, t, l) && gend(d, t) == t + l.len() - 1 }
// no group has these contents
#[verifier::opaque]
pub open spec fn lone(d: DG, l: Seq<DawgUnit>) -> bool { forall|s: int| start(d, s) ==> !#[trigger] is_whole(d, s, l) }
pub proof fn hash_same(d: DG, t: int, l: Seq<DawgUnit>, n: int)
  requires is_group(d, t, l), n <= l.len()
  ensures ghash(d, t, n) == lhash(l, n)
  decreases n
{ if n > 0 { hash_same(d, t, l, n - 1); let j = n - 1; assert(d.base[t + j] == ubase(l[j]) && d.label[t + j] == l[j].label); } }
pub proof fn ghash_ext(d: DG, e: DG, t: int, n: int)
  requires extends(d, e), 0 < t, n <= d.len() - t
  ensures ghash(e, t, n) == ghash(d, t, n)
  decreases n
{ if n > 0 { ghash_ext(d, e, t, n - 1); ext_at(d, e, t + n - 1); } }
pub proof fn gh_ext(d: DG, e: DG, t: int)
  requires pwf(d), extends(d, e), 0 < t < d.len()
  ensures gh(e, t) == gh(d, t), gend(e, t) == gend(d, t)
{ scan_ext(d, e, t, 0); gend_bounds(d, t); ghash_ext(d, e, t, gend(d, t) - t + 1); }
pub proof fn xor_move(a: u32, b: u32, c: u32)
  ensures (a ^ c) ^ b == a ^ (b ^ c)
{ assert((a ^ c) ^ b == a ^ (b ^ c)) by(bit_vector); }
pub proof fn xor_zero(a: u32)
  ensures a ^ 0 == a, 0 ^ a == a
{ assert(a ^ 0 == a) by(bit_vector); assert(0 ^ a == a) by(bit_vector); }

// every slot from h on, before e, is taken
pub open spec fn run(t: Seq<u32>, h: int, e: int) -> bool { forall|x: int| 0 <= x < t.len() && dist(h, x, t.len() as int) < dist(h, e, t.len() as int) ==> #[trigger] t[x] != 0 }
pub open spec fn home(hv: u32, n: int) -> int { hv as int % n }
pub open spec fn placed(d: DG, t: Seq<u32>, s: int, e: int) -> bool { 0 <= e < t.len() && t[e] == s && run(t, home(gh(d, s), t.len() as int), e) }
pub open spec fn found(d: DG, t: Seq<u32>, s: int) -> bool { exists|e: int| placed(d, t, s, e) }
#[verifier::opaque]
pub open spec fn full(d: DG, t: Seq<u32>) -> bool { forall|s: int| start(d, s) ==> #[trigger] found(d, t, s) }
pub proof fn run_step(t: Seq<u32>, h: int, e: int)
  requires 0 <= h < t.len(), 0 <= e < t.len(), t.len() < MAXLEN, run(t, h, e), t[e] != 0
  ensures run(t, h, (e + 1) % (t.len() as int)), forall|x: int| 0 <= x < t.len() && #[trigger] dist(h, x, t.len() as int) < dist(h, (e + 1) % (t.len() as int), t.len() as int) ==> x == e || dist(h, x, t.len() as int) < dist(h, e, t.len() as int)
{
  let n = t.len() as int;
  if e + 1 == n { assert((e + 1) % n == 0) by(nonlinear_arith) requires e + 1 == n, n > 0; } else { assert((e + 1) % n == e + 1) by(nonlinear_arith) requires 0 <= e + 1 < n; }
}
pub proof fn home_bound(hv: u32, n: int)
  requires n > 0
  ensures 0 <= home(hv, n) < n
{ assert(0 <= hv as int % n < n) by(nonlinear_arith) requires n > 0; }
pub proof fn placed_upd(d: DG, e: DG, t: Seq<u32>, s: int, i: int, v: u32)
  requires pwf(d), extends(d, e), start(d, s), found(d, t, s), 0 <= i < t.len(), t[i] == 0, v != 0
  ensures found(e, t.update(i, v), s)
{
  gh_ext(d, e, s);
  let x = choose|x: int| placed(d, t, s, x);
  let u = t.update(i, v);
  assert forall|y: int| 0 <= y < u.len() && dist(home(gh(d, s), u.len() as int), y, u.len() as int) < dist(home(gh(d, s), u.len() as int), x, u.len() as int) implies #[trigger] u[y] != 0 by { if y != i { assert(t[y] != 0); } }
  assert(placed(e, u, s, x));
}
pub proof fn placed_new(e: DG, t: Seq<u32>, g: u32, i: int)
  requires 0 <= i < t.len(), t[i] == 0, g != 0, run(t, home(gh(e, g as int), t.len() as int), i)
  ensures found(e, t.update(i, g), g as int)
{
  let u = t.update(i, g); let h = home(gh(e, g as int), t.len() as int);
  assert forall|y: int| 0 <= y < u.len() && dist(h, y, u.len() as int) < dist(h, i, u.len() as int) implies #[trigger] u[y] != 0 by { if y != i { assert(t[y] != 0); } }
  assert(placed(e, u, g as int, i));
}
// a search that ended at a free slot has seen every group with these contents
pub open spec fn passed(d: DG, t: Seq<u32>, h: int, e: int, l: Seq<DawgUnit>) -> bool { forall|x: int| 0 <= x < t.len() && dist(h, x, t.len() as int) < dist(h, e, t.len() as int) ==> !is_whole(d, #[trigger] t[x] as int, l) }
pub proof fn search_end(d: DG, t: Seq<u32>, e: int, l: Seq<DawgUnit>, s: int)
  requires pwf(d), full(d, t), 0 <= e < t.len(), t[e] == 0, passed(d, t, home(lhash(l, l.len() as int), t.len() as int), e, l), start(d, s)
  ensures !is_whole(d, s, l)
{
  reveal(full);
  assert(found(d, t, s));
  let x = choose|x: int| placed(d, t, s, x);
  if is_whole(d, s, l) {
    hash_same(d, s, l, l.len() as int);
    let n = t.len() as int; let h = home(lhash(l, l.len() as int), n);
    home_bound(lhash(l, l.len() as int), n);
    assert(home(gh(d, s), n) == h);
    assert(t[x] != 0);
    if dist(h, e, n) < dist(h, x, n) { assert(t[e] != 0); }
    assert(t[x] as int == s);
  }
}
// ---------------------------------------------------------------- no two groups have the same contents
pub open spec fn same_at(d: DG, s: int, t: int, j: int) -> bool { d.base[s + j] == d.base[t + j] && d.label[s + j] == d.label[t + j] }
pub open spec fn same(d: DG, s: int, t: int) -> bool { gend(d, s) - s == gend(d, t) - t && forall|j: int| 0 <= j <= gend(d, s) - s ==> #[trigger] same_at(d, s, t, j) }
#[verifier::opaque]
pub open spec fn uniq(d: DG) -> bool { forall|s: int, t: int| start(d, s) && start(d, t) && #[trigger] same(d, s, t) ==> s == t }
pub proof fn same_ext(d: DG, e: DG, s: int, t: int)
  requires pwf(d), extends(d, e), 0 < s < d.len(), 0 < t < d.len(), same(e, s, t)
  ensures same(d, s, t)
{
  scan_ext(d, e, s, 0); scan_ext(d, e, t, 0); gend_bounds(d, s); gend_bounds(d, t);
  assert forall|j: int| 0 <= j <= gend(d, s) - s implies #[trigger] same_at(d, s, t, j) by { assert(same_at(e, s, t, j)); ext_at(d, e, s + j); ext_at(d, e, t + j); }
}
pub proof fn same_sym(d: DG, s: int, t: int)
  requires same(d, s, t)
  ensures same(d, t, s)
{ assert forall|j: int| 0 <= j <= gend(d, t) - t implies #[trigger] same_at(d, t, s, j) by { assert(same_at(d, s, t, j)); } }
pub proof fn same_whole(d: DG, e: DG, s: int, g: int, l: Seq<DawgUnit>)
  requires pwf(d), extends(d, e), 0 < s < d.len(), is_group(e, g, l), gend(e, g) == g + l.len() - 1, same(e, s, g), l.len() > 0
  ensures is_whole(d, s, l)
{
  scan_ext(d, e, s, 0); gend_bounds(d, s);
  assert forall|j: int| 0 <= j < l.len() implies d.base[s + j] == ubase(#[trigger] l[j]) && d.label[s + j] == l[j].label by { assert(same_at(e, s, g, j)); ext_at(d, e, s + j); }
}
pub proof fn uniq_new(d: DG, e: DG, g: int, l: Seq<DawgUnit>)
  requires pwf(d), uniq(d), extends(d, e), g == d.len(), is_group(e, g, l), gend(e, g) == g + l.len() - 1, l.len() > 0, forall|s: int| start(d, s) ==> !#[trigger] is_whole(d, s, l),
    forall|t: int| g < t < e.len() ==> !start(e, t)
  ensures uniq(e)
{
  reveal(uniq);
  assert forall|s: int, t: int| start(e, s) && start(e, t) && #[trigger] same(e, s, t) implies s == t by {
    if s < g { assert(start(d, s)) by { if s > 1 { ext_at(d, e, s - 1); } } }
    if t < g { assert(start(d, t)) by { if t > 1 { ext_at(d, e, t - 1); } } }
    if s < g && t < g { same_ext(d, e, s, t); }
    else if s < g { same_whole(d, e, s, g, l); }
    else if t < g { same_sym(e, s, t); same_whole(d, e, t, g, l); }
  }
}
@end
@raw
// ---------------------------------------------------------------- every group is the child of something
pub open spec fn kept(d: DG, u: int, t: int) -> bool { 0 < u < d.len() && d.label[u] != 0 && d.child(u) == t }
pub open spec fn by_pool(d: DG, t: int) -> bool { exists|u: int| #[trigger] kept(d, u, t) }
pub open spec fn holds(us: Seq<DawgUnit>, ch: Seq<Seq<u32>>, i: int, j: int, t: int) -> bool {
  &&& 0 <= i < ch.len() && 0 <= j < ch[i].len() && (i == ch.len() - 1 || j < ch[i].len() - 1)
  &&& us[ch[i][j] as int].label != 0 && us[ch[i][j] as int].child == t
}
pub open spec fn by_unit(us: Seq<DawgUnit>, ch: Seq<Seq<u32>>, t: int) -> bool { exists|i: int, j: int| #[trigger] holds(us, ch, i, j, t) }
#[verifier::opaque]
pub open spec fn used(db: DawgBuilder) -> bool { forall|t: int| #[trigger] start(dgb(db), t) ==> by_pool(dgb(db), t) || by_unit(db.unitPool@, db.ch@, t) }
pub proof fn start_ext(d: DG, e: DG, t: int)
  requires extends(d, e), start(e, t), t < d.len()
  ensures start(d, t)
{ if t > 1 { ext_at(d, e, t - 1); } }
pub proof fn used_fold(s0: DawgBuilder, s: DawgBuilder, g: u32)
  requires core(s0), used(s0), folded(s0, s, g), forall|t: int| #[trigger] start(dgb(s), t) ==> t < dgb(s0).len() || t == g
  ensures used(s)
{
  reveal(used);
  let d = dgb(s0); let e = dgb(s); let us = s0.unitPool@; let vs = s.unitPool@; let ch = s0.ch@; let q = s.ch@; let m = ch.len() as int; let u = ch[m - 2].last(); let l = lvl(s0).last();
  assert(m == 2 || chain_ok(us, ch[m - 2]));
  assert(chain_ok(us, ch[m - 1]));
  assert(q[m - 2] == ch[m - 2]);
  assert(s0.own@[ch[m - 2][ch[m - 2].len() - 1]] == (m - 2, ch[m - 2].len() - 1));
  assert(levels_ok(d, lvl(s0)));
  assert(lvl(s0)[m - 2].last().label != 0);
  assert(lvl(s0)[m - 2].last() == us[u as int]);
  assert(pwf(d));
  assert(d.len() < MAXLEN) by { reveal(pwf); }
  assert forall|t: int| #[trigger] start(e, t) implies by_pool(e, t) || by_unit(vs, q, t) by {
    if t == g {
      assert(vs[u as int].child == g);
      assert(holds(vs, q, m - 2, q[m - 2].len() - 1, t));
    } else {
      start_ext(d, e, t);
      if by_pool(d, t) {
        let x = choose|x: int| #[trigger] kept(d, x, t);
        ext_at(d, e, x);
        assert(kept(e, x, t));
      } else {
        let (i, j) = choose|i: int, j: int| #[trigger] holds(us, ch, i, j, t);
        if i < m - 1 {
          assert(q[i] == ch[i]);
          assert(s0.own@[ch[i][j]] == (i, j));
          assert(vs[ch[i][j] as int] == us[ch[i][j] as int]);
          assert(holds(vs, q, i, j, t));
        } else {
          assert(l[j] == us[ch[i][j] as int]);
          ubase_props(l[j]);
          assert(e.base[g + j] == ubase(l[j]) && e.label[g + j] == l[j].label);
          assert(kept(e, g + j, t));
        }
      }
    }
  }
}
// one more unit on the stack; the parent's child was no group
pub proof fn used_step(s0: DawgBuilder, s: DawgBuilder, x: u32, y: DawgUnit, q: int)
  requires core(s0), inner(s0), used(s0), 0 <= q < s0.ch@.len(), taken(s0, s, x, y, s0.ch@[q].last()), s.ch@ == ins_ch(s0, q, x),
    s0.ch@.len() == q + 2 || (s0.ch@.len() == q + 1 && s0.unitPool@[s0.ch@[q].last() as int].child == 0)
  ensures used(s)
{
  reveal(used);
  let d = dgb(s0); let us = s0.unitPool@; let vs = s.unitPool@; let ch = s0.ch@; let c = s.ch@;
  let par = ch[q].last();
  taken_new(s0, s, x, y, par);
  assert(q == 0 || chain_ok(us, ch[q]));
  assert(s0.own@[ch[q][ch[q].len() - 1]] == (q, ch[q].len() - 1));
  assert forall|t: int| #[trigger] start(d, t) implies by_pool(d, t) || by_unit(vs, c, t) by {
    if !by_pool(d, t) {
      let (i, j) = choose|i: int, j: int| #[trigger] holds(us, ch, i, j, t);
      assert(s0.own@[ch[i][j]] == (i, j));
      assert(ch[i][j] != x);
      assert(ch[i][j] != par);
      assert(vs[ch[i][j] as int] == us[ch[i][j] as int]);
      assert(c[i][j] == ch[i][j]);
      if i == ch.len() - 1 && c.len() == ch.len() + 1 { assert(ch[q].last() == par); assert(j != ch[q].len() - 1); assert(c[i] == ch[i]); }
      assert(holds(vs, c, i, j, t));
    }
  }
}
// a change of a flag, or of a value at the end of a key
pub proof fn used_same(s0: DawgBuilder, s: DawgBuilder, u: int)
  requires core(s0), used(s0), dgb(s) == dgb(s0), s.ch@ == s0.ch@, s.unitPool@.len() == s0.unitPool@.len(), 0 <= u < s0.unitPool@.len(),
    forall|x: int| 0 <= x < s0.unitPool@.len() && x != u ==> #[trigger] s.unitPool@[x] == s0.unitPool@[x],
    s.unitPool@[u].label == s0.unitPool@[u].label, s.unitPool@[u].label == 0 || s.unitPool@[u].child == s0.unitPool@[u].child
  ensures used(s)
{
  reveal(used);
  let us = s0.unitPool@; let vs = s.unitPool@; let ch = s0.ch@;
  assert forall|t: int| #[trigger] start(dgb(s), t) implies by_pool(dgb(s), t) || by_unit(vs, ch, t) by {
    if !by_pool(dgb(s0), t) {
      let (i, j) = choose|i: int, j: int| #[trigger] holds(us, ch, i, j, t);
      let z = ch[i][j] as int;
      assert(z < us.len());
      assert(z == u || vs[z] == us[z]);
      assert(holds(vs, ch, i, j, t));
    }
  }
}
// ---------------------------------------------------------------- units made so far: in the pool, merged, or still on the stack
pub open spec fn total(ch: Seq<Seq<u32>>) -> int
  decreases ch.len()
{ if ch.len() <= 1 { 0 } else { total(ch.drop_last()) + ch.last().len() } }
pub proof fn total_pos(ch: Seq<Seq<u32>>)
  ensures total(ch) >= 0
  decreases ch.len()
{ if ch.len() > 1 { total_pos(ch.drop_last()); } }
pub proof fn total_last(ch: Seq<Seq<u32>>)
  requires ch.len() > 1
  ensures total(ch) == total(ch.drop_last()) + ch.last().len()
{ }
pub open spec fn made(db: DawgBuilder) -> int { db.basePool@.len() - 1 + db.numOfMergedTransitions + total(db.ch@) }
pub proof fn made_step(s0: DawgBuilder, s: DawgBuilder, x: u32, q: int)
  requires s.basePool@.len() == s0.basePool@.len(), s.numOfMergedTransitions == s0.numOfMergedTransitions, s.ch@ == ins_ch(s0, q, x), 0 <= q, q + 1 <= s0.ch@.len() <= q + 2
  ensures made(s) == made(s0) + 1
{
  if s0.ch@.len() == q + 2 { assert(s.ch@.drop_last() =~= s0.ch@.drop_last()); }
  else { assert(s.ch@.drop_last() =~= s0.ch@); }
}
pub open spec fn BIG() -> int { 0x4000_0000_0000_0000 }
pub open spec fn tight(db: DawgBuilder) -> bool { full(dgb(db), db.hashTable@) && uniq(dgb(db)) && used(db) && db.numOfMergedTransitions >= 0 }
pub proof fn min_new(d: DG, e: DG, l: Seq<DawgUnit>, t: Seq<u32>, i: int, g: u32)
  requires pwf(d), lev_ok(d, l, l.len() as int), !l.last().hasSibling, e.len() == d.len() + l.len(), e.len() < MAXLEN, extends(d, e), g == d.len(), is_group(e, g as int, l),
    full(d, t), uniq(d), 0 <= i < t.len(), t[i] == 0, run(t, home(lhash(l, l.len() as int), t.len() as int), i), lone(d, l)
  ensures full(e, t.update(i, g)), uniq(e), forall|x: int| #[trigger] start(e, x) ==> x < d.len() || x == g
{
  reveal(lone);
  assert(g >= 1) by { reveal(pwf); }
  if g > 1 { pwf_at(d, g - 1); ext_at(d, e, g - 1); }
  assert forall|x: int| #[trigger] start(e, x) && x >= d.len() implies x == g by { ext_new(d, e, l, x - g); }
  alloc_group(d, e, l);
  assert forall|j: int| 0 <= j < l.len() implies closed(e, #[trigger] l[j]) by { closed_ext(d, e, l[j]); }
  group_look(e, g as int, l, Seq::empty());
  uniq_new(d, e, g as int, l);
  hash_same(e, g as int, l, l.len() as int);
  placed_new(e, t, g, i);
  reveal(full);
  assert forall|s: int| start(e, s) implies #[trigger] found(e, t.update(i, g), s) by {
    if s != g { start_ext(d, e, s); assert(found(d, t, s)); placed_upd(d, e, t, s, i, g); }
  }
}
@end
@also DawgBuilder.hashTransition
@ensures r == gh(dgb(*self), index as int)
@at entry
  let ghost d = dgb(*self);
  let ghost t0 = index as int;
  proof { xor_zero(0); }
@loop 1
  invariant t0 <= index, hashValue == ghash(d, t0, index - t0), gend(d, index as int) == gend(d, t0)
@at begin 1
  proof { gend_bounds(d, index as int); }
@end
@also DawgBuilder.hashUnit
@ensures r == lhash(lvl(*self).last(), lvl(*self).last().len() as int)
@at before loop 1
  let ghost l = lvl(*self).last();
  proof { xor_zero(lhash(l, l.len() as int)); }
@loop 1
  invariant hashValue ^ lhash(l, j + 1) == lhash(l, l.len() as int)
@at begin 1
  let ghost hv = hashValue;
  proof { assert(l[j] == self.unitPool@[c[j] as int]); xor_move(hv, lhash(l, j), h1(ubase(l[j]), l[j].label)); }
@at after loop 1
  proof { xor_zero(hashValue); }
@end
@also DawgBuilder.findTransition
@ensures run(self.hashTable@, home(gh(dgb(*self), index as int), self.hashTable@.len() as int), *final(hashId) as int)
@at before loop 1
  let ghost h0 = *hashId as int;
  proof { home_bound(gh(dgb(*self), index as int), self.hashTable@.len() as int); }
@loop 1
  invariant h0 == home(gh(dgb(*self), index as int), self.hashTable@.len() as int), 0 <= h0 < self.hashTable@.len(), run(self.hashTable@, h0, *hashId as int)
@at before assign *hashId 2
  proof { run_step(self.hashTable@, h0, *hashId as int); }
@end
@also DawgBuilder.findUnit
@requires full(dgb(*self), self.hashTable@)
@ensures
  r == 0 ==> run(self.hashTable@, home(lhash(lvl(*self).last(), lvl(*self).last().len() as int), self.hashTable@.len() as int), *final(hashId) as int),
  r == 0 ==> lone(dgb(*self), lvl(*self).last())
@at entry
  let ghost l = lvl(*self).last();
  let ghost d = dgb(*self);
  let ghost n = self.hashTable@.len() as int;
@at before loop 1
  let ghost h0 = *hashId as int;
  proof { home_bound(lhash(l, l.len() as int), n); }
@loop 1
  invariant h0 == home(lhash(l, l.len() as int), n), 0 <= h0 < n, run(self.hashTable@, h0, *hashId as int), passed(d, self.hashTable@, h0, *hashId as int, l)
@at before assign *hashId 2
  proof { run_step(self.hashTable@, h0, *hashId as int); }
@at return 2
  proof { reveal(lone); assert forall|s: int| start(d, s) implies !#[trigger] is_whole(d, s, l) by { search_end(d, self.hashTable@, *hashId as int, l, s); } }
@end
@also DawgBuilder.expandHashTable
@ensures full(dgb(*final(self)), final(self).hashTable@)
@loop 1
  invariant forall|s: int| start(d, s) && s < i ==> #[trigger] found(d, self.hashTable@, s)
@at before assign db.hashTable[hashId] 1
  proof {
    let t1 = self.hashTable@; let t2 = t1.update(hashId as int, index);
    placed_new(d, t1, index, hashId as int);
    assert forall|s: int| start(d, s) && s < i + 1 implies #[trigger] found(d, t2, s) by { if s < i { placed_upd(d, d, t1, s, hashId as int, index); } }
  }
@at exit
  proof { reveal(full); }
@end
@also DawgBuilder.fixUnits
@requires tight(*old(self)), made(*old(self)) < BIG()
@ensures tight(*final(self)), made(*final(self)) == made(*old(self)), final(self).edges == old(self).edges
@at entry
  hide(used); hide(total);
@loop 1
  invariant tight(*self), made(*self) == made(*old(self)), self.edges == old(self).edges
@at begin 1
  proof { total_pos(self.ch@); total_pos(self.ch@.drop_last()); total_last(self.ch@); }
@at after call findUnit 1
  proof { assert(dgb(*self) == d && lvl(*self).last() == l); assert(matchedIndex == 0 ==> lone(d, l)); }
@at before assign db.hashTable[hashId] 1
  let ghost t4 = self.hashTable@;
  proof { min_new(d, dgb(*self), l, t4, hashId as int, matchedIndex); }
@at before loop 5
  proof {
    assert(full(e, self.hashTable@) && uniq(e));
    assert(self.basePool@.len() + self.numOfMergedTransitions == s0.basePool@.len() + s0.numOfMergedTransitions + c.len());
    assert(forall|t: int| #[trigger] start(e, t) ==> t < d.len() || t == matchedIndex);
  }
@at end 1
  proof { used_fold(s0, *self, matchedIndex); }
@at exit
  proof { assert(used(*self)) by { assert(used(s9)); reveal(used); } }
@end
@ghostfield DawgBuilder edges: Ghost<Seq<Seq<u8>>> = Ghost(Seq::empty())
@raw
// ---------------------------------------------------------------- the transitions of the prefix tree
// a key with its end mark, cut after m labels
pub open spec fn pre(k: Seq<u8>, m: int) -> Seq<u8> { Seq::new(m as nat, |i: int| klab(k, i)) }
pub open spec fn isp(p: Seq<u8>, k: Seq<u8>) -> bool { 0 < p.len() <= k.len() + 1 && p == pre(k, p.len() as int) }
pub open spec fn edge(db: DawgBuilder, p: Seq<u8>) -> bool { exists|k: Seq<u8>| blook(db, k) is Some && #[trigger] isp(p, k) }
pub open spec fn tree(db: DawgBuilder, q: Seq<Seq<u8>>) -> bool { q.no_duplicates() && forall|p: Seq<u8>| #[trigger] q.contains(p) <==> edge(db, p) }
pub open spec fn below(db: DawgBuilder) -> bool {
  &&& forall|k: Seq<u8>| (#[trigger] blook(db, k)) is Some ==> nozero(k) && blast(db) is Some && lexle(k, blast(db)->0)
  &&& blast(db) is Some ==> nozero(blast(db)->0) && blook(db, blast(db)->0) is Some
}
pub open spec fn lay(db: DawgBuilder) -> bool {
  if db.hashTable@.len() == 0 { db.edges@.len() == 0 } else { tight(db) && below(db) && tree(db, db.edges@) && db.edges@.len() == made(db) }
}
pub proof fn lex_trans(a: Seq<u8>, b: Seq<u8>, c: Seq<u8>)
  requires lexle(a, b), lexle(b, c)
  ensures lexle(a, c)
  decreases a.len()
{ if a.len() > 0 && a[0] == b[0] && b[0] == c[0] { lex_trans(a.drop_first(), b.drop_first(), c.drop_first()); } }
pub proof fn nozero_tail(k: Seq<u8>)
  requires nozero(k), k.len() > 0
  ensures nozero(k.drop_first()), forall|i: int| 0 <= i ==> #[trigger] klab(k.drop_first(), i) == klab(k, i + 1)
{ assert forall|i: int| 0 <= i < k.len() - 1 implies #[trigger] k.drop_first()[i] != 0 by { assert(k[i + 1] != 0); } }
pub open spec fn agree(a: Seq<u8>, b: Seq<u8>, m: int) -> bool { forall|i: int| 0 <= i < m ==> #[trigger] klab(a, i) == klab(b, i) }
pub proof fn sandwich(k: Seq<u8>, l: Seq<u8>, z: Seq<u8>, m: int)
  requires nozero(k), nozero(l), nozero(z), lexle(k, l), lexle(l, z), 0 <= m <= k.len() + 1, m <= z.len() + 1, agree(k, z, m)
  ensures agree(l, z, m)
  decreases m
{
  if m > 0 {
    assert(klab(k, 0) == klab(z, 0));
    if k.len() == 0 { assert(z.len() == 0) by { if z.len() > 0 { assert(z[0] != 0); } } assert(l.len() == 0); }
    else {
      assert(k[0] != 0); assert(z.len() > 0); assert(l.len() > 0 && l[0] == k[0]);
      nozero_tail(k); nozero_tail(l); nozero_tail(z);
      let (a, b, c) = (k.drop_first(), l.drop_first(), z.drop_first());
      assert forall|i: int| 0 <= i < m - 1 implies #[trigger] klab(a, i) == klab(c, i) by { assert(klab(k, i + 1) == klab(z, i + 1)); }
      sandwich(a, b, c, m - 1);
      assert forall|i: int| 0 <= i < m implies #[trigger] klab(l, i) == klab(z, i) by { if i > 0 { assert(klab(b, i - 1) == klab(c, i - 1)); } }
    }
  }
}
pub open spec fn newp(k: Seq<u8>, n: int) -> Seq<Seq<u8>> { Seq::new((k.len() + 1 - n) as nat, |x: int| pre(k, n + 1 + x)) }
pub proof fn pre_agree(a: Seq<u8>, b: Seq<u8>, m: int)
  requires m >= 0
  ensures (pre(a, m) == pre(b, m)) == agree(a, b, m)
{
  if pre(a, m) == pre(b, m) { assert forall|i: int| 0 <= i < m implies #[trigger] klab(a, i) == klab(b, i) by { assert(pre(a, m)[i] == pre(b, m)[i]); } }
  else if agree(a, b, m) { assert(pre(a, m) =~= pre(b, m)); }
}
// the first n labels of the new key are those of the last key, and the next one is not
pub proof fn tree_add(s: DawgBuilder, t: DawgBuilder, q: Seq<Seq<u8>>, k: Seq<u8>, n: int)
  requires below(s), tree(s, q), nozero(k), 0 <= n <= k.len() + 1,
    match blast(s) { Some(l) => lexle(l, k) && n <= l.len() + 1 && agree(l, k, n) && (n <= k.len() ==> klab(l, n) != klab(k, n)), None => n == 0 },
    blast(t) == Some(k), forall|x: Seq<u8>| (#[trigger] blook(t, x)) is Some == (x == k || blook(s, x) is Some)
  ensures below(t), tree(t, q + newp(k, n))
{
  let w = newp(k, n); let r = q + w;
  assert forall|x: Seq<u8>| (#[trigger] blook(t, x)) is Some implies nozero(x) && lexle(x, k) by {
    if x == k { lex_refl(k); } else { assert(blook(s, x) is Some); lex_trans(x, blast(s)->0, k); }
  }
  assert forall|p: Seq<u8>| #[trigger] r.contains(p) <==> edge(t, p) by {
    if r.contains(p) {
      let i = choose|i: int| 0 <= i < r.len() && r[i] == p;
      if i < q.len() {
        assert(q[i] == p); assert(q.contains(p));
        let z = choose|z: Seq<u8>| blook(s, z) is Some && #[trigger] isp(p, z);
        assert(blook(t, z) is Some);
      } else { assert(w[i - q.len()] == p); assert(blook(t, k) is Some); assert(isp(p, k)); }
    }
    if edge(t, p) {
      let z = choose|z: Seq<u8>| blook(t, z) is Some && #[trigger] isp(p, z);
      if z == k {
        if p.len() > n { let x = p.len() - n - 1; assert(w[x] == p); assert(r[q.len() + x] == p); }
        else {
          let l = blast(s)->0;
          pre_agree(l, k, p.len() as int);
          assert(isp(p, l)); assert(blook(s, l) is Some); assert(edge(s, p)); assert(q.contains(p));
          let i = choose|i: int| 0 <= i < q.len() && q[i] == p; assert(r[i] == p);
        }
      } else { assert(blook(s, z) is Some); assert(edge(s, p)); assert(q.contains(p)); let i = choose|i: int| 0 <= i < q.len() && q[i] == p; assert(r[i] == p); }
    }
  }
  assert forall|i: int, j: int| 0 <= i < j < r.len() implies r[i] != r[j] by {
    if j < q.len() { assert(q[i] != q[j]); }
    else if i >= q.len() { assert(w[i - q.len()].len() != w[j - q.len()].len()); }
    else {
      let p = r[i];
      if p == r[j] {
        assert(q[i] == p); assert(q.contains(p));
        let z = choose|z: Seq<u8>| blook(s, z) is Some && #[trigger] isp(p, z);
        let m = p.len() as int; let l = blast(s)->0;
        assert(p == w[j - q.len()]); assert(m == n + 1 + (j - q.len()));
        pre_agree(z, k, m);
        sandwich(z, l, k, m);
        assert(klab(l, n) == klab(k, n));
      }
    }
  }
}
pub proof fn head_lab(s: DawgBuilder, i: int)
  requires active(s), s.ch@.len() > 1, 0 <= i < s.ch@.len() - 1
  ensures heads(lvl(s))[i + 1] == klab(blast(s)->0, i), blast(s) is Some, (blast(s)->0).len() == s.ch@.len() - 2
{ let h = heads(lvl(s)); let b = blast(s)->0; if i < b.len() { assert(b[i] == h[i + 1]); } else { assert(h[i + 1] == lvl(s).last().last().label); } }
pub proof fn path_agree(s: DawgBuilder, k: Seq<u8>, n: int)
  requires active(s), onpath(s, k, n), 0 <= n < s.ch@.len()
  ensures s.ch@.len() == 1 ==> n == 0 && blast(s) is None, s.ch@.len() > 1 ==> blast(s) is Some && n <= (blast(s)->0).len() + 1 && agree(blast(s)->0, k, n),
    n + 1 < s.ch@.len() ==> klab(blast(s)->0, n) == lvl(s)[n + 1].last().label
{
  if s.ch@.len() > 1 {
    head_lab(s, 0);
    assert forall|i: int| 0 <= i < n implies #[trigger] klab(blast(s)->0, i) == klab(k, i) by { head_lab(s, i); assert(heads(lvl(s))[i + 1] == klab(k, i)); }
    if n + 1 < s.ch@.len() { head_lab(s, n); assert(heads(lvl(s))[n + 1] == lvl(s)[n + 1].last().label); }
  }
}
pub open spec fn fork(s: DawgBuilder, k: Seq<u8>, n: int) -> bool {
  match blast(s) { Some(l) => n <= l.len() + 1 && agree(l, k, n) && (n <= k.len() ==> klab(l, n) != klab(k, n)), None => n == 0 }
}
pub proof fn act_table(s: DawgBuilder)
  requires active(s)
  ensures s.hashTable@.len() > 0
{}
pub proof fn end_label(s: DawgBuilder)
  requires atend(s)
  ensures s.unitPool@[s.ch@.last().last() as int].label == 0
{ let m = s.ch@.len() - 1; assert(chain_ok(s.unitPool@, s.ch@[m])); assert(lvl(s)[m].last() == s.unitPool@[s.ch@[m].last() as int]); }
pub proof fn edges_only(s: DawgBuilder, t: DawgBuilder)
  requires t == (DawgBuilder { edges: t.edges, ..s })
  ensures active(s) ==> active(t), blast(t) == blast(s), forall|k: Seq<u8>| #[trigger] blook(t, k) == blook(s, k), tight(s) ==> tight(t), made(t) == made(s), below(s) ==> below(t), forall|q: Seq<Seq<u8>>| tree(s, q) ==> tree(t, q)
{
  reveal(used);
  assert(dgb(s) == dgb(t) && lvl(s) == lvl(t));
  assert(forall|k: Seq<u8>| #[trigger] blook(t, k) == blook(s, k));
  if active(s) { assert(core(t)); assert(active(t)); }
  assert forall|q: Seq<Seq<u8>>| tree(s, q) implies tree(t, q) by {
    assert forall|p: Seq<u8>| #[trigger] q.contains(p) <==> edge(t, p) by {
      if edge(t, p) { let z = choose|z: Seq<u8>| blook(t, z) is Some && #[trigger] isp(p, z); assert(blook(s, z) is Some); }
      if edge(s, p) { let z = choose|z: Seq<u8>| blook(s, z) is Some && #[trigger] isp(p, z); assert(blook(t, z) is Some); }
    }
  }
}
@end
@also DawgBuilder.init
@ensures lay(*final(self)), final(self).edges@.len() == 0
@at exit
  self.edges = Ghost(Seq::empty());
  proof {
    reveal(full); reveal(uniq); reveal(used);
    assert(tight(*self));
    assert(total(self.ch@) == 0);
    assert(blast(*self) is None);
    assert forall|k: Seq<u8>| (#[trigger] blook(*self, k)) is None by {}
  }
@end
@also DawgBuilder.InsertKeyValue
@requires lay(*old(self)), old(self).edges@.len() + length + 1 < BIG()
@ensures lay(*final(self)), final(self).edges@.len() <= old(self).edges@.len() + length + 1
@at entry
  hide(below); hide(tree); hide(used); hide(total); hide(fork);
  let ghost mut n0: int = 0;
@at before loop 2
  proof { act_table(s1); assert(lay(s1)); assert(tight(s1) && below(s1) && tree(s1, s1.edges@)); }
@at begin 2
  proof { path_agree(s1, K, keyPos as int); }
@at then 4
  proof { n0 = 0; assert(fork(s1, K, 0)) by { reveal(fork); } }
@at before call fixUnits 1
  proof { used_same(s2, s3, childIndex as int); }
@at after call fixUnits 1
  proof { n0 = keyPos as int; assert(fork(s1, K, n0)) by { reveal(fork); } }
@at after loop 2
  proof { if !brk { path_agree(s1, K, keyPos as int); n0 = keyPos as int; assert(fork(s1, K, n0)) by { reveal(fork); } } assert(keyPos == n0); assert(tight(*self) && made(*self) == made(s1) && self.edges == s1.edges); }
@loop 3
  invariant n0 <= keyPos, fork(s1, K, n0), tight(*self), made(*self) == made(s1) + keyPos - n0, self.edges == s1.edges
@at end 3
  proof { used_step(s4, *self, childIndex, y, q); made_step(s4, *self, childIndex, q); }
@at return 4
  proof {
    end_label(s6);
    used_same(s6, *self, index as int);
    tree_add(s1, *self, s1.edges@, K, n0);
    assert(active(*self));
    assert(below(*self) && tree(*self, s1.edges@ + newp(K, n0)) && tight(*self));
  }
  let ghost s8 = *self;
  self.edges = Ghost(s1.edges@ + newp(K, n0));
  proof { edges_only(s8, *self); }
@end
@raw
// ---------------------------------------------------------------- groups with the same language have the same contents
pub proof fn inhabited(d: DG, g: int, u: int) -> (k: Seq<u8>)
  requires pwf(d), start(d, g), g <= u <= gend(d, g)
  ensures glook(d, g, k) is Some, nozero(k), chan(k) == d.label[u]
  decreases u
{
  gend_bounds(d, g);
  group_member(d, g, u);
  pwf_at(d, u);
  let c = d.label[u];
  if c == 0 { Seq::<u8>::empty() }
  else {
    let h = d.child(u);
    gend_bounds(d, h);
    let t = inhabited(d, h, h);
    let k = seq![c] + t;
    assert(k.drop_first() =~= t);
    assert forall|i: int| 0 <= i < k.len() implies #[trigger] k[i] != 0 by { if i > 0 { assert(t[i - 1] != 0); } }
    k
  }
}
pub open spec fn eqlang(d: DG, s: int, t: int) -> bool { forall|k: Seq<u8>| #[trigger] glook(d, s, k) == glook(d, t, k) }
// each label of s is one of t
pub proof fn lang_label(d: DG, s: int, t: int, u: int)
  requires pwf(d), start(d, s), start(d, t), eqlang(d, s, t), s <= u <= gend(d, s)
  ensures scan(d, t, d.label[u]) is Some
{ let k = inhabited(d, s, u); assert(glook(d, s, k) == glook(d, t, k)); assert(glook(d, t, k) is Some); }
pub proof fn base_bits(a: u32, b: u32)
  ensures bsib(a) == bsib(b) && bst(a) == bst(b) && bchild(a) == bchild(b) ==> a == b, bsib(a) == bsib(b) && bval(a) == bval(b) ==> a == b
{
  assert(a & 1 == b & 1 && a & 2 == b & 2 && a >> 2 == b >> 2 ==> a == b) by(bit_vector);
  assert(a & 1 == b & 1 && a >> 1 == b >> 1 ==> a == b) by(bit_vector);
  assert(a & 1 == 0 || a & 1 == 1) by(bit_vector); assert(b & 1 == 0 || b & 1 == 1) by(bit_vector);
  assert(a & 2 == 0 || a & 2 == 2) by(bit_vector); assert(b & 2 == 0 || b & 2 == 2) by(bit_vector);
  assert(a >> 1 < 0x8000_0000) by(bit_vector); assert(b >> 1 < 0x8000_0000) by(bit_vector);
}
// the members at the same place agree
pub proof fn lang_member(d: DG, s: int, t: int, j: int)
  requires pwf(d), uniq(d), start(d, s), start(d, t), eqlang(d, s, t), 0 <= j <= gend(d, s) - s, j <= gend(d, t) - t, forall|x: int| 0 <= x < j ==> #[trigger] same_at(d, s, t, x)
  ensures same_at(d, s, t, j)
  decreases s + t, 0int
{
  let (u, v) = (s + j, t + j);
  gend_bounds(d, s); gend_bounds(d, t);
  lang_label(d, s, t, u);
  lang_label(d, t, s, v);
  group_member(d, s, u); group_member(d, t, v);
  pwf_at(d, u); pwf_at(d, v);
  let (a, b) = (d.label[u], d.label[v]);
  scan_props(d, s, b); scan_props(d, t, a);
  let v2 = scan(d, t, a)->0; let u2 = scan(d, s, b)->0;
  if v2 < v { assert(same_at(d, s, t, v2 - t)); group_member(d, s, s + (v2 - t)); }
  if u2 < u { assert(same_at(d, s, t, u2 - s)); group_member(d, t, t + (u2 - s)); }
  group_member(d, t, v2); group_member(d, s, u2);
  assert(v2 >= v && u2 >= u);
  asc_label(d, t, v, v2); asc_label(d, s, u, u2);
  assert(a == b);
  // the ends
  if d.sib(u) { group_member(d, s, u); lang_label(d, s, t, u + 1); let w = scan(d, t, d.label[u + 1])->0; scan_props(d, t, d.label[u + 1]); if !d.sib(v) { asc_label(d, t, w, v); asc_label(d, s, u, u + 1); } }
  if d.sib(v) { group_member(d, t, v); lang_label(d, t, s, v + 1); let w = scan(d, s, d.label[v + 1])->0; scan_props(d, s, d.label[v + 1]); if !d.sib(u) { asc_label(d, s, w, u); asc_label(d, t, v, v + 1); } }
  base_bits(d.base[u], d.base[v]);
  if a == 0 {
    let k = Seq::<u8>::empty();
    assert(glook(d, s, k) == glook(d, t, k));
  } else {
    let (x, y) = (d.child(u), d.child(v));
    gend_bounds(d, x); gend_bounds(d, y);
    child_lower(d, s, u); child_lower(d, t, v);
    assert forall|k: Seq<u8>| #[trigger] glook(d, x, k) == glook(d, y, k) by {
      let z = seq![a] + k; assert(z.drop_first() =~= k);
      assert(glook(d, s, z) == glook(d, t, z));
    }
    lang_uniq(d, x, y);
    if j > 0 { assert(!start(d, u)) by { group_member(d, s, u - 1); } assert(!start(d, v)) by { group_member(d, t, v - 1); } }
  }
}
pub proof fn asc_label(d: DG, g: int, u: int, v: int)
  requires pwf(d), 0 < g < d.len(), g <= u <= v || g <= v <= u, u <= gend(d, g), v <= gend(d, g)
  ensures u < v ==> d.label[u] < d.label[v], v < u ==> d.label[v] < d.label[u]
{
  if u < v { group_member(d, g, u); scan_props(d, u, 0); }
  if v < u { group_member(d, g, v); scan_props(d, v, 0); }
}
pub proof fn child_lower(d: DG, g: int, u: int)
  requires pwf(d), start(d, g), g <= u <= gend(d, g), d.label[u] != 0
  ensures start(d, d.child(u)), d.child(u) < g
{
  gend_bounds(d, g);
  pwf_at(d, u);
  let c = d.child(u);
  gend_bounds(d, c);
  if c == g { group_member(d, g, u); }
  if c > g { group_member(d, g, c - 1); }
}
pub proof fn lang_all(d: DG, s: int, t: int, j: int)
  requires pwf(d), uniq(d), start(d, s), start(d, t), eqlang(d, s, t), 0 <= j, s + j <= gend(d, s) + 1
  ensures forall|x: int| 0 <= x < j ==> #[trigger] same_at(d, s, t, x), j <= gend(d, t) - t + 1
  decreases s + t, 1int, j
{
  gend_bounds(d, s); gend_bounds(d, t);
  if j > 0 {
    lang_all(d, s, t, j - 1);
    if j - 1 > gend(d, t) - t {
      assert(same_at(d, s, t, j - 2)); group_member(d, s, s + j - 2); group_member(d, t, t + j - 2);
    }
    lang_member(d, s, t, j - 1);
  }
}
pub proof fn lang_uniq(d: DG, s: int, t: int)
  requires pwf(d), uniq(d), start(d, s), start(d, t), eqlang(d, s, t)
  ensures s == t
  decreases s + t, 2int
{
  let n = gend(d, s) - s + 1;
  gend_bounds(d, s); gend_bounds(d, t);
  lang_all(d, s, t, n);
  if n <= gend(d, t) - t { assert(same_at(d, s, t, n - 1)); group_member(d, s, s + n - 1); group_member(d, t, t + n - 1); }
  assert(same(d, s, t));
  reveal(uniq);
}
// ---------------------------------------------------------------- every group is reached by a word
pub open spec fn first(d: DG, u: int) -> int
  decreases u
{ if u <= 1 || !d.sib(u - 1) { u } else { first(d, u - 1) } }
pub proof fn first_props(d: DG, u: int)
  requires pwf(d), 0 < u < d.len()
  ensures start(d, first(d, u)), first(d, u) <= u <= gend(d, first(d, u))
  decreases u
{
  gend_bounds(d, u);
  if u > 1 && d.sib(u - 1) { first_props(d, u - 1); let g = first(d, u - 1); gend_bounds(d, g); group_member(d, g, u - 1); }
}
pub proof fn first_is(d: DG, g: int, u: int)
  requires pwf(d), start(d, g), g <= u <= gend(d, g)
  ensures first(d, u) == g
  decreases u
{ gend_bounds(d, g); if u > g { group_member(d, g, u - 1); first_is(d, g, u - 1); } }
pub proof fn dwalk_cat(d: DG, s: int, p: Seq<u8>, k: Seq<u8>)
  ensures dwalk(d, s, p + k) == (match dwalk(d, s, p) { Some(v) => dwalk(d, v, k), None => None })
  decreases p.len()
{
  if p.len() == 0 { assert(p + k =~= k); }
  else {
    assert((p + k)[0] == p[0]); assert((p + k).drop_first() =~= p.drop_first() + k);
    if p[0] != 0 { match kid(d, s, p[0]) { Some(u) => { dwalk_cat(d, u, p.drop_first(), k); }, None => {} } }
  }
}
pub open spec fn leads(d: DG, p: Seq<u8>, t: int) -> bool { dwalk(d, 0, p) matches Some(v) && 0 <= v < d.len() && d.label[v] != 0 && d.child(v) == t }
pub open spec fn rooted(d: DG) -> bool { forall|t: int| #[trigger] start(d, t) ==> by_pool(d, t) || d.child(0) == t }
pub proof fn word(d: DG, t: int) -> (p: Seq<u8>)
  requires dwf(d), rooted(d), start(d, t)
  ensures leads(d, p, t)
  decreases d.len() - t
{
  if d.child(0) == t { Seq::<u8>::empty() }
  else {
    assert(by_pool(d, t));
    let u = choose|u: int| #[trigger] kept(d, u, t);
    first_props(d, u);
    let g = first(d, u);
    child_lower(d, g, u);
    let q = word(d, g);
    let v = dwalk(d, 0, q)->0;
    group_member(d, g, u);
    let c = seq![d.label[u]];
    dwalk_cat(d, 0, q, c);
    assert(c.drop_first().len() == 0);
    assert(dwalk(d, u, c.drop_first()) == Some(u));
    assert(dwalk(d, v, c) == Some(u));
    q + c
  }
}
// what follows a word that leads to t is the language of t
pub proof fn word_lang(d: DG, p: Seq<u8>, t: int, k: Seq<u8>)
  requires dwf(d), leads(d, p, t), start(d, t)
  ensures dlook(d, 0, p + k) == glook(d, t, k)
{ let v = dwalk(d, 0, p)->0; dwalk_cat(d, 0, p, k); dlook_glook(d, v, k); assert(dlook(d, 0, p + k) == dlook(d, v, k)); }
pub proof fn dwalk_in(d: DG, s: int, p: Seq<u8>)
  requires dwf(d), 0 <= s < d.len(), d.label[s] != 0
  ensures dwalk(d, s, p) matches Some(v) ==> 0 <= v < d.len() && d.label[v] != 0 && (d.child(v) == 0 || start(d, d.child(v)))
  decreases p.len()
{
  if s > 0 { pwf_at(d, s); }
  if p.len() > 0 && p[0] != 0 && d.child(s) != 0 {
    scan_props(d, d.child(s), p[0]); gend_bounds(d, d.child(s));
    if kid(d, s, p[0]) is Some { dwalk_in(d, kid(d, s, p[0])->0, p.drop_first()); }
  }
}
// a word with something after it leads to a group
pub proof fn word_group(d: DG, p: Seq<u8>, k: Seq<u8>) -> (t: int)
  requires dwf(d), dlook(d, 0, p + k) is Some
  ensures start(d, t), leads(d, p, t)
{
  dwalk_cat(d, 0, p, k);
  dwalk_in(d, 0, p);
  let v = dwalk(d, 0, p)->0;
  let t = d.child(v);
  if t == 0 { assert(kid(d, v, chan(k)) is None); if k.len() == 0 { assert(dwalk(d, v, k) == Some(v)); } }
  t
}
// ---------------------------------------------------------------- the list of the groups
pub open spec fn sts(d: DG, n: int) -> Seq<int>
  decreases n
{ if n <= 1 { Seq::empty() } else if start(d, n - 1) { sts(d, n - 1).push(n - 1) } else { sts(d, n - 1) } }
pub proof fn sts_props(d: DG, n: int)
  ensures sts(d, n).len() == starts(d, n), forall|i: int| 0 <= i < sts(d, n).len() ==> start(d, #[trigger] sts(d, n)[i]) && sts(d, n)[i] < n && starts(d, sts(d, n)[i]) == i
  decreases n
{ if n > 1 { sts_props(d, n - 1); } }
pub proof fn sts_at(d: DG, n: int, t: int)
  requires start(d, t), t < n
  ensures 0 <= starts(d, t) < sts(d, n).len(), sts(d, n)[starts(d, t)] == t
  decreases n
{ sts_props(d, n); sts_props(d, n - 1); starts_bound(d, t); if t < n - 1 { sts_at(d, n - 1, t); } }

// ---------------------------------------------------------------- the property
// what is stored below p
pub open spec fn some_below(a: DawgBuilder, p: Seq<u8>) -> bool { exists|k: Seq<u8>| #[trigger] blook(a, p + k) is Some }
pub open spec fn same_below(a: DawgBuilder, p: Seq<u8>, q: Seq<u8>) -> bool { forall|k: Seq<u8>| #[trigger] blook(a, p + k) == blook(a, q + k) }
// the non-empty sets of remaining suffixes with their values, each once, by a prefix they remain after
pub open spec fn rests(a: DawgBuilder, reps: Seq<Seq<u8>>) -> bool {
  &&& forall|i: int| 0 <= i < reps.len() ==> some_below(a, #[trigger] reps[i])
  &&& forall|i: int, j: int| 0 <= i < reps.len() && 0 <= j < reps.len() && #[trigger] same_below(a, reps[i], reps[j]) ==> i == j
  &&& forall|p: Seq<u8>| #[trigger] some_below(a, p) ==> exists|i: int| 0 <= i < reps.len() && #[trigger] same_below(a, p, reps[i])
}
// the ways out of them: a first label, or the end of a key (label 0)
pub open spec fn goes(a: DawgBuilder, p: Seq<u8>, c: u8) -> bool { exists|k: Seq<u8>| nozero(k) && chan(k) == c && #[trigger] blook(a, p + k) is Some }
pub open spec fn outs(a: DawgBuilder, reps: Seq<Seq<u8>>, tr: Seq<(int, u8)>) -> bool {
  &&& tr.no_duplicates()
  &&& forall|i: int, c: u8| #[trigger] tr.contains((i, c)) <==> 0 <= i < reps.len() && goes(a, reps[i], c)
}
// states, transitions, and what merging saved of the prefix tree, are what the automaton reports
pub open spec fn minimal(a: DawgBuilder, w: Dawg) -> bool {
  exists|reps: Seq<Seq<u8>>, tr: Seq<(int, u8)>, ed: Seq<Seq<u8>>| {
    &&& #[trigger] rests(a, reps) && #[trigger] outs(a, reps, tr) && #[trigger] tree(a, ed)
    &&& w.numOfStates == reps.len() + 1 && w.basePool@.len() - 1 == tr.len()
    &&& w.numOfMergedTransitions == ed.len() - tr.len() && w.numOfMergedStates == (ed.len() + 1) - (reps.len() + 1)
  }
}
pub proof fn min_rests(a: DawgBuilder, w: Dawg) -> (reps: Seq<Seq<u8>>)
  requires finished(a, w), uniq(dgd(w)), rooted(dgd(w))
  ensures rests(a, reps), reps.len() == starts(dgd(w), dgd(w).len()), forall|t: int| #[trigger] start(dgd(w), t) ==> 0 <= starts(dgd(w), t) < reps.len() && leads(dgd(w), reps[starts(dgd(w), t)], t),
    forall|i: int| 0 <= i < reps.len() ==> start(dgd(w), #[trigger] sts(dgd(w), dgd(w).len())[i]) && leads(dgd(w), reps[i], sts(dgd(w), dgd(w).len())[i])
{
  let d = dgd(w); let n = d.len();
  sts_props(d, n);
  let st = sts(d, n);
  let reps = Seq::new(st.len(), |i: int| choose|p: Seq<u8>| leads(d, p, st[i]));
  assert forall|i: int| 0 <= i < reps.len() implies start(d, #[trigger] st[i]) && leads(d, reps[i], st[i]) by { let p = word(d, st[i]); }
  assert forall|i: int| 0 <= i < reps.len() implies some_below(a, #[trigger] reps[i]) by {
    let t = st[i]; gend_bounds(d, t);
    let k = inhabited(d, t, t);
    word_lang(d, reps[i], t, k);
    assert(blook(a, reps[i] + k) is Some);
  }
  assert forall|i: int, j: int| 0 <= i < reps.len() && 0 <= j < reps.len() && #[trigger] same_below(a, reps[i], reps[j]) implies i == j by {
    assert forall|k: Seq<u8>| #[trigger] glook(d, st[i], k) == glook(d, st[j], k) by {
      word_lang(d, reps[i], st[i], k); word_lang(d, reps[j], st[j], k);
      assert(blook(a, reps[i] + k) == blook(a, reps[j] + k));
    }
    lang_uniq(d, st[i], st[j]);
  }
  assert forall|t: int| #[trigger] start(d, t) implies 0 <= starts(d, t) < reps.len() && leads(d, reps[starts(d, t)], t) by { sts_at(d, n, t); assert(st[starts(d, t)] == t); }
  assert forall|p: Seq<u8>| #[trigger] some_below(a, p) implies exists|i: int| 0 <= i < reps.len() && #[trigger] same_below(a, p, reps[i]) by {
    let k = choose|k: Seq<u8>| #[trigger] blook(a, p + k) is Some;
    let t = word_group(d, p, k);
    let i = starts(d, t);
    assert(leads(d, reps[i], t));
    assert forall|k: Seq<u8>| #[trigger] blook(a, p + k) == blook(a, reps[i] + k) by { word_lang(d, p, t, k); word_lang(d, reps[i], t, k); }
    assert(same_below(a, p, reps[i]));
  }
  reps
}
pub proof fn min_outs(a: DawgBuilder, w: Dawg, reps: Seq<Seq<u8>>) -> (tr: Seq<(int, u8)>)
  requires finished(a, w), reps.len() == starts(dgd(w), dgd(w).len()),
    forall|i: int| 0 <= i < reps.len() ==> start(dgd(w), #[trigger] sts(dgd(w), dgd(w).len())[i]) && leads(dgd(w), reps[i], sts(dgd(w), dgd(w).len())[i])
  ensures outs(a, reps, tr), tr.len() == dgd(w).len() - 1
{
  let d = dgd(w); let n = d.len(); let st = sts(d, n);
  sts_props(d, n);
  assert(1 <= n) by { reveal(pwf); }
  let tr = Seq::new((n - 1) as nat, |x: int| (starts(d, first(d, x + 1)), d.label[x + 1]));
  assert forall|x: int, y: int| 0 <= x < tr.len() && 0 <= y < tr.len() && x != y implies tr[x] != tr[y] by {
    first_props(d, x + 1); first_props(d, y + 1);
    let (g, h) = (first(d, x + 1), first(d, y + 1));
    sts_at(d, n, g); sts_at(d, n, h);
    if tr[x] == tr[y] { assert(g == h); asc_label(d, g, x + 1, y + 1); }
  }
  assert forall|i: int, c: u8| #[trigger] tr.contains((i, c)) <==> 0 <= i < reps.len() && goes(a, reps[i], c) by {
    if tr.contains((i, c)) {
      let x = choose|x: int| 0 <= x < tr.len() && tr[x] == (i, c);
      let u = x + 1;
      first_props(d, u);
      let g = first(d, u);
      sts_at(d, n, g);
      let k = inhabited(d, g, u);
      assert(st[i] == g);
      word_lang(d, reps[i], g, k);
      assert(blook(a, reps[i] + k) is Some);
    }
    if 0 <= i < reps.len() && goes(a, reps[i], c) {
      let k = choose|k: Seq<u8>| nozero(k) && chan(k) == c && #[trigger] blook(a, reps[i] + k) is Some;
      let g = st[i];
      word_lang(d, reps[i], g, k);
      assert(glook(d, g, k) is Some);
      assert(scan(d, g, c) is Some);
      scan_props(d, g, c); gend_bounds(d, g);
      let u = scan(d, g, c)->0;
      first_is(d, g, u);
      assert(starts(d, g) == i);
      assert(tr[u - 1] == (i, c));
    }
  }
  tr
}
pub proof fn finish_rooted(s: DawgBuilder, e: DG)
  requires used(s), core(s), s.ch@ == root_ch(), extends(dgb(s), e), e.len() == dgb(s).len(), e.base[0] == ubase(s.unitPool@[0]), s.unitPool@[0].label == 0xff
  ensures rooted(e)
{
  reveal(used);
  let d = dgb(s);
  ubase_props(s.unitPool@[0]);
  assert(d.len() < MAXLEN) by { assert(pwf(d)); reveal(pwf); }
  assert forall|t: int| #[trigger] start(e, t) implies by_pool(e, t) || e.child(0) == t by {
    start_ext(d, e, t);
    if by_pool(d, t) { let x = choose|x: int| #[trigger] kept(d, x, t); ext_at(d, e, x); assert(kept(e, x, t)); }
    else { let (i, j) = choose|i: int, j: int| #[trigger] holds(s.unitPool@, s.ch@, i, j, t); assert(s.ch@[0][0] == 0); }
  }
}
pub proof fn finish_uniq(d: DG, e: DG)
  requires pwf(d), extends(d, e), e.len() == d.len(), uniq(d)
  ensures uniq(e), starts(e, e.len()) == starts(d, d.len())
{
  reveal(uniq);
  starts_ext(d, e, d.len());
  assert forall|s: int, t: int| start(e, s) && start(e, t) && #[trigger] same(e, s, t) implies s == t by { start_ext(d, e, s); start_ext(d, e, t); same_ext(d, e, s, t); }
}
@end
@also DawgBuilder.Finish
@requires lay(*old(self)), old(self).edges@.len() < BIG()
@ensures minimal(*old(self), *final(dawg)), lay(*final(self))
@at before call fixUnits 1
  proof { act_table(s1); assert(lay(s1)); assert(tight(s1)); assert(blook(s1, Seq::empty()) == blook(s1, Seq::empty())); }
@at exit
  self.edges = Ghost(Seq::empty());
  proof {
    let d = dgb(s2); let e = dgd(*dawg); let a = *old(self);
    finish_rooted(s2, e);
    finish_uniq(d, e);
    assert(finished(a, *dawg));
    let reps = min_rests(a, *dawg);
    let tr = min_outs(a, *dawg, reps);
    let ed = s1.edges@;
    assert(total(s2.ch@) == 0);
    assert(forall|k: Seq<u8>| #[trigger] blook(s1, k) == blook(a, k));
    assert(tree(a, ed));
    assert(rests(a, reps) && outs(a, reps, tr) && tree(a, ed));
  }
@end
@also DawgBuilder.InsertStringValue
@requires lay(*old(self)), old(self).edges@.len() + key@.len() + 1 < BIG()
@ensures lay(*final(self)), final(self).edges@.len() <= old(self).edges@.len() + key@.len() + 1
@end
@also DawgBuilder.InsertString
@requires lay(*old(self)), old(self).edges@.len() + key@.len() + 1 < BIG()
@ensures lay(*final(self)), final(self).edges@.len() <= old(self).edges@.len() + key@.len() + 1
@end
@also NewDawgBuilderWithSize
@ensures lay(r), r.edges@.len() == 0
@end
@also NewDawgBuilder
@ensures lay(r), r.edges@.len() == 0
@end
@fn Dawg.NumOfStates
@ensures r == self.numOfStates
@end
@fn Dawg.NumOfMergedStates
@ensures r == self.numOfMergedStates
@end
@fn Dawg.NumOfMergedTransitions
@ensures r == self.numOfMergedTransitions
@end
@fn Dawg.NumOfTransitions
@ensures r == self.basePool@.len() - 1
@end
