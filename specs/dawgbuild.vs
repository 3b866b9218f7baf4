@raw
// ---------------------------------------------------------------- levels: the units of the last key, and their siblings
pub type LV = Seq<Seq<DawgUnit>>;
pub open spec fn chan(k: Seq<u8>) -> u8 { if k.len() == 0 { 0 } else { k[0] } }
pub open spec fn lscan(l: Seq<DawgUnit>, j: int, c: u8) -> Option<DawgUnit>
  decreases l.len() - j
{ if !(0 <= j < l.len()) { None } else if l[j].label == c { Some(l[j]) } else { lscan(l, j + 1, c) } }
pub open spec fn lfind(d: DG, l: Seq<DawgUnit>, k: Seq<u8>) -> Option<i32> {
  if k.len() > 0 && k[0] == 0 { None }
  else { match lscan(l, 0, chan(k)) { Some(t) => if k.len() == 0 { Some(t.child as i32) } else { glook(d, t.child as int, k.drop_first()) }, None => None } }
}
pub open spec fn ulook(d: DG, lv: LV, k: Seq<u8>) -> Option<i32>
  decreases lv.len()
{
  if lv.len() == 0 { None }
  else if lv.len() > 1 && k.len() > 0 && k[0] == lv[0].last().label { ulook(d, lv.drop_first(), k.drop_first()) }
  else { lfind(d, lv[0], k) }
}
// base value of a unit
pub open spec fn ubase(u: DawgUnit) -> u32 {
  if u.label == 0 { (u.child << 1) | (if u.hasSibling { 1u32 } else { 0 }) }
  else { (u.child << 2) | (if u.isState { 2u32 } else { 0 }) | (if u.hasSibling { 1u32 } else { 0 }) }
}
pub proof fn ubase_props(u: DawgUnit)
  ensures
    bsib(ubase(u)) == u.hasSibling,
    u.label != 0 ==> bst(ubase(u)) == u.isState,
    u.label != 0 && u.child < MAXLEN ==> bchild(ubase(u)) == u.child,
    u.label == 0 && u.child < 0x8000_0000 ==> bval(ubase(u)) == u.child as i32,
{
  let c = u.child; let s = if u.isState { 2u32 } else { 0 }; let h = if u.hasSibling { 1u32 } else { 0 };
  if u.label == 0 {
    assert(((c << 1) | h) & 1 == h) by(bit_vector) requires h == 0 || h == 1;
    if c < 0x8000_0000 { assert(((c << 1) | h) >> 1 == c) by(bit_vector) requires c < 0x8000_0000, h == 0 || h == 1; }
  } else {
    assert(((c << 2) | s | h) & 1 == h) by(bit_vector) requires h == 0 || h == 1, s == 0 || s == 2;
    assert(((c << 2) | s | h) & 2 == s) by(bit_vector) requires h == 0 || h == 1, s == 0 || s == 2;
    if c < MAXLEN { assert(((c << 2) | s | h) >> 2 == c) by(bit_vector) requires c < 0x4000_0000, h == 0 || h == 1, s == 0 || s == 2; }
  }
}
// a unit whose subtree is in the pool
pub open spec fn closed(d: DG, u: DawgUnit) -> bool {
  if u.label == 0 { u.child < 0x8000_0000 } else { start(d, u.child as int) }
}
pub open spec fn asc(l: Seq<DawgUnit>) -> bool { forall|i: int, j: int| #![trigger l[i], l[j]] 0 <= i < j < l.len() ==> l[i].label < l[j].label }
// siblings, in order; `n` of them are closed
pub open spec fn lev_ok(d: DG, l: Seq<DawgUnit>, n: int) -> bool {
  &&& l.len() >= 1
  &&& forall|j: int| 0 <= j < l.len() ==> #[trigger] l[j].isState == (j == 0)
  &&& forall|j: int| 0 <= j < l.len() - 1 ==> #[trigger] l[j].hasSibling
  &&& asc(l)
  &&& forall|j: int| 0 <= j < n ==> closed(d, #[trigger] l[j])
}
pub open spec fn is_group(d: DG, g: int, l: Seq<DawgUnit>) -> bool {
  &&& 0 < g && g + l.len() <= d.len()
  &&& forall|j: int| 0 <= j < l.len() ==> d.base[g + j] == ubase(#[trigger] l[j]) && d.label[g + j] == l[j].label
}
pub proof fn lscan_first(l: Seq<DawgUnit>, j: int, i: int, c: u8)
  requires 0 <= j <= i < l.len(), l[i].label == c, asc(l)
  ensures lscan(l, j, c) == Some(l[i])
  decreases i - j
{ if j < i { assert(l[j].label < l[i].label); lscan_first(l, j + 1, i, c); } }
pub proof fn lscan_in(l: Seq<DawgUnit>, j: int, c: u8)
  requires 0 <= j
  ensures lscan(l, j, c) matches Some(t) ==> exists|i: int| j <= i < l.len() && l[i] == t && t.label == c
  decreases l.len() - j
{ if j < l.len() && l[j].label != c { lscan_in(l, j + 1, c); } }

// a group in the pool that agrees with a level answers the same
pub proof fn group_scan(d: DG, g: int, l: Seq<DawgUnit>, j: int, c: u8)
  requires is_group(d, g, l), 0 <= j < l.len(), forall|x: int| 0 <= x < l.len() ==> #[trigger] l[x].hasSibling == (x + 1 < l.len())
  ensures
    gend(d, g + j) == g + l.len() - 1,
    lscan(l, j, c) is None ==> scan(d, g + j, c) is None,
    lscan(l, j, c) is Some ==> scan(d, g + j, c) is Some && ({ let u = scan(d, g + j, c)->0; g + j <= u < g + l.len() && lscan(l, j, c) == Some(l[u - g]) && d.base[u] == ubase(l[u - g]) && l[u - g].label == c }),
  decreases l.len() - j
{
  ubase_props(l[j]);
  assert(d.base[g + j] == ubase(l[j]) && d.label[g + j] == l[j].label);
  if j + 1 < l.len() { group_scan(d, g, l, j + 1, c); assert(g + j + 1 == g + (j + 1)); }
  if l[j].label == c { let u = g + j; assert(scan(d, u, c) == Some(u)); assert(u - g == j); assert(l[u - g] == l[j]); assert(lscan(l, j, c) == Some(l[j])); }
  else if j + 1 < l.len() { assert(scan(d, g + j, c) == scan(d, g + (j + 1), c)); assert(lscan(l, j, c) == lscan(l, j + 1, c)); }
}
pub proof fn group_look(d: DG, g: int, l: Seq<DawgUnit>, k: Seq<u8>)
  requires is_group(d, g, l), lev_ok(d, l, l.len() as int), !l.last().hasSibling, d.len() < MAXLEN
  ensures glook(d, g, k) == lfind(d, l, k), gend(d, g) == g + l.len() - 1
{
  group_scan(d, g, l, 0, chan(k));
  lscan_in(l, 0, chan(k));
  if lscan(l, 0, chan(k)) is Some {
    let t = lscan(l, 0, chan(k))->0;
    assert(closed(d, t));
    ubase_props(t);
  }
}
// lfind over a longer pool
pub proof fn lfind_ext(d: DG, e: DG, l: Seq<DawgUnit>, n: int, k: Seq<u8>)
  requires pwf(d), extends(d, e), 0 <= n <= l.len(), forall|j: int| 0 <= j < n ==> closed(d, #[trigger] l[j]),
    forall|j: int| n <= j < l.len() ==> (#[trigger] l[j]).label != chan(k)
  ensures lfind(e, l, k) == lfind(d, l, k)
{
  lscan_in(l, 0, chan(k));
  if lscan(l, 0, chan(k)) is Some && k.len() > 0 && k[0] != 0 {
    let t = lscan(l, 0, chan(k))->0;
    let i = choose|i: int| 0 <= i < l.len() && l[i] == t && t.label == chan(k);
    assert(closed(d, l[i]));
    glook_ext(d, e, t.child as int, k.drop_first());
  }
}
// ---- levels: every member but the heads of the inner levels is closed (or empty)
pub open spec fn lev1(d: DG, l: Seq<DawgUnit>, n: int) -> bool { l.len() >= 1 && asc(l) && forall|j: int| 0 <= j < n ==> closed(d, #[trigger] l[j]) }
pub open spec fn lw(d: DG, lv: LV) -> bool {
  &&& forall|i: int| 0 <= i < lv.len() ==> lev1(d, #[trigger] lv[i], lv[i].len() - 1)
  &&& forall|i: int| 0 <= i < lv.len() - 1 ==> (#[trigger] lv[i]).last().label != 0
}
pub proof fn lscan_upd(l: Seq<DawgUnit>, x: DawgUnit, j: int, c: u8)
  requires l.len() > 0, 0 <= j, c != l.last().label, x.label == l.last().label
  ensures lscan(l.update(l.len() - 1, x), j, c) == lscan(l, j, c)
  decreases l.len() - j
{ if j < l.len() { lscan_upd(l, x, j + 1, c); } }
pub proof fn lw_tail(d: DG, lv: LV)
  requires lw(d, lv), lv.len() > 0
  ensures lw(d, lv.drop_first())
{
  let t = lv.drop_first();
  assert forall|i: int| 0 <= i < t.len() implies lev1(d, #[trigger] t[i], t[i].len() - 1) by { assert(t[i] == lv[i + 1]); }
  assert forall|i: int| 0 <= i < t.len() - 1 implies (#[trigger] t[i]).last().label != 0 by { assert(t[i] == lv[i + 1]); }
}
// folding the last level into the pool
pub open spec fn set_child(u: DawgUnit, c: u32) -> DawgUnit { DawgUnit { child: c, ..u } }
pub open spec fn fold1(lv: LV, g: u32) -> LV {
  let p = lv[lv.len() - 2];
  lv.drop_last().update(lv.len() - 2, p.update(p.len() - 1, set_child(p.last(), g)))
}
pub proof fn ulook_fold(d: DG, e: DG, lv: LV, g: u32, k: Seq<u8>)
  requires lw(d, lv), lv.len() >= 2, pwf(d), pwf(e), extends(d, e), is_group(e, g as int, lv.last()), lev_ok(d, lv.last(), lv.last().len() as int), !lv.last().last().hasSibling
  ensures ulook(e, fold1(lv, g), k) == ulook(d, lv, k)
  decreases lv.len()
{
  let f = fold1(lv, g);
  let p = lv[0];
  let c = chan(k);
  if lv.len() == 2 {
    let t = lv[1];
    let p2 = f[0];
    if k.len() > 0 && k[0] == p.last().label {
      let k2 = k.drop_first();
      assert(lv.drop_first().len() == 1 && lv.drop_first()[0] == t);
      assert(ulook(d, lv, k) == lfind(d, t, k2)) by { reveal_with_fuel(ulook, 2); }
      lfind_ext(d, e, t, t.len() as int, k2);
      assert forall|j: int| 0 <= j < t.len() implies closed(e, #[trigger] t[j]) by { closed_ext(d, e, t[j]); }
      reveal(pwf);
      group_look(e, g as int, t, k2);
      assert(asc(p2)) by { assert forall|i: int, j: int| #![trigger p2[i], p2[j]] 0 <= i < j < p2.len() implies p2[i].label < p2[j].label by { assert(p[i].label < p[j].label); } }
      lscan_first(p2, 0, p2.len() - 1, k[0]);
    } else {
      lfind_ext(d, e, p, p.len() - 1, k);
      lscan_upd(p, p2.last(), 0, c);
    }
  } else {
    assert(f.len() == lv.len() - 1 && f[0] == p);
    assert(f.drop_first() =~= fold1(lv.drop_first(), g));
    assert(lv.drop_first().last() == lv.last());
    lw_tail(d, lv);
    if k.len() > 0 && k[0] == p.last().label { ulook_fold(d, e, lv.drop_first(), g, k.drop_first()); }
    else { lfind_ext(d, e, p, p.len() - 1, k); }
  }
}
pub proof fn closed_ext(d: DG, e: DG, u: DawgUnit)
  requires extends(d, e), closed(d, u)
  ensures closed(e, u)
{ if u.label != 0 && u.child > 1 { assert(e.base[u.child - 1] == d.base[u.child - 1]); } }
// same labels and same children where they count
pub open spec fn eqv1(l: Seq<DawgUnit>, m: Seq<DawgUnit>, n: int) -> bool {
  l.len() == m.len() && (forall|j: int| 0 <= j < l.len() ==> (#[trigger] l[j]).label == m[j].label) && (forall|j: int| 0 <= j < n ==> (#[trigger] l[j]).child == m[j].child)
}
pub open spec fn eqv(lv: LV, lw: LV) -> bool {
  lv.len() == lw.len() && forall|i: int| 0 <= i < lv.len() ==> lv[i].len() > 0 && eqv1(#[trigger] lv[i], lw[i], if i < lv.len() - 1 { lv[i].len() - 1 } else { lv[i].len() as int })
}
pub proof fn lscan_eqv(l: Seq<DawgUnit>, m: Seq<DawgUnit>, n: int, j: int, c: u8)
  requires eqv1(l, m, n), 0 <= j, n >= l.len() - 1, n == l.len() || c != l.last().label
  ensures lscan(l, j, c) is Some == lscan(m, j, c) is Some, lscan(l, j, c) is Some ==> (lscan(l, j, c)->0).child == (lscan(m, j, c)->0).child && (lscan(l, j, c)->0).label == (lscan(m, j, c)->0).label
  decreases l.len() - j
{ if j < l.len() { assert(l[j].label == m[j].label); lscan_eqv(l, m, n, j + 1, c); } }
pub proof fn ulook_eqv(d: DG, lv: LV, mv: LV, k: Seq<u8>)
  requires eqv(lv, mv), forall|i: int| 0 <= i < lv.len() - 1 ==> (#[trigger] lv[i]).last().label != 0
  ensures ulook(d, lv, k) == ulook(d, mv, k)
  decreases lv.len()
{
  if lv.len() > 0 {
    assert(eqv1(lv[0], mv[0], if 0 < lv.len() - 1 { lv[0].len() - 1 } else { lv[0].len() as int }));
    assert(lv[0].last().label == mv[0].last().label) by { assert(lv[0][lv[0].len() - 1].label == mv[0][lv[0].len() - 1].label); }
    if lv.len() > 1 && k.len() > 0 && k[0] == lv[0].last().label {
      let a = lv.drop_first(); let b = mv.drop_first();
      assert forall|i: int| 0 <= i < a.len() implies a[i].len() > 0 && eqv1(#[trigger] a[i], b[i], if i < a.len() - 1 { a[i].len() - 1 } else { a[i].len() as int }) by { assert(a[i] == lv[i + 1]); assert(b[i] == mv[i + 1]); }
      assert forall|i: int| 0 <= i < a.len() - 1 implies (#[trigger] a[i]).last().label != 0 by { assert(a[i] == lv[i + 1]); }
      ulook_eqv(d, a, b, k.drop_first());
    } else { lscan_eqv(lv[0], mv[0], if 0 < lv.len() - 1 { lv[0].len() - 1 } else { lv[0].len() as int }, 0, chan(k)); }
  }
}
// a new last sibling that leads nowhere yet
pub open spec fn push_last(lv: LV, x: DawgUnit) -> LV { lv.update(lv.len() - 1, lv.last().push(x)) }
pub proof fn lscan_push(l: Seq<DawgUnit>, x: DawgUnit, j: int, c: u8)
  requires 0 <= j <= l.len()
  ensures lscan(l.push(x), j, c) == (if lscan(l, j, c) is Some { lscan(l, j, c) } else if x.label == c { Some(x) } else { None })
  decreases l.len() - j
{ if j < l.len() { assert(l.push(x)[j] == l[j]); lscan_push(l, x, j + 1, c); } else { reveal_with_fuel(lscan, 2); assert(l.push(x)[j] == x); } }
pub proof fn ulook_push(d: DG, lv: LV, x: DawgUnit, k: Seq<u8>)
  requires lv.len() >= 1, x.label != 0, x.child == 0
  ensures ulook(d, push_last(lv, x), k) == ulook(d, lv, k)
  decreases lv.len()
{
  let p = push_last(lv, x);
  if lv.len() == 1 { lscan_push(lv[0], x, 0, chan(k)); }
  else if k.len() > 0 && k[0] == lv[0].last().label {
    assert(p.drop_first() =~= push_last(lv.drop_first(), x));
    ulook_push(d, lv.drop_first(), x, k.drop_first());
  }
}
// a new level below the last head, which led nowhere so far
pub open spec fn heads(lv: LV) -> Seq<u8> { Seq::new(lv.len(), |i: int| lv[i].last().label) }
pub proof fn ulook_newlevel(d: DG, lv: LV, x: DawgUnit, k: Seq<u8>)
  requires lw(d, lv), lv.len() >= 1, lv.last().last().child == 0, lv.last().last().label != 0, x.child == 0
  ensures ulook(d, lv.push(seq![x]), k) == (if x.label == 0 && k == heads(lv) { Some(0i32) } else { ulook(d, lv, k) })
  decreases lv.len()
{
  let p = lv.push(seq![x]);
  let h = lv[0].last().label;
  let k2 = k.drop_first();
  assert(p.drop_first() =~= lv.drop_first().push(seq![x]));
  assert(heads(lv).drop_first() =~= heads(lv.drop_first()));
  assert(heads(lv)[0] == h);
  if k == heads(lv) { assert(k2 =~= heads(lv.drop_first())); }
  if k.len() > 0 && k[0] == h && k2 == heads(lv.drop_first()) { assert(k =~= seq![h] + k2); assert(heads(lv) =~= seq![h] + heads(lv.drop_first())); }
  if lv.len() == 1 {
    if k.len() > 0 && k[0] == h {
      lscan_first(lv[0], 0, lv[0].len() - 1, h);
      let q = p.drop_first();
      assert(q.len() == 1 && q[0] == seq![x]);
      reveal_with_fuel(ulook, 2); reveal_with_fuel(lscan, 3);
      assert(heads(lv.drop_first()).len() == 0);
      if x.label == 0 && k2.len() == 0 { assert(k2 =~= heads(lv.drop_first())); }
    }
  } else if k.len() > 0 && k[0] == h {
    lw_tail(d, lv);
    ulook_newlevel(d, lv.drop_first(), x, k2);
  }
}
// the value of the last key
pub proof fn ulook_value(d: DG, lv: LV, v: u32, k: Seq<u8>)
  requires lw(d, lv), lv.len() >= 2, lv.last().len() == 1 , lv.last().last().label == 0
  ensures ({ let l = lv.last(); let m = lv.update(lv.len() - 1, l.update(l.len() - 1, set_child(l.last(), v)));
    ulook(d, m, k) == (if k == heads(lv.drop_last()) { Some(v as i32) } else { ulook(d, lv, k) }) })
  decreases lv.len()
{
  let l = lv.last(); let m = lv.update(lv.len() - 1, l.update(l.len() - 1, set_child(l.last(), v)));
  let h = lv[0].last().label;
  let k2 = k.drop_first();
  let hs = heads(lv.drop_last());
  assert(m.drop_first() =~= lv.drop_first().update(lv.len() - 2, l.update(l.len() - 1, set_child(l.last(), v))));
  assert(lv.drop_last().drop_first() =~= lv.drop_first().drop_last());
  assert(hs.drop_first() =~= heads(lv.drop_first().drop_last()));
  assert(hs[0] == h);
  if k == hs { assert(k2 =~= hs.drop_first()); }
  if k.len() > 0 && k[0] == h && k2 == hs.drop_first() { assert(k =~= seq![h] + k2); assert(hs =~= seq![h] + hs.drop_first()); }
  if k.len() > 0 && k[0] == h {
    if lv.len() == 2 {
      reveal_with_fuel(ulook, 2); reveal_with_fuel(lscan, 3);
      assert(hs.drop_first().len() == 0);
      if k2.len() == 0 { assert(k2 =~= hs.drop_first()); }
    } else {
      lw_tail(d, lv);
      assert(lv.drop_first().last() == l);
      ulook_value(d, lv.drop_first(), v, k2);
    }
  }
}

// ---------------------------------------------------------------- the builder's state
pub open spec fn root_ch() -> Seq<Seq<u32>> { seq![seq![0u32]] }
pub open spec fn dgb(db: DawgBuilder) -> DG { DG { base: db.basePool@, label: db.labelPool@ } }
pub open spec fn lvs(us: Seq<DawgUnit>, ch: Seq<Seq<u32>>) -> LV { Seq::new(ch.len(), |i: int| Seq::new(ch[i].len(), |j: int| us[ch[i][j] as int])) }
pub open spec fn lvl(db: DawgBuilder) -> LV { lvs(db.unitPool@, db.ch@) }

// the units of the levels and the free units are all different
pub open spec fn heap(us: Seq<DawgUnit>, un: Seq<u32>, ch: Seq<Seq<u32>>, own: Map<u32, (int, int)>) -> bool {
  &&& forall|i: int, j: int| #![trigger ch[i][j]] 0 <= i < ch.len() && 0 <= j < ch[i].len() ==> ch[i][j] < us.len() && own[ch[i][j]] == (i, j)
  &&& forall|x: int| #![trigger un[x]] 0 <= x < un.len() ==> un[x] < us.len() && own[un[x]] == (-1int, x)
  &&& us.len() < MAXLEN
}
pub open spec fn chain_ok(us: Seq<DawgUnit>, c: Seq<u32>) -> bool {
  &&& c.len() >= 1
  &&& forall|j: int| 0 <= j < c.len() ==> 0 < #[trigger] c[j] < us.len()
  &&& forall|j: int| 0 <= j < c.len() ==> (#[trigger] us[c[j] as int]).sibling == (if j == 0 { 0 } else { c[j - 1] })
}
pub open spec fn wbit(w: u64, i: int) -> bool { (w >> (i as u64)) & 1 == 1 }
pub open spec fn bitat(ws: Seq<u64>, i: int) -> bool { wbit(ws[i / 64], i % 64) }
pub open spec fn bits(p: BitPool) -> Seq<bool> { Seq::new(p.size as nat, |i: int| bitat(p.words@, i)) }
pub open spec fn fp_ok(p: BitPool) -> bool {
  &&& 0 <= p.size <= MAXLEN && p.words@.len() * 64 >= p.size && p.words@.len() * 64 < p.size + 64
  &&& forall|i: int| p.size <= i < p.words@.len() * 64 ==> !#[trigger] bitat(p.words@, i)
}
// number of bits set
pub open spec fn nset(s: Seq<bool>) -> nat
  decreases s.len()
{ if s.len() == 0 { 0 } else { nset(s.drop_last()) + (if s.last() { 1nat } else { 0 }) } }
pub proof fn nset_bound(s: Seq<bool>)
  ensures nset(s) <= s.len()
  decreases s.len()
{ if s.len() > 0 { nset_bound(s.drop_last()); } }
pub proof fn nset_set(s: Seq<bool>, i: int)
  requires 0 <= i < s.len(), !s[i]
  ensures nset(s.update(i, true)) == nset(s) + 1
  decreases s.len()
{
  if i < s.len() - 1 { nset_set(s.drop_last(), i); assert(s.update(i, true).drop_last() =~= s.drop_last().update(i, true)); }
  else { assert(s.update(i, true).drop_last() =~= s.drop_last()); }
}
pub proof fn nset_pos(s: Seq<bool>, i: int)
  requires 0 <= i < s.len(), s[i]
  ensures nset(s) > 0
  decreases s.len()
{ if i < s.len() - 1 { assert(s.drop_last()[i]); nset_pos(s.drop_last(), i); } }
pub proof fn bits_push(p: BitPool, q: BitPool)
  requires fp_ok(p), fp_ok(q), q.size == p.size + 1, forall|i: int| 0 <= i < p.size ==> #[trigger] bitat(q.words@, i) == bitat(p.words@, i), !bitat(q.words@, p.size as int)
  ensures bits(q) == bits(p).push(false), nset(bits(q)) == nset(bits(p))
{
  assert(bits(q) =~= bits(p).push(false));
  assert(bits(p).push(false).drop_last() =~= bits(p));
}
pub proof fn wbit_lemmas(w: u64, j: u64)
  requires j < 64
  ensures
    ((w & (1u64 << j)) != 0) == wbit(w, j as int), wbit(w | (1u64 << j), j as int), !wbit(w & !(1u64 << j), j as int),
    forall|i: int| 0 <= i < 64 && i != j ==> #[trigger] wbit(w | (1u64 << j), i) == wbit(w, i),
    forall|i: int| 0 <= i < 64 && i != j ==> #[trigger] wbit(w & !(1u64 << j), i) == wbit(w, i),
{
  assert(((w & (1u64 << j)) != 0) == ((w >> j) & 1 == 1)) by(bit_vector) requires j < 64;
  assert(((w | (1u64 << j)) >> j) & 1 == 1) by(bit_vector) requires j < 64;
  assert(((w & !(1u64 << j)) >> j) & 1 == 0) by(bit_vector) requires j < 64;
  assert forall|i: int| 0 <= i < 64 && i != j implies #[trigger] wbit(w | (1u64 << j), i) == wbit(w, i) by {
    let k = i as u64;
    assert(((w | (1u64 << j)) >> k) & 1 == (w >> k) & 1) by(bit_vector) requires j < 64, k < 64, k != j;
  }
  assert forall|i: int| 0 <= i < 64 && i != j implies #[trigger] wbit(w & !(1u64 << j), i) == wbit(w, i) by {
    let k = i as u64;
    assert(((w & !(1u64 << j)) >> k) & 1 == (w >> k) & 1) by(bit_vector) requires j < 64, k < 64, k != j;
  }
}
pub proof fn bits_set(p: BitPool, q: BitPool, j: int, b: bool)
  requires fp_ok(p), 0 <= j < p.size, q.size == p.size, q.words@ == p.words@.update(j / 64, q.words@[j / 64]), wbit(q.words@[j / 64], j % 64) == b,
    forall|i: int| 0 <= i < 64 && i != j % 64 ==> #[trigger] wbit(q.words@[j / 64], i) == wbit(p.words@[j / 64], i)
  ensures fp_ok(q), bits(q) == bits(p).update(j, b)
{
  assert forall|i: int| 0 <= i < p.words@.len() * 64 && i != j implies #[trigger] bitat(q.words@, i) == bitat(p.words@, i) by { if i / 64 == j / 64 { assert(i % 64 != j % 64); } }
  assert(bits(q) =~= bits(p).update(j, b));
  assert forall|i: int| q.size <= i < q.words@.len() * 64 implies !#[trigger] bitat(q.words@, i) by { assert(!bitat(p.words@, i)); }
}
pub proof fn zbit(i: int)
  requires 0 <= i < 64
  ensures !wbit(0u64, i)
{ let k = i as u64; assert((0u64 >> k) & 1 == 0) by(bit_vector) requires k < 64; }

pub proof fn shl1()
  ensures forall|n: i64| 0 <= n < 0x4000_0000 ==> #[trigger] (n << 1) == 2 * n, forall|n: i64| 0 <= n < 0x4000_0000 ==> #[trigger] (n >> 2) == n / 4
{
  assert(forall|n: i64| 0 <= n < 0x4000_0000 ==> #[trigger] (n << 1) == 2 * n) by(bit_vector);
  assert(forall|n: i64| 0 <= n < 0x4000_0000 ==> #[trigger] (n >> 2) == n / 4) by(bit_vector);
}
// number of used slots, number of groups
pub open spec fn nz(t: Seq<u32>) -> nat
  decreases t.len()
{ if t.len() == 0 { 0 } else { nz(t.drop_last()) + (if t.last() != 0 { 1nat } else { 0 }) } }
pub open spec fn starts(d: DG, n: int) -> int
  decreases n
{ if n <= 1 { 0 } else { starts(d, n - 1) + (if start(d, n - 1) { 1int } else { 0 }) } }
pub open spec fn hash_ok(d: DG, t: Seq<u32>, ns: int) -> bool {
  &&& t.len() > 0
  &&& forall|x: int| 0 <= x < t.len() ==> #[trigger] t[x] == 0 || start(d, t[x] as int)
  &&& nz(t) <= ns - 1
  &&& ns == starts(d, d.len()) + 1
  &&& ns <= t.len() - t.len() / 4
}
pub proof fn nz_slot(t: Seq<u32>)
  requires nz(t) < t.len()
  ensures exists|e: int| 0 <= e < t.len() && t[e] == 0
  decreases t.len()
{
  if t.last() == 0 { assert(t[t.len() - 1] == 0); }
  else { nz_slot(t.drop_last()); let e = choose|e: int| 0 <= e < t.len() - 1 && t.drop_last()[e] == 0; assert(t[e] == 0); }
}
pub proof fn nz_update(t: Seq<u32>, i: int, v: u32)
  requires 0 <= i < t.len()
  ensures nz(t.update(i, v)) <= nz(t) + 1
  decreases t.len()
{
  if i < t.len() - 1 { nz_update(t.drop_last(), i, v); assert(t.update(i, v).drop_last() =~= t.drop_last().update(i, v)); }
  else { assert(t.update(i, v).drop_last() =~= t.drop_last()); }
}
pub proof fn nz_zero(t: Seq<u32>)
  requires forall|i: int| 0 <= i < t.len() ==> t[i] == 0
  ensures nz(t) == 0
  decreases t.len()
{ if t.len() > 0 { nz_zero(t.drop_last()); } }
pub proof fn starts_ext(d: DG, e: DG, n: int)
  requires extends(d, e), n <= d.len()
  ensures starts(e, n) == starts(d, n)
  decreases n
{ if n > 1 { starts_ext(d, e, n - 1); if n > 2 { assert(e.base[n - 2] == d.base[n - 2]); } } }
pub proof fn starts_bound(d: DG, n: int)
  ensures 0 <= starts(d, n), n >= 1 ==> starts(d, n) <= n - 1
  decreases n
{ if n > 1 { starts_bound(d, n - 1); } }
pub proof fn starts_more(d: DG, g: int, n: int)
  requires 0 < g <= n <= d.len(), forall|t: int| g < t < n ==> !start(d, t), g < n ==> start(d, g)
  ensures starts(d, n) == starts(d, g) + (if g < n { 1int } else { 0 })
  decreases n - g
{ if g < n { starts_more(d, g, n - 1); } }
// distance to a slot, walking up and around
pub open spec fn dist(h: int, e: int, n: int) -> int { if h <= e { e - h } else { n - h + e } }
pub proof fn probe_step(h: u32, e: int, n: int)
  requires 0 <= h < n < MAXLEN, 0 <= e < n, h != e
  ensures 0 <= dist((h + 1) % n, e, n) < dist(h as int, e, n), 0 <= (h + 1) % n < n, (h + 1) % n == (if h + 1 == n { 0int } else { h + 1 })
{ if h + 1 == n { assert((h + 1) % n == 0) by(nonlinear_arith) requires h + 1 == n, n > 0; } else { assert((h + 1) % n == h + 1) by(nonlinear_arith) requires 0 <= h + 1 < n; } }

pub proof fn starts_mono(d: DG, m: int, n: int)
  requires m <= n
  ensures starts(d, m) <= starts(d, n)
  decreases n - m
{ if m < n { starts_mono(d, m, n - 1); } }
pub open spec fn topc(db: DawgBuilder, u: u32) -> bool { db.ch@.len() >= 2 && chain_ok(db.unitPool@, db.ch@.last()) && db.ch@.last().last() == u }
// ---- changes of one unit
pub proof fn lvs_upd(us: Seq<DawgUnit>, un: Seq<u32>, ch: Seq<Seq<u32>>, own: Map<u32, (int, int)>, i: int, j: int, x: DawgUnit)
  requires heap(us, un, ch, own), 0 <= i < ch.len(), 0 <= j < ch[i].len()
  ensures lvs(us.update(ch[i][j] as int, x), ch) == lvs(us, ch).update(i, lvs(us, ch)[i].update(j, x))
{
  let u = ch[i][j];
  let a = lvs(us.update(u as int, x), ch);
  let b = lvs(us, ch).update(i, lvs(us, ch)[i].update(j, x));
  assert forall|p: int| 0 <= p < a.len() implies #[trigger] a[p] =~= b[p] by {
    assert forall|q: int| 0 <= q < a[p].len() implies #[trigger] a[p][q] == b[p][q] by {
      assert(own[ch[p][q]] == (p, q)); assert(own[u] == (i, j));
    }
  }
  assert(a =~= b);
}
// a unit that is in no level
pub proof fn lvs_other(us: Seq<DawgUnit>, vs: Seq<DawgUnit>, ch: Seq<Seq<u32>>)
  requires forall|i: int, j: int| #![trigger ch[i][j]] 0 <= i < ch.len() && 0 <= j < ch[i].len() ==> us[ch[i][j] as int] == vs[ch[i][j] as int]
  ensures lvs(us, ch) == lvs(vs, ch)
{
  let a = lvs(us, ch); let b = lvs(vs, ch);
  assert forall|p: int| 0 <= p < a.len() implies #[trigger] a[p] =~= b[p] by { assert forall|q: int| 0 <= q < a[p].len() implies #[trigger] a[p][q] == b[p][q] by { let z = ch[p][q]; } }
  assert(a =~= b);
}
pub proof fn chain_upd(us: Seq<DawgUnit>, c: Seq<u32>, u: int, x: DawgUnit)
  requires chain_ok(us, c), 0 <= u < us.len(), x.sibling == us[u].sibling
  ensures chain_ok(us.update(u, x), c)
{
  let vs = us.update(u, x);
  assert forall|j: int| 0 <= j < c.len() implies (#[trigger] vs[c[j] as int]).sibling == (if j == 0 { 0 } else { c[j - 1] }) by { assert(us[c[j] as int].sibling == (if j == 0 { 0 } else { c[j - 1] })); }
}

pub open spec fn flags_off(lv: LV, p: int) -> bool { forall|i: int| p < i < lv.len() ==> !(#[trigger] lv[i]).last().hasSibling }
pub open spec fn levels_ok(d: DG, lv: LV) -> bool {
  &&& lv.len() >= 1 && lv[0].len() == 1 && lv[0][0].label == 0xff && !lv[0][0].isState
  &&& forall|i: int| 1 <= i < lv.len() ==> lev_ok(d, #[trigger] lv[i], lv[i].len() - 1)
  &&& forall|i: int| 0 <= i < lv.len() - 1 ==> (#[trigger] lv[i]).last().label != 0
}
// the top of the stack is complete
pub open spec fn top_closed(d: DG, lv: LV) -> bool {
  if lv.len() == 1 { if d.len() == 1 { lv[0][0].child == 0 } else { start(d, lv[0][0].child as int) } } else { closed(d, lv.last().last()) }
}
pub open spec fn core(db: DawgBuilder) -> bool {
  &&& pwf(dgb(db)) && fp_ok(db.flagPool) && db.flagPool.size == db.basePool@.len() && db.numOfMergingStates == nset(bits(db.flagPool))
  &&& heap(db.unitPool@, db.unusedUnits@, db.ch@, db.own@)
  &&& db.ch@.len() >= 1 && db.ch@[0] == seq![0u32]
  &&& forall|i: int| 1 <= i < db.ch@.len() ==> chain_ok(db.unitPool@, #[trigger] db.ch@[i])
  &&& db.unitPool@[0].sibling == 0
  &&& hash_ok(dgb(db), db.hashTable@, db.numOfStates as int)
  &&& levels_ok(dgb(db), lvl(db))
}
pub open spec fn stk(db: DawgBuilder, n: int) -> bool { db.unfixedUnits@.len() == n && forall|i: int| 0 <= i < n ==> #[trigger] db.unfixedUnits@[i] == db.ch@[i].last() }
pub open spec fn inner(db: DawgBuilder) -> bool { forall|i: int| 0 <= i < db.ch@.len() - 1 ==> db.unitPool@[(#[trigger] db.ch@[i]).last() as int].child == db.ch@[i + 1].last() }
// between calls
pub open spec fn fresh(db: DawgBuilder) -> bool {
  &&& db.initialHashTableSize > 0 && db.basePool@.len() == 0 && db.labelPool@.len() == 0 && db.flagPool.words@.len() == 0 && db.flagPool.size == 0
  &&& db.unitPool@.len() == 0 && db.hashTable@.len() == 0 && db.unfixedUnits@.len() == 0 && db.unusedUnits@.len() == 0
  &&& db.numOfStates == 1 && db.numOfMergedTransitions == 0 && db.numOfMergingStates == 0 && db.ch@.len() == 0
}
pub open spec fn active(db: DawgBuilder) -> bool {
  &&& core(db) && stk(db, db.ch@.len() as int) && inner(db) && flags_off(lvl(db), -1) && db.initialHashTableSize > 0
  &&& if db.ch@.len() == 1 { dgb(db).len() == 1 && lvl(db)[0][0].child == 0 } else { lvl(db).last().last().label == 0 && lvl(db).last().last().child < 0x8000_0000 }
}
pub open spec fn bwf(db: DawgBuilder) -> bool { if db.hashTable@.len() == 0 { fresh(db) } else { active(db) } }
// the content: what is stored for a key, and the last key
pub open spec fn blook(db: DawgBuilder, k: Seq<u8>) -> Option<i32> { if db.ch@.len() == 0 { None } else { ulook(dgb(db), lvl(db), seq![0xffu8] + k) } }
pub open spec fn blast(db: DawgBuilder) -> Option<Seq<u8>> { if db.ch@.len() <= 1 { None } else { Some(heads(lvl(db)).subrange(1, lvl(db).len() - 1)) } }

// a new group at the end of the pool
pub proof fn ext_at(d: DG, e: DG, t: int)
  requires extends(d, e), 0 < t < d.len()
  ensures e.base[t] == d.base[t], e.label[t] == d.label[t]
{}
pub proof fn ext_old(d: DG, e: DG, t: int)
  requires pwf(d), extends(d, e), 0 < t < d.len()
  ensures sib_ok(e, t), child_ok(e, t), st_ok(e, t)
{
  pwf_at(d, t);
  ext_at(d, e, t);
  if d.sib(t) { ext_at(d, e, t + 1); }
  if t > 1 { ext_at(d, e, t - 1); }
  if d.label[t] != 0 { let c = d.child(t); gend_bounds(d, c); scan_ext(d, e, c, 0); if c > 1 { ext_at(d, e, c - 1); } }
}
pub proof fn ext_new(d: DG, e: DG, l: Seq<DawgUnit>, j: int)
  requires pwf(d), lev_ok(d, l, l.len() as int), !l.last().hasSibling, e.len() == d.len() + l.len(), e.len() < MAXLEN, extends(d, e), is_group(e, d.len(), l), 0 <= j < l.len(), d.len() == 1 || !e.sib(d.len() - 1)
  ensures sib_ok(e, d.len() + j), child_ok(e, d.len() + j), st_ok(e, d.len() + j), start(e, d.len() + j) == (j == 0)
{
  let g = d.len();
  ubase_props(l[j]);
  assert(e.base[g + j] == ubase(l[j]) && e.label[g + j] == l[j].label);
  if j + 1 < l.len() { assert(e.label[g + (j + 1)] == l[j + 1].label); assert(l[j].label < l[j + 1].label); }
  if j > 0 { ubase_props(l[j - 1]); assert(e.base[g + (j - 1)] == ubase(l[j - 1])); assert(l[j - 1].hasSibling); }
  assert(closed(d, l[j]));
  closed_ext(d, e, l[j]);
  assert(l[j].isState == (j == 0));
  if l[j].label != 0 { let c = l[j].child as int; gend_bounds(d, c); scan_ext(d, e, c, 0); }
}
pub proof fn alloc_group(d: DG, e: DG, l: Seq<DawgUnit>)
  requires pwf(d), lev_ok(d, l, l.len() as int), !l.last().hasSibling, e.len() == d.len() + l.len(), e.len() < MAXLEN, extends(d, e), is_group(e, d.len(), l)
  ensures pwf(e), start(e, d.len()), starts(e, e.len()) == starts(d, d.len()) + 1
{
  let g = d.len();
  assert(g >= 1) by { reveal(pwf); }
  if g > 1 { pwf_at(d, g - 1); ext_at(d, e, g - 1); }
  assert forall|t: int| 0 < t < e.len() implies #[trigger] sib_ok(e, t) && child_ok(e, t) && st_ok(e, t) && (t >= g ==> start(e, t) == (t == g)) by {
    if t < g { ext_old(d, e, t); } else { ext_new(d, e, l, t - g); }
  }
  assert(sib_ok(e, g));
  assert(pwf(e)) by {
    reveal(pwf);
    assert forall|t: int| 0 < t < e.len() implies #[trigger] child_ok(e, t) by { assert(sib_ok(e, t)); }
    assert forall|t: int| 0 < t < e.len() implies #[trigger] st_ok(e, t) by { assert(sib_ok(e, t)); }
  }
  assert forall|t: int| g < t < e.len() implies !start(e, t) by { assert(sib_ok(e, t)); }
  starts_more(e, g, e.len());
  starts_ext(d, e, g);
}
pub proof fn asc_len(l: Seq<DawgUnit>, j: int)
  requires asc(l), 0 <= j < l.len()
  ensures l[j].label >= j
  decreases j
{ if j > 0 { asc_len(l, j - 1); } }
pub proof fn levels_lw(d: DG, lv: LV)
  requires levels_ok(d, lv)
  ensures lw(d, lv)
{ assert forall|i: int| 0 <= i < lv.len() implies lev1(d, #[trigger] lv[i], lv[i].len() - 1) by { if i >= 1 { assert(lev_ok(d, lv[i], lv[i].len() - 1)); } } }
pub proof fn levels_fold(d: DG, e: DG, lv: LV, g: u32, p: int)
  requires levels_ok(d, lv), lv.len() >= 2, extends(d, e), start(e, g as int), flags_off(lv, p), p >= -1
  ensures levels_ok(e, fold1(lv, g)), top_closed(e, fold1(lv, g)), flags_off(fold1(lv, g), p)
{
  let f = fold1(lv, g);
  let q = lv.len() - 2;
  assert forall|i: int| 0 <= i < f.len() implies (i >= 1 ==> lev_ok(e, #[trigger] f[i], f[i].len() - 1)) && f[i].last().label == lv[i].last().label && f[i].last().hasSibling == lv[i].last().hasSibling && f[i].len() == lv[i].len() && f[i].len() > 0 by {
    if i >= 1 {
      assert(lev_ok(d, lv[i], lv[i].len() - 1));
      assert forall|j: int| 0 <= j < f[i].len() - 1 implies closed(e, #[trigger] f[i][j]) by { assert(f[i][j] == lv[i][j]); closed_ext(d, e, lv[i][j]); }
      assert forall|x: int, y: int| #![trigger f[i][x], f[i][y]] 0 <= x < y < f[i].len() implies f[i][x].label < f[i][y].label by { assert(lv[i][x].label < lv[i][y].label); }
      assert forall|j: int| 0 <= j < f[i].len() implies #[trigger] f[i][j].isState == (j == 0) by { assert(lv[i][j].isState == (j == 0)); }
      assert forall|j: int| 0 <= j < f[i].len() - 1 implies #[trigger] f[i][j].hasSibling by { assert(lv[i][j].hasSibling); }
    }
  }
  assert forall|i: int| 0 <= i < f.len() - 1 implies (#[trigger] f[i]).last().label != 0 by { assert(lv[i].last().label != 0); }
  assert forall|i: int| p < i < f.len() implies !(#[trigger] f[i]).last().hasSibling by { assert(!lv[i].last().hasSibling); if i == q { assert(f[q].last() == set_child(lv[q].last(), g)); } else { assert(f[i] == lv[i]); } }
  assert(lv[q].last().label != 0);
}

pub open spec fn ready(db: DawgBuilder) -> bool { core(db) && stk(db, db.ch@.len() as int) && inner(db) && top_closed(dgb(db), lvl(db)) }
pub open spec fn fixat(db: DawgBuilder, index: u32) -> bool { let p = db.own@[index].0; 0 <= p < db.ch@.len() && db.ch@[p].last() == index && flags_off(lvl(db), p) }
pub open spec fn same_but(l: Seq<DawgUnit>, m: Seq<DawgUnit>) -> bool { l.len() == m.len() && l.len() > 0 && l =~= m.update(m.len() - 1, set_child(m.last(), l.last().child)) }
pub open spec fn fixed(a: DawgBuilder, b: DawgBuilder, p: int) -> bool {
  &&& core(b) && stk(b, p) && inner(b) && top_closed(dgb(b), lvl(b)) && b.initialHashTableSize == a.initialHashTableSize
  &&& b.ch@.len() == p + 1 && b.ch@ == a.ch@.subrange(0, p + 1)
  &&& forall|i: int| 0 <= i < p ==> #[trigger] lvl(b)[i] == lvl(a)[i]
  &&& same_but(lvl(b)[p], lvl(a)[p])
}

// one level folded
pub open spec fn folded(s0: DawgBuilder, s: DawgBuilder, g: u32) -> bool {
  let m = s0.ch@.len() as int; let e = dgb(s); let us = s0.unitPool@; let u = s0.ch@[m - 2].last();
  &&& m >= 2
  &&& extends(dgb(s0), e) && pwf(e) && start(e, g as int) && is_group(e, g as int, lvl(s0).last()) && hash_ok(e, s.hashTable@, s.numOfStates as int)
  &&& fp_ok(s.flagPool) && s.flagPool.size == s.basePool@.len() && s.numOfMergingStates == nset(bits(s.flagPool))
  &&& s.ch@ == s0.ch@.drop_last() && heap(us, s.unusedUnits@, s.ch@, s.own@)
  &&& s.unitPool@ == us.update(u as int, set_child(us[u as int], g)) && s.unfixedUnits@ == s0.unfixedUnits@.drop_last()
}
pub proof fn fix_step(s0: DawgBuilder, s: DawgBuilder, g: u32, p: int)
  requires ready(s0), flags_off(lvl(s0), p), 0 <= p < s0.ch@.len() - 1, folded(s0, s, g)
  ensures ready(s), flags_off(lvl(s), p), lvl(s) == fold1(lvl(s0), g), forall|k: Seq<u8>| #[trigger] ulook(dgb(s), lvl(s), k) == ulook(dgb(s0), lvl(s0), k)
{
  let m = s0.ch@.len() as int; let e = dgb(s); let d = dgb(s0); let us = s0.unitPool@; let lv = lvl(s0); let l = lv.last();
  let q = s.ch@;
  let u = q[m - 2].last();
  let x = set_child(lv[m - 2].last(), g);
  assert(lev_ok(d, lv[m - 1], lv[m - 1].len() - 1));
  assert(!lv[m - 1].last().hasSibling);
  assert(lvs(us, q) =~= lv.drop_last()) by { assert forall|x: int| 0 <= x < q.len() implies #[trigger] lvs(us, q)[x] =~= lv[x] by {} }
  assert(m == 2 || chain_ok(us, s0.ch@[m - 2]));
  lvs_upd(us, s.unusedUnits@, q, s.own@, m - 2, q[m - 2].len() - 1, x);
  assert(lv[m - 2].last() == us[u as int]);
  assert(lvl(s) =~= fold1(lv, g));
  levels_lw(d, lv);
  levels_fold(d, e, lv, g, p);
  assert forall|k: Seq<u8>| #[trigger] ulook(dgb(s), lvl(s), k) == ulook(d, lv, k) by { ulook_fold(d, e, lv, g, k); }
  assert forall|i: int| 1 <= i < q.len() implies chain_ok(s.unitPool@, #[trigger] q[i]) by { assert(q[i] == s0.ch@[i]); chain_upd(us, q[i], u as int, x); }
  assert(us[u as int].sibling == x.sibling);
  assert(heap(s.unitPool@, s.unusedUnits@, s.ch@, s.own@));
  assert(core(s));
  assert forall|i: int| 0 <= i < q.len() implies s.unfixedUnits@[i] == (#[trigger] q[i]).last() by { assert(q[i] == s0.ch@[i]); assert(s0.unfixedUnits@[i] == s0.ch@[i].last()); }
  assert forall|i: int| 0 <= i < q.len() - 1 implies s.unitPool@[(#[trigger] q[i]).last() as int].child == q[i + 1].last() by {
    assert(q[i] == s0.ch@[i] && q[i + 1] == s0.ch@[i + 1]);
    assert(i >= 1 ==> chain_ok(us, s0.ch@[i]));
    assert(q[i][q[i].len() - 1] == q[i].last());
    assert(q[m - 2][q[m - 2].len() - 1] == q[m - 2].last());
    assert(s.own@[q[i].last()] == (i, q[i].len() - 1)); assert(s.own@[u] == (m - 2, q[m - 2].len() - 1));
  }
}

// ---- the steps of an insertion
// units put into use
pub open spec fn taken(s0: DawgBuilder, s: DawgBuilder, x: u32, y: DawgUnit, par: u32) -> bool {
  &&& s == (DawgBuilder { unitPool: s.unitPool, unusedUnits: s.unusedUnits, unfixedUnits: s.unfixedUnits, ch: s.ch, own: s.own, ..s0 })
  &&& if s0.unusedUnits@.len() == 0 { x == s0.unitPool@.len() && s.unusedUnits@ == s0.unusedUnits@ } else { x == s0.unusedUnits@.last() && s.unusedUnits@ == s0.unusedUnits@.drop_last() }
  &&& x < s.unitPool@.len() && s0.unitPool@.len() <= s.unitPool@.len() < MAXLEN
  &&& s.unitPool@[x as int] == y && s.unitPool@[par as int] == set_child(s0.unitPool@[par as int], x)
  &&& forall|u: int| 0 <= u < s0.unitPool@.len() && u != x && u != par ==> #[trigger] s.unitPool@[u] == s0.unitPool@[u]
  &&& s.unfixedUnits@ == s0.unfixedUnits@.push(x)
}
pub proof fn taken_new(s0: DawgBuilder, s: DawgBuilder, x: u32, y: DawgUnit, par: u32)
  requires core(s0), taken(s0, s, x, y, par)
  ensures x != 0, forall|i: int, j: int| #![trigger s0.ch@[i][j]] 0 <= i < s0.ch@.len() && 0 <= j < s0.ch@[i].len() ==> s0.ch@[i][j] != x
{
  assert(s0.ch@[0][0] == 0);
  assert(s0.own@[0u32] == (0int, 0int));
  let un = s0.unusedUnits@;
  if un.len() > 0 { assert(un[un.len() - 1] == x); assert(s0.own@[x] == (-1int, un.len() - 1)); }
}
pub proof fn taken_heap(s0: DawgBuilder, s: DawgBuilder, x: u32, y: DawgUnit, par: u32, i: int, j: int)
  requires core(s0), taken(s0, s, x, y, par), s.own@ == s0.own@.insert(x, (i, j)), 0 <= i,
    (i == s0.ch@.len() && j == 0 && s.ch@ == s0.ch@.push(seq![x])) || (i == s0.ch@.len() - 1 && j == s0.ch@[i].len() && s.ch@ == s0.ch@.update(i, s0.ch@[i].push(x)))
  ensures heap(s.unitPool@, s.unusedUnits@, s.ch@, s.own@), s.ch@[0] == seq![0u32] || i == 0
{
  taken_new(s0, s, x, y, par);
  let q = s.ch@;
  assert forall|a: int, b: int| #![trigger q[a][b]] 0 <= a < q.len() && 0 <= b < q[a].len() implies q[a][b] < s.unitPool@.len() && s.own@[q[a][b]] == (a, b) by {
    if a == i && b == j { assert(q[a][b] == x); } else { assert(q[a][b] == s0.ch@[a][b]); assert(s0.ch@[a][b] != x); }
  }
  let un = s.unusedUnits@;
  assert forall|a: int| #![trigger un[a]] 0 <= a < un.len() implies un[a] < s.unitPool@.len() && s.own@[un[a]] == (-1int, a) by {
    assert(un[a] == s0.unusedUnits@[a]); assert(s0.own@[un[a]] == (-1int, a));
    let z = s0.unusedUnits@; assert(s0.own@[z[z.len() - 1]] == (-1int, z.len() - 1));
  }
}
pub open spec fn hd(l: Seq<DawgUnit>, x: DawgUnit) -> Seq<DawgUnit> { l.update(l.len() - 1, x) }
pub proof fn step_flag(s0: DawgBuilder, s: DawgBuilder, p: int)
  requires ready(s0), 1 <= p < s0.ch@.len(), s == (DawgBuilder { unitPool: s.unitPool, ..s0 }),
    ({ let u = s0.ch@[p].last() as int; s.unitPool@ == s0.unitPool@.update(u, DawgUnit { hasSibling: true, ..s0.unitPool@[u] }) })
  ensures ready(s), flags_off(lvl(s0), -1) ==> flags_off(lvl(s), p), lvl(s) == lvl(s0).update(p, hd(lvl(s0)[p], DawgUnit { hasSibling: true, ..lvl(s0)[p].last() })),
    forall|k: Seq<u8>| #[trigger] ulook(dgb(s), lvl(s), k) == ulook(dgb(s0), lvl(s0), k)
{
  let u = s0.ch@[p].last(); let us = s0.unitPool@; let lv = lvl(s0); let f = lvl(s); let d = dgb(s0);
  let x = DawgUnit { hasSibling: true, ..us[u as int] };
  assert(chain_ok(us, s0.ch@[p]));
  lvs_upd(us, s0.unusedUnits@, s0.ch@, s0.own@, p, s0.ch@[p].len() - 1, x);
  assert(lv[p].last() == us[u as int]);
  assert(lev_ok(d, lv[p], lv[p].len() - 1));
  assert forall|i: int| 1 <= i < f.len() implies lev_ok(d, #[trigger] f[i], f[i].len() - 1) by {
    assert(lev_ok(d, lv[i], lv[i].len() - 1));
    if i == p {
      assert(f[p] == hd(lv[p], x));
      assert forall|a: int, b: int| #![trigger f[i][a], f[i][b]] 0 <= a < b < f[i].len() implies f[i][a].label < f[i][b].label by { assert(lv[i][a].label < lv[i][b].label); }
    }
  }
  assert forall|i: int| 0 <= i < f.len() - 1 implies (#[trigger] f[i]).last().label != 0 by { assert(lv[i].last().label != 0); }
  assert forall|i: int| 1 <= i < s.ch@.len() implies chain_ok(s.unitPool@, #[trigger] s.ch@[i]) by { assert(chain_ok(us, s0.ch@[i])); chain_upd(us, s0.ch@[i], u as int, x); }
  assert(heap(s.unitPool@, s.unusedUnits@, s.ch@, s.own@));
  assert(core(s));
  assert forall|i: int| 0 <= i < s.ch@.len() - 1 implies s.unitPool@[(#[trigger] s.ch@[i]).last() as int].child == s.ch@[i + 1].last() by { assert(us[s0.ch@[i].last() as int].child == s0.ch@[i + 1].last()); }
  assert forall|k: Seq<u8>| #[trigger] ulook(dgb(s), lvl(s), k) == ulook(d, lv, k) by {
    assert forall|i: int| 0 <= i < f.len() implies f[i].len() > 0 && eqv1(#[trigger] f[i], lv[i], if i < f.len() - 1 { f[i].len() - 1 } else { f[i].len() as int }) by { if i >= 1 { assert(lev_ok(d, lv[i], lv[i].len() - 1)); } }
    ulook_eqv(d, f, lv, k);
  }
}
// the unit index of the key below which the next unit goes
pub open spec fn pend(db: DawgBuilder, q: int) -> bool {
  let lv = lvl(db);
  &&& core(db) && inner(db) && q >= 0 && db.ch@.len() == q + 2 && stk(db, q + 1) && top_closed(dgb(db), lv)
  &&& lv[q + 1].last().hasSibling && forall|i: int| 0 <= i <= q ==> !(#[trigger] lv[i]).last().hasSibling
}
pub open spec fn opened(db: DawgBuilder, q: int) -> bool {
  &&& core(db) && inner(db) && db.ch@.len() == q + 1 && stk(db, q + 1) && flags_off(lvl(db), -1) && db.unitPool@[db.ch@[q].last() as int].child == 0
}
pub proof fn step_sib(s0: DawgBuilder, s: DawgBuilder, x: u32, y: DawgUnit, q: int)
  requires pend(s0, q), taken(s0, s, x, y, s0.ch@[q].last()), s.ch@ == s0.ch@.update(q + 1, s0.ch@[q + 1].push(x)), s.own@ == s0.own@.insert(x, (q + 1, s0.ch@[q + 1].len() as int)),
    y.child == 0, y.sibling == s0.ch@[q + 1].last(), !y.isState, !y.hasSibling, lvl(s0)[q + 1].last().label < y.label
  ensures opened(s, q + 1), heads(lvl(s)) == heads(lvl(s0)).update(q + 1, y.label), forall|k: Seq<u8>| #[trigger] ulook(dgb(s), lvl(s), k) == ulook(dgb(s0), lvl(s0), k)
{
  let lv = lvl(s0); let f = lvl(s); let d = dgb(s0); let us = s0.unitPool@; let vs = s.unitPool@; let p = q + 1; let c = s0.ch@[p];
  let par = s0.ch@[q].last();
  taken_new(s0, s, x, y, par);
  taken_heap(s0, s, x, y, par, p, c.len() as int);
  assert(chain_ok(us, c));
  assert(q == 0 || chain_ok(us, s0.ch@[q]));
  assert(s0.ch@[q][s0.ch@[q].len() - 1] == par);
  assert(s0.own@[par] == (q, s0.ch@[q].len() - 1));
  assert(lev_ok(d, lv[p], lv[p].len() - 1));
  assert(closed(d, lv[p].last()));
  // the levels
  assert(f.len() == lv.len());
  assert forall|i: int| 0 <= i < q implies #[trigger] f[i] == lv[i] by {
    assert forall|j: int| 0 <= j < f[i].len() implies f[i][j] == lv[i][j] by { let z = s0.ch@[i][j]; assert(s0.own@[z] == (i, j)); assert(vs[z as int] == us[z as int]); }
    assert(f[i] =~= lv[i]);
  }
  assert(f[q] =~= hd(lv[q], set_child(lv[q].last(), x))) by {
    assert forall|j: int| 0 <= j < f[q].len() - 1 implies f[q][j] == lv[q][j] by { let z = s0.ch@[q][j]; assert(s0.own@[z] == (q, j)); assert(vs[z as int] == us[z as int]); }
  }
  assert(f[p] =~= lv[p].push(y)) by {
    assert forall|j: int| 0 <= j < lv[p].len() implies f[p][j] == lv[p][j] by { let z = s0.ch@[p][j]; assert(s0.own@[z] == (p, j)); assert(vs[z as int] == us[z as int]); }
  }
  assert forall|i: int| 1 <= i < f.len() implies lev_ok(d, #[trigger] f[i], f[i].len() - 1) by {
    assert(lev_ok(d, lv[i], lv[i].len() - 1));
    if i == q {
      assert forall|a: int, b: int| #![trigger f[i][a], f[i][b]] 0 <= a < b < f[i].len() implies f[i][a].label < f[i][b].label by { assert(lv[i][a].label < lv[i][b].label); }
    } else if i == p {
      assert forall|a: int, b: int| #![trigger f[i][a], f[i][b]] 0 <= a < b < f[i].len() implies f[i][a].label < f[i][b].label by { let z = lv[i].len() - 1; if b < z + 1 { assert(lv[i][a].label < lv[i][b].label); } else if a < z { assert(lv[i][a].label < lv[i][z].label); } }
    }
  }
  assert forall|i: int| 0 <= i < f.len() - 1 implies (#[trigger] f[i]).last().label != 0 by { assert(lv[i].last().label != 0); }
  assert forall|i: int| 1 <= i < s.ch@.len() implies chain_ok(vs, #[trigger] s.ch@[i]) by {
    let b = s.ch@[i]; let a = s0.ch@[i];
    assert(chain_ok(us, a));
    assert forall|j: int| 0 <= j < b.len() implies (#[trigger] vs[b[j] as int]).sibling == (if j == 0 { 0 } else { b[j - 1] }) && 0 < b[j] by {
      if j < a.len() { assert(a[j] == b[j]); assert(a[j] != x); assert(us[a[j] as int].sibling == (if j == 0 { 0 } else { a[j - 1] })); assert(vs[a[j] as int].sibling == us[a[j] as int].sibling); }
    }
    assert forall|j: int| 0 <= j < b.len() implies 0 < #[trigger] b[j] < vs.len() by { if j < a.len() { assert(0 < a[j]); } }
  }
  assert(s.ch@[0] == s0.ch@[0]);
  assert(vs[0].sibling == 0);
  assert(core(s));
  assert forall|i: int| 0 <= i < s.ch@.len() - 1 implies vs[(#[trigger] s.ch@[i]).last() as int].child == s.ch@[i + 1].last() by {
    assert(s.ch@[i] == s0.ch@[i]);
    if i < q { let z = s0.ch@[i].last(); assert(i == 0 || chain_ok(us, s0.ch@[i])); assert(s0.ch@[i][s0.ch@[i].len() - 1] == z); assert(s0.own@[z] == (i, s0.ch@[i].len() - 1)); assert(us[z as int].child == s0.ch@[i + 1].last()); assert(vs[z as int] == us[z as int]); assert(s.ch@[i + 1] == s0.ch@[i + 1]); }
  }
  assert(heads(f) =~= heads(lv).update(p, y.label));
  assert forall|i: int| 0 <= i < f.len() implies !(#[trigger] f[i]).last().hasSibling by { if i <= q { assert(!lv[i].last().hasSibling); } }
  assert forall|k: Seq<u8>| #[trigger] ulook(d, f, k) == ulook(d, lv, k) by {
    let g = push_last(lv, y);
    ulook_push(d, lv, y, k);
    assert(g[p] == f[p]);
    assert forall|i: int| 0 <= i < f.len() implies f[i].len() > 0 && eqv1(#[trigger] f[i], g[i], if i < f.len() - 1 { f[i].len() - 1 } else { f[i].len() as int }) by { if i >= 1 { assert(lev_ok(d, lv[i], lv[i].len() - 1)); } if i < q { assert(f[i] == lv[i]); } }
    ulook_eqv(d, f, g, k);
  }
}

pub proof fn step_lev(s0: DawgBuilder, s: DawgBuilder, x: u32, y: DawgUnit, q: int)
  requires opened(s0, q), taken(s0, s, x, y, s0.ch@[q].last()), s.ch@ == s0.ch@.push(seq![x]), s.own@ == s0.own@.insert(x, (q + 1, 0int)),
    y.child == 0, y.sibling == 0, y.isState, !y.hasSibling, lvl(s0)[q].last().label != 0
  ensures opened(s, q + 1), heads(lvl(s)) == heads(lvl(s0)).push(y.label), lvl(s)[q + 1] == seq![y],
    forall|k: Seq<u8>| #[trigger] ulook(dgb(s), lvl(s), k) == (if y.label == 0 && k == heads(lvl(s0)) { Some(0i32) } else { ulook(dgb(s0), lvl(s0), k) })
{
  let lv = lvl(s0); let f = lvl(s); let d = dgb(s0); let us = s0.unitPool@; let vs = s.unitPool@; let p = q + 1;
  let par = s0.ch@[q].last();
  taken_new(s0, s, x, y, par);
  taken_heap(s0, s, x, y, par, p, 0);
  assert(q == 0 || chain_ok(us, s0.ch@[q]));
  assert(s0.ch@[q][s0.ch@[q].len() - 1] == par);
  assert(s0.own@[par] == (q, s0.ch@[q].len() - 1));
  assert(f.len() == lv.len() + 1);
  assert forall|i: int| 0 <= i < q implies #[trigger] f[i] == lv[i] by {
    assert forall|j: int| 0 <= j < f[i].len() implies f[i][j] == lv[i][j] by { let z = s0.ch@[i][j]; assert(s0.own@[z] == (i, j)); assert(vs[z as int] == us[z as int]); }
    assert(f[i] =~= lv[i]);
  }
  assert(f[q] =~= hd(lv[q], set_child(lv[q].last(), x))) by {
    assert forall|j: int| 0 <= j < f[q].len() - 1 implies f[q][j] == lv[q][j] by { let z = s0.ch@[q][j]; assert(s0.own@[z] == (q, j)); assert(vs[z as int] == us[z as int]); }
  }
  assert(f[p] =~= seq![y]);
  assert forall|i: int| 1 <= i < f.len() implies lev_ok(d, #[trigger] f[i], f[i].len() - 1) by {
    if i <= q { assert(lev_ok(d, lv[i], lv[i].len() - 1)); }
    if i == q {
      assert forall|a: int, b: int| #![trigger f[i][a], f[i][b]] 0 <= a < b < f[i].len() implies f[i][a].label < f[i][b].label by { assert(lv[i][a].label < lv[i][b].label); }
    }
  }
  assert forall|i: int| 0 <= i < f.len() - 1 implies (#[trigger] f[i]).last().label != 0 by { if i < q { assert(lv[i].last().label != 0); } }
  assert forall|i: int| 1 <= i < s.ch@.len() implies chain_ok(vs, #[trigger] s.ch@[i]) by {
    if i <= q {
      let a = s0.ch@[i];
      assert(s.ch@[i] == a);
      assert(chain_ok(us, a));
      assert forall|j: int| 0 <= j < a.len() implies (#[trigger] vs[a[j] as int]).sibling == (if j == 0 { 0 } else { a[j - 1] }) && 0 < a[j] by {
        assert(a[j] != x); assert(us[a[j] as int].sibling == (if j == 0 { 0 } else { a[j - 1] })); assert(vs[a[j] as int].sibling == us[a[j] as int].sibling);
      }
      assert forall|j: int| 0 <= j < a.len() implies 0 < #[trigger] a[j] < vs.len() by { assert(0 < a[j]); }
    }
  }
  assert(s.ch@[0] == s0.ch@[0]);
  assert(vs[0].sibling == 0);
  assert(core(s));
  assert forall|i: int| 0 <= i < s.ch@.len() - 1 implies vs[(#[trigger] s.ch@[i]).last() as int].child == s.ch@[i + 1].last() by {
    assert(s.ch@[i] == s0.ch@[i]);
    if i < q { let z = s0.ch@[i].last(); assert(i == 0 || chain_ok(us, s0.ch@[i])); assert(s0.ch@[i][s0.ch@[i].len() - 1] == z); assert(s0.own@[z] == (i, s0.ch@[i].len() - 1)); assert(us[z as int].child == s0.ch@[i + 1].last()); assert(vs[z as int] == us[z as int]); assert(s.ch@[i + 1] == s0.ch@[i + 1]); }
  }
  assert(heads(f) =~= heads(lv).push(y.label));
  assert forall|i: int| 0 <= i < f.len() implies !(#[trigger] f[i]).last().hasSibling by { if i <= q { assert(!lv[i].last().hasSibling); } }
  levels_lw(d, lv);
  assert(lv[q].last() == us[par as int]);
  assert forall|k: Seq<u8>| #[trigger] ulook(dgb(s), lvl(s), k) == (if y.label == 0 && k == heads(lv) { Some(0i32) } else { ulook(d, lv, k) }) by {
    let g = lv.push(seq![y]);
    ulook_newlevel(d, lv, y, k);
    assert forall|i: int| 0 <= i < f.len() implies f[i].len() > 0 && eqv1(#[trigger] f[i], g[i], if i < f.len() - 1 { f[i].len() - 1 } else { f[i].len() as int }) by { if 1 <= i <= q { assert(lev_ok(d, lv[i], lv[i].len() - 1)); } if i < q { assert(f[i] == lv[i]); } }
    ulook_eqv(d, f, g, k);
  }
}
// the value at the end of the key
pub proof fn step_value(s0: DawgBuilder, s: DawgBuilder, v: u32)
  requires core(s0), inner(s0), stk(s0, s0.ch@.len() as int), flags_off(lvl(s0), -1), s0.ch@.len() >= 2, lvl(s0).last().last().label == 0, v < 0x8000_0000,
    s == (DawgBuilder { unitPool: s.unitPool, ..s0 }), s0.initialHashTableSize > 0,
    ({ let u = s0.ch@.last().last() as int; s.unitPool@ == s0.unitPool@.update(u, set_child(s0.unitPool@[u], v)) })
  ensures active(s), s.hashTable@.len() > 0, heads(lvl(s)) == heads(lvl(s0)),
    forall|k: Seq<u8>| #[trigger] ulook(dgb(s), lvl(s), k) == (if k == heads(lvl(s0).drop_last()) { Some(v as i32) } else { ulook(dgb(s0), lvl(s0), k) })
{
  let us = s0.unitPool@; let lv = lvl(s0); let f = lvl(s); let d = dgb(s0); let p = lv.len() - 1; let l = lv[p];
  let u = s0.ch@[p].last();
  let x = set_child(us[u as int], v);
  assert(chain_ok(us, s0.ch@[p]));
  assert(lev_ok(d, lv[p], lv[p].len() - 1));
  assert(l.len() == 1) by { if l.len() > 1 { assert(l[l.len() - 2].label < l[l.len() - 1].label); } }
  lvs_upd(us, s0.unusedUnits@, s0.ch@, s0.own@, p, s0.ch@[p].len() - 1, x);
  assert(lv[p].last() == us[u as int]);
  assert forall|i: int| 1 <= i < f.len() implies lev_ok(d, #[trigger] f[i], f[i].len() - 1) by {
    assert(lev_ok(d, lv[i], lv[i].len() - 1));
    if i < p { assert(f[i] == lv[i]); }
  }
  assert forall|i: int| 0 <= i < f.len() - 1 implies (#[trigger] f[i]).last().label != 0 by { assert(f[i] == lv[i]); assert(lv[i].last().label != 0); }
  assert forall|i: int| 1 <= i < s.ch@.len() implies chain_ok(s.unitPool@, #[trigger] s.ch@[i]) by { assert(chain_ok(us, s0.ch@[i])); chain_upd(us, s0.ch@[i], u as int, x); }
  assert(heap(s.unitPool@, s.unusedUnits@, s.ch@, s.own@));
  assert(core(s));
  assert forall|i: int| 0 <= i < s.ch@.len() - 1 implies s.unitPool@[(#[trigger] s.ch@[i]).last() as int].child == s.ch@[i + 1].last() by {
    let z = s0.ch@[i].last(); assert(i == 0 || chain_ok(us, s0.ch@[i])); assert(s0.ch@[i][s0.ch@[i].len() - 1] == z); assert(s0.own@[z] == (i, s0.ch@[i].len() - 1)); 
    assert(s0.ch@[p][s0.ch@[p].len() - 1] == u); assert(s0.own@[u] == (p, s0.ch@[p].len() - 1));
    assert(us[z as int].child == s0.ch@[i + 1].last());
  }
  assert(heads(f) =~= heads(lv));
  assert forall|i: int| -1 < i < f.len() implies !(#[trigger] f[i]).last().hasSibling by { assert(!lv[i].last().hasSibling); }
  levels_lw(d, lv);
  assert forall|k: Seq<u8>| #[trigger] ulook(dgb(s), lvl(s), k) == (if k == heads(lvl(s0).drop_last()) { Some(v as i32) } else { ulook(dgb(s0), lvl(s0), k) }) by {
    ulook_value(d, lv, v, k);
  }
}
// ---- order
pub open spec fn klab(k: Seq<u8>, i: int) -> u8 { if 0 <= i < k.len() { k[i] } else { 0 } }
pub open spec fn nozero(k: Seq<u8>) -> bool { forall|i: int| 0 <= i < k.len() ==> #[trigger] k[i] != 0 }
pub proof fn lex_diff(a: Seq<u8>, b: Seq<u8>, n: int)
  requires nozero(a), nozero(b), 0 <= n <= a.len(), n <= b.len(), forall|i: int| 0 <= i < n ==> #[trigger] a[i] == b[i]
  ensures klab(a, n) < klab(b, n) ==> lexle(a, b) && !lexle(b, a)
  decreases n
{
  if n > 0 {
    let x = a.drop_first(); let y = b.drop_first();
    assert forall|i: int| 0 <= i < n - 1 implies #[trigger] x[i] == y[i] by { assert(a[i + 1] == b[i + 1]); }
    assert(nozero(x)) by { assert forall|i: int| 0 <= i < x.len() implies #[trigger] x[i] != 0 by { assert(a[i + 1] != 0); } }
    assert(nozero(y)) by { assert forall|i: int| 0 <= i < y.len() implies #[trigger] y[i] != 0 by { assert(b[i + 1] != 0); } }
    assert(klab(x, n - 1) == klab(a, n) && klab(y, n - 1) == klab(b, n));
    lex_diff(x, y, n - 1);
    assert(a[0] == b[0]);
  }
}
pub proof fn lex_refl(a: Seq<u8>)
  ensures lexle(a, a)
  decreases a.len()
{ if a.len() > 0 { lex_refl(a.drop_first()); } }

pub open spec fn bkey(k: Seq<u8>) -> Seq<u8> { seq![0xffu8] + k }
pub open spec fn accepts(db: DawgBuilder, k: Seq<u8>, v: i32) -> bool { v >= 0 && nozero(k) && match blast(db) { Some(l) => lexle(l, k), None => true } }
pub open spec fn stored(a: DawgBuilder, b: DawgBuilder, k: Seq<u8>, v: i32, r: bool) -> bool {
  &&& bwf(b)
  &&& r ==> blast(b) == Some(k) && forall|x: Seq<u8>| #[trigger] blook(b, x) == (if x == k { Some(v) } else { blook(a, x) })
  &&& !r ==> blast(b) == blast(a) && forall|x: Seq<u8>| #[trigger] blook(b, x) == blook(a, x)
}
// the first n labels of the key are on the stack
pub open spec fn onpath(db: DawgBuilder, k: Seq<u8>, n: int) -> bool {
  let h = heads(lvl(db));
  h.len() >= n + 1 && h[0] == 0xff && forall|i: int| 0 <= i < n ==> #[trigger] h[i + 1] == klab(k, i)
}
pub open spec fn atend(db: DawgBuilder) -> bool {
  &&& core(db) && inner(db) && stk(db, db.ch@.len() as int) && flags_off(lvl(db), -1) && db.ch@.len() >= 2 && lvl(db).last().last().label == 0
}

pub proof fn heads0(s: DawgBuilder)
  requires active(s)
  ensures onpath(s, Seq::empty(), 0), s.ch@.len() >= 1, s.ch@[0].last() == 0
{}
pub proof fn ins_at(s: DawgBuilder, k: Seq<u8>, n: int)
  requires active(s), nozero(k), 0 <= n <= k.len() + 1, n < s.ch@.len(), onpath(s, k, n)
  ensures ({
    let u = s.unitPool@[s.ch@[n].last() as int].child;
    let l = s.unitPool@[u as int].label;
    &&& s.ch@[n].last() < s.unitPool@.len()
    &&& n <= k.len() && u == 0 ==> s.ch@.len() == 1 && n == 0 && opened(s, 0)
    &&& n <= k.len() && u != 0 ==> n + 1 < s.ch@.len() && u == s.ch@[n + 1].last() && u < s.unitPool@.len() && s.own@[u] == (n + 1, s.ch@[n + 1].len() - 1) && ready(s) && l == lvl(s)[n + 1].last().label && s.ch@[n + 1].len() > 0
      && (l == klab(k, n) ==> onpath(s, k, n + 1)) && (l < klab(k, n) ==> lexle(blast(s)->0, k)) && (klab(k, n) < l ==> !lexle(blast(s)->0, k))
    &&& n == k.len() + 1 ==> atend(s) && s.ch@.len() == n + 1 && lexle(blast(s)->0, k)
  })
{
  let lv = lvl(s); let h = heads(lv); let m = lv.len() as int;
  assert forall|i: int| 1 <= i < m implies (#[trigger] s.ch@[i]).len() > 0 && 0 < s.ch@[i].last() < s.unitPool@.len() by { assert(chain_ok(s.unitPool@, s.ch@[i])); let c = s.ch@[i]; assert(0 < c[c.len() - 1]); }
  assert forall|i: int| 0 <= i < m - 1 implies #[trigger] h[i] != 0 by { assert(lv[i].last().label != 0); }
  assert(s.ch@[0][0] < s.unitPool@.len());
  if n == k.len() + 1 {
    assert(h[(n - 1) + 1] == klab(k, n - 1));
    assert(n == m - 1);
    assert(blast(s)->0 =~= k) by {
      let b = blast(s)->0;
      assert forall|i: int| 0 <= i < k.len() implies b[i] == k[i] by { assert(h[i + 1] == klab(k, i)); }
    }
    lex_refl(k);
  } else {
    if n == m - 1 && n > 0 { assert(h[(n - 1) + 1] == klab(k, n - 1)); assert(k[n - 1] != 0); }
    if n < m - 1 {
      let b = blast(s)->0;
      assert(s.unitPool@[s.ch@[n].last() as int].child == s.ch@[n + 1].last());
      assert(s.own@[s.ch@[n + 1][s.ch@[n + 1].len() - 1]] == (n + 1, s.ch@[n + 1].len() - 1));
      assert(nozero(b)) by { assert forall|i: int| 0 <= i < b.len() implies #[trigger] b[i] != 0 by { assert(h[i + 1] != 0); } }
      assert(h[n + 1] == klab(b, n));
      assert forall|i: int| 0 <= i < n implies #[trigger] b[i] == k[i] by { assert(h[i + 1] == klab(k, i)); }
      lex_diff(b, k, n);
      assert forall|i: int| 0 <= i < n implies #[trigger] k[i] == b[i] by { assert(b[i] == k[i]); }
      lex_diff(k, b, n);
    }
  }
}
pub proof fn ins_fixed(s2: DawgBuilder, s3: DawgBuilder, s: DawgBuilder, k: Seq<u8>, n: int)
  requires active(s2), 0 <= n, n + 1 < s2.ch@.len(), onpath(s2, k, n), s3.ch@ == s2.ch@, fixed(s3, s, n + 1),
    lvl(s3) == lvl(s2).update(n + 1, hd(lvl(s2)[n + 1], DawgUnit { hasSibling: true, ..lvl(s2)[n + 1].last() }))
  ensures pend(s, n), onpath(s, k, n), lvl(s)[n + 1].last().label == lvl(s2)[n + 1].last().label, s.ch@[n] == s2.ch@[n]
{
  let a = lvl(s2); let b = lvl(s3); let c = lvl(s);
  assert(lev_ok(dgb(s2), a[n + 1], a[n + 1].len() - 1));
  assert forall|i: int| 0 <= i <= n implies #[trigger] c[i] == a[i] by { assert(c[i] == b[i]); }
  assert forall|i: int| 0 <= i <= n implies !(#[trigger] c[i]).last().hasSibling by { assert(c[i] == a[i]); }
  assert(c[n + 1].last() == set_child(b[n + 1].last(), c[n + 1].last().child));
  let h = heads(c);
  assert forall|i: int| 0 <= i < n implies #[trigger] h[i + 1] == klab(k, i) by { assert(heads(a)[i + 1] == klab(k, i)); assert(c[i + 1] == a[i + 1]); }
  assert(c[0] == a[0]);
}
pub open spec fn ins_ch(s: DawgBuilder, q: int, x: u32) -> Seq<Seq<u32>> { if s.ch@.len() == q + 2 { s.ch@.update(q + 1, s.ch@[q + 1].push(x)) } else { s.ch@.push(seq![x]) } }
pub open spec fn ins_own(s: DawgBuilder, q: int) -> (int, int) { if s.ch@.len() == q + 2 { (q + 1, s.ch@[q + 1].len() as int) } else { (q + 1, 0int) } }
pub proof fn ins_step(s0: DawgBuilder, s: DawgBuilder, x: u32, y: DawgUnit, q: int, k: Seq<u8>)
  requires (pend(s0, q) && lvl(s0)[q + 1].last().label < klab(k, q)) || opened(s0, q), onpath(s0, k, q), taken(s0, s, x, y, s0.ch@[q].last()), nozero(k), 0 <= q <= k.len(),
    s.ch@ == ins_ch(s0, q, x), s.own@ == s0.own@.insert(x, ins_own(s0, q)),
    y.child == 0, y.label == klab(k, q), y.sibling == s0.unitPool@[s0.ch@[q].last() as int].child, y.isState == (y.sibling == 0), !y.hasSibling
  ensures opened(s, q + 1), onpath(s, k, q + 1), q == k.len() ==> atend(s), s.ch@[q + 1].last() == x,
    forall|z: Seq<u8>| q < k.len() || z != bkey(k) ==> #[trigger] ulook(dgb(s), lvl(s), z) == ulook(dgb(s0), lvl(s0), z)
{
  let h = heads(lvl(s0));
  let g = heads(lvl(s));
  if s0.ch@.len() == q + 2 {
    assert(s0.unitPool@[s0.ch@[q].last() as int].child == s0.ch@[q + 1].last());
    assert(chain_ok(s0.unitPool@, s0.ch@[q + 1])); let c = s0.ch@[q + 1]; assert(0 < c[c.len() - 1]);
    step_sib(s0, s, x, y, q);
    assert forall|i: int| 0 <= i < q + 1 implies #[trigger] g[i + 1] == klab(k, i) by { if i < q { assert(h[i + 1] == klab(k, i)); } }
  } else {
    if q > 0 { assert(h[(q - 1) + 1] == klab(k, q - 1)); assert(k[q - 1] != 0); }
    assert(lvl(s0)[q].last().label != 0);
    step_lev(s0, s, x, y, q);
    assert forall|i: int| 0 <= i < q + 1 implies #[trigger] g[i + 1] == klab(k, i) by { if i < q { assert(h[i + 1] == klab(k, i)); } }
    assert forall|z: Seq<u8>| q < k.len() || z != bkey(k) implies #[trigger] ulook(dgb(s), lvl(s), z) == ulook(dgb(s0), lvl(s0), z) by {
      if q == k.len() { assert(h =~= bkey(k)) by { assert forall|i: int| 0 <= i < h.len() implies h[i] == bkey(k)[i] by { if i > 0 { assert(h[(i - 1) + 1] == klab(k, i - 1)); } } } }
    }
  }
}
pub proof fn ins_end(s6: DawgBuilder, s: DawgBuilder, k: Seq<u8>)
  requires atend(s6), onpath(s6, k, k.len() as int + 1), s6.ch@.len() == k.len() + 2, heads(lvl(s)) == heads(lvl(s6)), s.ch@ == s6.ch@
  ensures blast(s) == Some(k), heads(lvl(s6).drop_last()) == bkey(k)
{
  let h = heads(lvl(s6));
  assert forall|i: int| 0 <= i < k.len() implies h[i + 1] == k[i] by { assert(h[i + 1] == klab(k, i)); }
  assert(h.subrange(1, h.len() - 1) =~= k);
  assert(heads(lvl(s6).drop_last()) =~= bkey(k));
}

pub proof fn basic(s: DawgBuilder, q: int)
  requires core(s), 0 <= q < s.ch@.len()
  ensures s.unitPool@.len() < MAXLEN, s.ch@[q].last() < s.unitPool@.len(), forall|x: int| 0 <= x < s.unusedUnits@.len() ==> #[trigger] s.unusedUnits@[x] < s.unitPool@.len(),
    s.unusedUnits@.len() > 0 ==> s.unusedUnits@.last() != s.ch@[q].last()
{
  let c = s.ch@[q];
  assert(q == 0 || chain_ok(s.unitPool@, c));
  assert(c[c.len() - 1] == c.last());
  assert(s.own@[c[c.len() - 1]] == (q, c.len() - 1));
  let un = s.unusedUnits@;
  if un.len() > 0 { assert(s.own@[un[un.len() - 1]] == (-1int, un.len() - 1)); }
}
pub proof fn act_blook(s: DawgBuilder, k: Seq<u8>)
  ensures s.ch@.len() >= 1 ==> blook(s, k) == ulook(dgb(s), lvl(s), bkey(k))
{}

pub proof fn fix_begin(s: DawgBuilder, p: int, index: u32)
  requires ready(s), flags_off(lvl(s), p), 0 <= p < s.ch@.len(), s.ch@[p].last() == index
  ensures ({
    let m = s.ch@.len() as int; let c = s.ch@.last(); let l = lvl(s).last(); let d = dgb(s);
    &&& s.unfixedUnits@.len() == m && s.unfixedUnits@[m - 1] == c.last() && lvl(s).len() == m && lvl(s)[p].len() > 0
    &&& (s.unfixedUnits@.last() == index) == (m == p + 1)
    &&& m > p + 1 ==> {
      &&& chain_ok(s.unitPool@, c) && lev_ok(d, l, l.len() as int) && !l.last().hasSibling && l.len() == c.len() && c.len() <= 256
      &&& s.unfixedUnits@[m - 2] == s.ch@[m - 2].last() && s.ch@[m - 2].last() < s.unitPool@.len()
      &&& heap(s.unitPool@, s.unusedUnits@, s.ch@.drop_last(), s.own@)
      &&& forall|x: int| 0 <= x < c.len() ==> s.own@[#[trigger] c[x]] == (m - 1, x)
      &&& forall|x: int| 0 <= x < c.len() ==> #[trigger] l[x] == s.unitPool@[c[x] as int]
    }
    &&& pwf(d) && 1 <= d.len() < MAXLEN && d.label.len() == d.len() && fp_ok(s.flagPool) && s.flagPool.size == d.len() && s.numOfMergingStates == nset(bits(s.flagPool)) && hash_ok(d, s.hashTable@, s.numOfStates as int) && 0 <= starts(d, d.len()) < d.len()
  })
{
  let m = s.ch@.len() as int; let c = s.ch@.last(); let lv = lvl(s); let l = lv.last(); let d = dgb(s);
  reveal(pwf);
  starts_bound(d, d.len());
  let z = m - 1;
  assert(s.unfixedUnits@[z] == s.ch@[z].last());
  assert(s.unfixedUnits@[p] == s.ch@[p].last());
  assert(z == 0 || chain_ok(s.unitPool@, s.ch@[z]));
  assert(p == 0 || chain_ok(s.unitPool@, s.ch@[p]));
  assert(s.own@[s.ch@[z][s.ch@[z].len() - 1]] == (z, s.ch@[z].len() - 1));
  assert(s.own@[s.ch@[p][s.ch@[p].len() - 1]] == (p, s.ch@[p].len() - 1));
  if m > p + 1 {
    assert(lev_ok(d, lv[m - 1], lv[m - 1].len() - 1));
    assert(!lv[m - 1].last().hasSibling);
    assert(lev_ok(d, l, l.len() as int));
    asc_len(l, l.len() - 1);
    assert(s.unfixedUnits@[m - 2] == s.ch@[m - 2].last());
    assert(m == 2 || chain_ok(s.unitPool@, s.ch@[m - 2]));
    let w = s.ch@[m - 2]; assert(w[w.len() - 1] < s.unitPool@.len());
    let q = s.ch@.drop_last();
    assert forall|x: int, y: int| #![trigger q[x][y]] 0 <= x < q.len() && 0 <= y < q[x].len() implies q[x][y] < s.unitPool@.len() && s.own@[q[x][y]] == (x, y) by { assert(q[x][y] == s.ch@[x][y]); }
    assert forall|x: int| 0 <= x < c.len() implies s.own@[#[trigger] c[x]] == (m - 1, x) by { assert(s.ch@[m - 1][x] == c[x]); }
  }
}
pub proof fn fix_exit(a: DawgBuilder, s: DawgBuilder, p: int)
  requires s.ch@.len() == p + 1, p >= 0, exists|t: DawgBuilder| #[trigger] ready(t) && s == (DawgBuilder { unfixedUnits: s.unfixedUnits, ..t }) && s.unfixedUnits@ == t.unfixedUnits@.subrange(0, t.unfixedUnits@.len() - 1)
  ensures core(s), stk(s, p), inner(s), top_closed(dgb(s), lvl(s))
{
  let t = choose|t: DawgBuilder| #[trigger] ready(t) && s == (DawgBuilder { unfixedUnits: s.unfixedUnits, ..t }) && s.unfixedUnits@ == t.unfixedUnits@.subrange(0, t.unfixedUnits@.len() - 1);
  assert forall|i: int| 0 <= i < p implies #[trigger] s.unfixedUnits@[i] == s.ch@[i].last() by { assert(t.unfixedUnits@[i] == t.ch@[i].last()); }
}
@end
@ghostfield DawgBuilder ch: Ghost<Seq<Seq<u32>>> = Ghost(Seq::empty())
@ghostfield DawgBuilder own: Ghost<Map<u32, (int, int)>> = Ghost(Map::empty())

@fn intHash
@pure ihash
@wrapping
@end
@fn DawgUnit.base
@ensures r == ubase(*self)
@at entry
  proof { let c = self.child; assert(((c << 1) | 0) == c << 1) by(bit_vector); assert(((c << 2) | 0) == c << 2) by(bit_vector); let d = (c << 2) | 2; assert((d | 0) == d) by(bit_vector); }
@end
@fn BitPool.allocate
@requires fp_ok(*old(self)), old(self).size < MAXLEN
@ensures fp_ok(*final(self)), final(self).size == old(self).size + 1, bits(*final(self)) == bits(*old(self)).push(false), nset(bits(*final(self))) == nset(bits(*old(self)))
@at exit
  proof {
    let p = *old(self); let q = *self;
    assert(p.words@.len() * 64 == p.size || p.size % 64 != 0);
    assert forall|i: int| 0 <= i < p.size implies #[trigger] bitat(q.words@, i) == bitat(p.words@, i) by { assert(q.words@[i / 64] == p.words@[i / 64]); }
    assert forall|i: int| p.size <= i < q.words@.len() * 64 implies !#[trigger] bitat(q.words@, i) by {
      if p.size % 64 == 0 { assert(q.words@[i / 64] == 0); zbit(i % 64); } else { assert(!bitat(p.words@, i)); }
    }
    assert(!bitat(q.words@, p.size as int));
    bits_push(p, q);
  }
@end
@fn BitPool.get
@requires fp_ok(*self), index < self.size
@ensures r == bits(*self)[index as int]
@at entry
  proof { assert(index >> 6 == index / 64) by(bit_vector); assert((index & 63) < 64) by(bit_vector); assert((index & 63) == index % 64) by(bit_vector); wbit_lemmas(self.words@[index as int / 64], (index % 64) as u64); }
@end
@fn BitPool.set
@requires fp_ok(*old(self)), index < old(self).size
@ensures fp_ok(*final(self)), final(self).size == old(self).size, bits(*final(self)) == bits(*old(self)).update(index as int, bit)
@at entry
  proof { assert(index >> 6 == index / 64) by(bit_vector); assert((index & 63) < 64) by(bit_vector); assert((index & 63) == index % 64) by(bit_vector); wbit_lemmas(self.words@[index as int / 64], (index % 64) as u64); }
@at return 1
  proof { bits_set(*old(self), *self, index as int, bit); }
@at exit
  proof { bits_set(*old(self), *self, index as int, bit); }
@end
@fn BitPool.clear
@ensures final(self).words@.len() == 0, final(self).size == 0
@end

@fn DawgBuilder.allocateUnit
@requires old(self).unitPool@.len() < MAXLEN, forall|x: int| 0 <= x < old(self).unusedUnits@.len() ==> #[trigger] old(self).unusedUnits@[x] < old(self).unitPool@.len()
@ensures
  *final(self) == (DawgBuilder { unitPool: final(self).unitPool, unusedUnits: final(self).unusedUnits, ..*old(self) }),
  r < final(self).unitPool@.len() < MAXLEN, final(self).unitPool@.len() >= old(self).unitPool@.len(),
  final(self).unitPool@[r as int] == (DawgUnit { child: 0, sibling: 0, label: 0, isState: false, hasSibling: false }),
  forall|u: int| 0 <= u < old(self).unitPool@.len() && u != r ==> #[trigger] final(self).unitPool@[u] == old(self).unitPool@[u],
  if old(self).unusedUnits@.len() == 0 { r == old(self).unitPool@.len() && final(self).unusedUnits@ == old(self).unusedUnits@ }
  else { r == old(self).unusedUnits@.last() && final(self).unusedUnits@ == old(self).unusedUnits@.drop_last() }
@end
@fn DawgBuilder.allocateTransition
@requires fp_ok(old(self).flagPool), old(self).flagPool.size < MAXLEN, old(self).basePool@.len() == old(self).labelPool@.len()
@ensures
  *final(self) == (DawgBuilder { flagPool: final(self).flagPool, basePool: final(self).basePool, labelPool: final(self).labelPool, ..*old(self) }),
  fp_ok(final(self).flagPool), final(self).flagPool.size == old(self).flagPool.size + 1, nset(bits(final(self).flagPool)) == nset(bits(old(self).flagPool)),
  final(self).basePool@ == old(self).basePool@.push(0), final(self).labelPool@ == old(self).labelPool@.push(0), r == old(self).basePool@.len(), final(self).basePool@.len() < MAXLEN
@end
@fn DawgBuilder.hashTransition
@requires pwf(dgb(*self)), 0 < index < self.basePool@.len()
@loop 1
  invariant 0 < index < self.basePool@.len()
  decreases self.basePool@.len() - index
@at begin 1
  proof { pwf_at(dgb(*self), index as int); }
@end
@fn DawgBuilder.findTransition
@requires pwf(dgb(*self)), 0 < index < self.basePool@.len(), nz(self.hashTable@) < self.hashTable@.len()
@ensures *final(hashId) < self.hashTable@.len(), self.hashTable@[*final(hashId) as int] == 0
@at before loop 1
  proof { nz_slot(self.hashTable@); }
  let ghost e = choose|e: int| 0 <= e < self.hashTable@.len() && self.hashTable@[e] == 0;
@loop 1
  invariant *hashId < self.hashTable@.len() < MAXLEN
  decreases dist(*hashId as int, e, self.hashTable@.len() as int)
@at before assign *hashId 2
  proof { probe_step(*hashId, e, self.hashTable@.len() as int); }
@end

@fn DawgBuilder.hashUnit
@requires topc(*self, index)
@at before loop 1
  let ghost c = self.ch@.last();
  let ghost mut j: int = c.len() - 1;
@loop 1
  invariant -1 <= j < c.len(), index == (if j < 0 { 0 } else { c[j] })
  decreases j + 1
@at end 1
  proof { j = j - 1; }
@end
@fn DawgBuilder.areEqual
@requires topc(*self, unitIndex), pwf(dgb(*self)), 0 < transitionIndex < self.basePool@.len()
@ensures r == (is_group(dgb(*self), transitionIndex as int, lvl(*self).last()) && gend(dgb(*self), transitionIndex as int) == transitionIndex + lvl(*self).last().len() - 1)
@at entry
  let ghost c = self.ch@.last();
  let ghost l = lvl(*self).last();
  let ghost d = dgb(*self);
  let ghost t0 = transitionIndex as int;
  let ghost mut j: int = c.len() - 2;
  proof { reveal(pwf); }
@loop 1
  invariant -1 <= j <= c.len() - 2, i == (if j < 0 { 0 } else { c[j] }), transitionIndex == t0 + (c.len() - 2 - j), transitionIndex < self.basePool@.len(), forall|x: int| t0 <= x < transitionIndex ==> #[trigger] d.sib(x)
  decreases j + 1
@at begin 1
  proof { gend_run(d, t0, transitionIndex - t0); pwf_at(d, transitionIndex as int); }
@at post 1
  proof { j = j - 1; }
@at after loop 1
  proof { gend_run(d, t0, transitionIndex - t0); j = c.len() - 1; }
@loop 2
  invariant -1 <= j < c.len(), i == (if j < 0 { 0 } else { c[j] }), transitionIndex == t0 + j, gend(d, t0) == t0 + c.len() - 1, t0 + c.len() <= d.len(),
    forall|x: int| j < x < c.len() ==> d.base[t0 + x] == ubase(#[trigger] l[x]) && d.label[t0 + x] == l[x].label
  decreases j + 1
@at begin 2
  proof { assert(l[j] == self.unitPool@[c[j] as int]); }
@at post 2
  proof { j = j - 1; }
@end
@fn DawgBuilder.findUnit
@requires topc(*self, unitIndex), pwf(dgb(*self)), nz(self.hashTable@) < self.hashTable@.len(), forall|x: int| 0 <= x < self.hashTable@.len() ==> #[trigger] self.hashTable@[x] == 0 || start(dgb(*self), self.hashTable@[x] as int)
@ensures
  r != 0 ==> start(dgb(*self), r as int) && is_group(dgb(*self), r as int, lvl(*self).last()) && gend(dgb(*self), r as int) == r + lvl(*self).last().len() - 1,
  r == 0 ==> *final(hashId) < self.hashTable@.len() && self.hashTable@[*final(hashId) as int] == 0
@at before loop 1
  proof { nz_slot(self.hashTable@); }
  let ghost e = choose|e: int| 0 <= e < self.hashTable@.len() && self.hashTable@[e] == 0;
@loop 1
  invariant *hashId < self.hashTable@.len() < MAXLEN
  decreases dist(*hashId as int, e, self.hashTable@.len() as int)
@at before assign *hashId 2
  proof { probe_step(*hashId, e, self.hashTable@.len() as int); }
@end
@fn DawgBuilder.expandHashTable
@requires pwf(dgb(*old(self))), hash_ok(dgb(*old(self)), old(self).hashTable@, old(self).numOfStates as int)
@ensures
  *final(self) == (DawgBuilder { hashTable: final(self).hashTable, ..*old(self) }),
  hash_ok(dgb(*final(self)), final(self).hashTable@, final(self).numOfStates as int),
  final(self).numOfStates < final(self).hashTable@.len() - final(self).hashTable@.len() / 4
@at entry
  let ghost d = dgb(*self);
  proof { shl1(); }
@at before loop 1
  proof { nz_zero(self.hashTable@); reveal(pwf); starts_bound(d, d.len()); }
  let ghost nt = self.hashTable@.len();
@loop 1
  invariant 1 <= i <= d.len(), self.hashTable@.len() == nt, count <= i, nz(self.hashTable@) <= starts(d, i as int), starts(d, i as int) <= starts(d, d.len()),
    forall|x: int| 0 <= x < nt ==> #[trigger] self.hashTable@[x] == 0 || start(d, self.hashTable@[x] as int),
    *self == (DawgBuilder { hashTable: self.hashTable, ..*old(self) })
  decreases d.len() - i
@at begin 1
  proof { start_iff(d, i as int); starts_mono(d, i as int, d.len()); starts_mono(d, i + 1, d.len()); }
@at before assign db.hashTable[hashId] 1
  proof { nz_update(self.hashTable@, hashId as int, index); }
@end

@fn DawgBuilder.freeUnit
@ensures *final(self) == (DawgBuilder { unusedUnits: final(self).unusedUnits, ..*old(self) }), final(self).unusedUnits@ == old(self).unusedUnits@.push(index)
@end
@fn DawgBuilder.fixUnits
@wrapping
@requires ready(*old(self)), fixat(*old(self), index)
@ensures
  fixed(*old(self), *final(self), old(self).own@[index].0),
  forall|k: Seq<u8>| #[trigger] ulook(dgb(*final(self)), lvl(*final(self)), k) == ulook(dgb(*old(self)), lvl(*old(self)), k)
@at entry
  hide(core); hide(inner); hide(stk); hide(flags_off); hide(top_closed); hide(ulook); hide(lvs); hide(levels_ok); hide(lev_ok); hide(asc); hide(closed); hide(starts); hide(nz);
  let ghost p = self.own@[index].0;
  let ghost lv0 = lvl(*self);
  let ghost d0 = dgb(*self);
  proof { fix_begin(*self, p, index); }
@loop 1
  invariant ready(*self), self.unfixedUnits@.len() == self.ch@.len(), 0 <= p < self.ch@.len() <= old(self).ch@.len(), self.initialHashTableSize == old(self).initialHashTableSize, flags_off(lvl(*self), p),
    forall|i: int| 0 <= i <= p ==> #[trigger] self.ch@[i] == old(self).ch@[i],
    forall|i: int| 0 <= i < p ==> #[trigger] lvl(*self)[i] == lv0[i],
    same_but(lvl(*self)[p], lv0[p]), self.ch@.len() > p + 1 ==> lvl(*self)[p] == lv0[p],
    forall|k: Seq<u8>| #[trigger] ulook(dgb(*self), lvl(*self), k) == ulook(d0, lv0, k)
  decreases self.ch@.len()
@at begin 1
  let ghost s0 = *self;
  let ghost m = self.ch@.len() as int;
  let ghost c = self.ch@.last();
  let ghost lv = lvl(*self);
  let ghost l = lv.last();
  let ghost d = dgb(*self);
  let ghost us = self.unitPool@;
  let ghost mut j: int = self.ch@.last().len() - 1;
  let ghost mut e = dgb(*self);
  proof { fix_begin(s0, p, index); shl1(); nset_bound(bits(self.flagPool)); }
@at before loop 2
  proof { assert(*self == (DawgBuilder { hashTable: self.hashTable, unfixedUnits: self.unfixedUnits, ..s0 })); starts_bound(d, d.len()); }
@loop 2
  invariant -1 <= j < c.len(), i == (if j < 0 { 0 } else { c[j] }), numOfSiblings == c.len() - 1 - j
  decreases j + 1
@at post 2
  proof { j = j - 1; }
@at before loop 3
  let ghost s1 = *self;
@loop 3
  invariant 0 <= i <= numOfSiblings, numOfSiblings == c.len(), *self == (DawgBuilder { flagPool: self.flagPool, basePool: self.basePool, labelPool: self.labelPool, ..s1 }),
    fp_ok(self.flagPool), nset(bits(self.flagPool)) == nset(bits(s1.flagPool)), self.flagPool.size == self.basePool@.len(), self.basePool@.len() == self.labelPool@.len(), self.basePool@.len() == d.len() + i, self.basePool@.len() < MAXLEN,
    forall|t: int| 0 <= t < d.len() ==> #[trigger] self.basePool@[t] == d.base[t], forall|t: int| 0 <= t < d.len() ==> #[trigger] self.labelPool@[t] == d.label[t],
    i > 0 ==> transitionIndex == d.len() + i - 1
  decreases numOfSiblings - i
@at before loop 4
  let ghost s2 = *self;
  proof { j = c.len() - 1; }
@loop 4
  invariant -1 <= j < c.len(), i == (if j < 0 { 0 } else { c[j] }), transitionIndex == d.len() + j,
    *self == (DawgBuilder { basePool: self.basePool, labelPool: self.labelPool, ..s2 }), self.basePool@.len() == s2.basePool@.len(), self.labelPool@.len() == s2.labelPool@.len(),
    forall|t: int| 0 <= t < d.len() ==> #[trigger] self.basePool@[t] == d.base[t], forall|t: int| 0 <= t < d.len() ==> #[trigger] self.labelPool@[t] == d.label[t],
    forall|x: int| j < x < c.len() ==> self.basePool@[d.len() + x] == ubase(#[trigger] l[x]), forall|x: int| j < x < c.len() ==> self.labelPool@[d.len() + x] == (#[trigger] l[x]).label
  decreases j + 1
@at begin 4
  proof { assert(l[j] == us[c[j] as int]); }
@at post 4
  proof { j = j - 1; }
@at after loop 4
  proof { let e = dgb(*self); assert(extends(d, e)); alloc_group(d, e, l); }
@at before assign db.hashTable[hashId] 1
  proof {
    let e = dgb(*self);
    nz_update(self.hashTable@, hashId as int, matchedIndex);
    assert forall|x: int| 0 <= x < self.hashTable@.len() implies #[trigger] self.hashTable@[x] == 0 || start(e, self.hashTable@[x] as int) by {
      let t = self.hashTable@[x] as int; if t != 0 { assert(start(d, t)); if t > 1 { assert(e.base[t - 1] == d.base[t - 1]); } }
    }
  }
@at before call set 1
  proof { nset_set(bits(self.flagPool), matchedIndex as int); nset_bound(bits(self.flagPool)); }
@at before loop 5
  let ghost s3 = *self;
  proof {
    e = dgb(*self);
    j = c.len() - 1;
    assert(pwf(e) && extends(d, e) && start(e, matchedIndex as int) && is_group(e, matchedIndex as int, l) && hash_ok(e, self.hashTable@, self.numOfStates as int));
  }
@loop 5
  invariant -1 <= j < c.len(), current == (if j < 0 { 0 } else { c[j] }), *self == (DawgBuilder { unusedUnits: self.unusedUnits, own: self.own, ..s3 }),
    heap(us, self.unusedUnits@, self.ch@.drop_last(), self.own@), forall|x: int| 0 <= x <= j ==> self.own@[#[trigger] c[x]] == (m - 1, x)
  decreases j + 1
@at after call freeUnit 1
  self.own = Ghost(self.own@.insert(current, (-1int, self.unusedUnits@.len() - 1)));
@at post 5
  proof { j = j - 1; }
@at after loop 5
  self.ch = Ghost(self.ch@.drop_last());
  proof {
    let z = s0.ch@[m - 2].last();
    assert(self.unfixedUnits@.last() == z);
  }
@at end 1
  proof {
    let z = s0.ch@[m - 2].last();
    assert(self.unitPool@ =~= us.update(z as int, set_child(us[z as int], matchedIndex)));
    assert(self.unfixedUnits@ =~= s0.unfixedUnits@.drop_last());
    assert(folded(s0, *self, matchedIndex));
    fix_step(s0, *self, matchedIndex, p);
    fix_begin(*self, p, index);
    assert(forall|k: Seq<u8>| #[trigger] ulook(dgb(*self), lvl(*self), k) == ulook(d0, lv0, k));
  }
@at after loop 1
  let ghost s9 = *self;
  proof { fix_begin(*self, p, index); assert(self.ch@ =~= old(self).ch@.subrange(0, p + 1)); }
@at exit
  proof { assert(ready(s9)); fix_exit(*old(self), *self, p); }
@end

@fn DawgBuilder.init
@requires fresh(*old(self))
@ensures active(*final(self)), final(self).initialHashTableSize == old(self).initialHashTableSize, final(self).ch@ == seq![seq![0u32]], forall|k: Seq<u8>| #[trigger] ulook(dgb(*final(self)), lvl(*final(self)), k) is None
@at exit
  self.ch = Ghost(root_ch());
  self.own = Ghost(Map::<u32, (int, int)>::empty().insert(0u32, (0int, 0int)));
  proof {
    let d = dgb(*self);
    nz_zero(self.hashTable@);
    reveal(pwf);
    let lv = lvl(*self);
    assert(lv.len() == 1 && lv[0] =~= seq![self.unitPool@[0]]);
    assert forall|k: Seq<u8>| #[trigger] ulook(d, lv, k) is None by { reveal_with_fuel(lscan, 3); }
    assert(starts(d, 1) == 0);
    assert(core(*self));
  }
@end

@fn DawgBuilder.InsertKeyValue
@requires bwf(*old(self)), 0 <= length <= key@.len(), key@.len() < MAXLEN
@ensures r == accepts(*old(self), key@.subrange(0, length as int), value), stored(*old(self), *final(self), key@.subrange(0, length as int), value, r)
@at entry
  hide(core); hide(inner); hide(stk); hide(flags_off); hide(top_closed); hide(lexle); hide(ulook); hide(lvs); hide(heads);
  let ghost K = key@.subrange(0, length as int);
  let ghost mut s1 = *self;
  let ghost mut brk = false;
@loop 1
  invariant 0 <= i <= length, forall|x: int| 0 <= x < i ==> #[trigger] K[x] != 0
  decreases length - i
@at return 2
  proof { assert(K[i as int] == 0); }
@at before loop 2
  proof {
    s1 = *self;
    assert(nozero(K));
    assert(active(s1));
    assert(blast(s1) == blast(*old(self)));
    assert forall|k: Seq<u8>| #[trigger] blook(s1, k) == blook(*old(self), k) by {}
    heads0(s1);
  }
@loop 2
  invariant 0 <= keyPos <= length + 1, keyPos < self.ch@.len(), index == self.ch@[keyPos as int].last(), onpath(*self, K, keyPos as int), self.initialHashTableSize > 0,
    !brk, *self == s1
  decreases length + 1 - keyPos
@at begin 2
  proof { ins_at(s1, K, keyPos as int); }
@at then 4
  proof { brk = true; }
@at before assign db.unitPool[childIndex].hasSibling 1
  let ghost s2 = *self;
@at before call fixUnits 1
  let ghost s3 = *self;
  proof { let z = self.ch@[keyPos + 1]; step_flag(s2, s3, keyPos + 1); }
@at after call fixUnits 1
  proof { brk = true; ins_fixed(s2, s3, *self, K, keyPos as int); }
@at after loop 2
  proof {
    if !brk { ins_at(s1, K, keyPos as int); }
    assert(self.initialHashTableSize > 0);
    assert(forall|k: Seq<u8>| #[trigger] ulook(dgb(*self), lvl(*self), k) == ulook(dgb(s1), lvl(s1), k));
  }
@loop 3
  invariant 0 <= keyPos <= length + 1, keyPos < self.ch@.len(), index == self.ch@[keyPos as int].last(), onpath(*self, K, keyPos as int), self.initialHashTableSize > 0,
    (match blast(s1) { Some(l) => lexle(l, K), None => true }),
    keyPos <= length ==> (pend(*self, keyPos as int) && lvl(*self)[keyPos + 1].last().label < klab(K, keyPos as int)) || opened(*self, keyPos as int),
    keyPos > length ==> atend(*self) && self.ch@.len() == length + 2,
    forall|k: Seq<u8>| keyPos <= length || k != bkey(K) ==> #[trigger] ulook(dgb(*self), lvl(*self), k) == ulook(dgb(s1), lvl(s1), k)
  decreases length + 1 - keyPos
@at begin 3
  proof { basic(*self, keyPos as int); }
  let ghost s4 = *self;
@at end 3
  let ghost q = keyPos - 1;
  let ghost y = self.unitPool@[childIndex as int];
  self.ch = Ghost(ins_ch(s4, q, childIndex));
  self.own = Ghost(s4.own@.insert(childIndex, ins_own(s4, q)));
  proof {
    ins_step(s4, *self, childIndex, y, q, K);
    assert forall|k: Seq<u8>| keyPos <= length || k != bkey(K) implies #[trigger] ulook(dgb(*self), lvl(*self), k) == ulook(dgb(s1), lvl(s1), k) by {
      assert(ulook(dgb(s4), lvl(s4), k) == ulook(dgb(s1), lvl(s1), k));
    }
  }
@at after loop 3
  proof { basic(*self, keyPos as int); }
  let ghost s6 = *self;
@at return 4
  proof {
    let u = index as int;
    assert(self.unitPool@ =~= s6.unitPool@.update(u, set_child(s6.unitPool@[u], value as u32)));
    assert(bkey(K).drop_first() =~= K);
    step_value(s6, *self, value as u32);
    ins_end(s6, *self, K);
    assert forall|x: Seq<u8>| #[trigger] blook(*self, x) == (if x == K { Some(value) } else { blook(*old(self), x) }) by {
      let k = bkey(x);
      assert(k.drop_first() =~= x); assert(bkey(K).drop_first() =~= K);
      if x != K { assert(ulook(dgb(s6), lvl(s6), k) == ulook(dgb(s1), lvl(s1), k)); assert(blook(s1, x) == blook(*old(self), x)); }
    }
  }
@end

@raw
// a finished automaton holds what the builder held
pub open spec fn finished(a: DawgBuilder, d: Dawg) -> bool {
  &&& dwf(dgd(d)) && fp_ok(d.flagPool) && d.flagPool.size == d.basePool@.len() && d.numOfMergingStates == nset(bits(d.flagPool))
  &&& forall|k: Seq<u8>| #[trigger] dlook(dgd(d), 0, k) == blook(a, k)
}
pub proof fn finish_look(d: DG, e: DG, u: DawgUnit, k: Seq<u8>)
  requires pwf(d), extends(d, e), e.len() == d.len(), e.base[0] == ubase(u), e.label[0] == u.label, u.label == 0xff, if d.len() == 1 { u.child == 0 } else { start(d, u.child as int) }
  ensures dwf(e), dlook(e, 0, k) == ulook(d, seq![seq![u]], bkey(k))
{
  ubase_props(u);
  assert(pwf(e)) by {
    reveal(pwf);
    assert forall|t: int| 0 < t < e.len() implies #[trigger] sib_ok(e, t) by { ext_old(d, e, t); }
    assert forall|t: int| 0 < t < e.len() implies #[trigger] child_ok(e, t) by { ext_old(d, e, t); }
    assert forall|t: int| 0 < t < e.len() implies #[trigger] st_ok(e, t) by { ext_old(d, e, t); }
  }
  assert(d.len() < MAXLEN) by { reveal(pwf); }
  if d.len() > 1 && u.child > 1 { ext_at(d, e, u.child - 1); }
  dlook_glook(e, 0, k);
  if d.len() > 1 { glook_ext(d, e, u.child as int, k); }
  let lv = seq![seq![u]];
  let b = bkey(k);
  assert(b.drop_first() =~= k);
  assert(lv[0][0] == u && lv.len() == 1 && lv[0].len() == 1);
  reveal_with_fuel(lscan, 2);
  assert(lscan(lv[0], 0, 0xff) == Some(u));
  assert(ulook(d, lv, b) == lfind(d, lv[0], b));
}
@end
@fn DawgBuilder.Finish
@wrapping
@requires bwf(*old(self))
@ensures finished(*old(self), *final(dawg)), fresh(*final(self)), final(self).initialHashTableSize == old(self).initialHashTableSize
@at before call fixUnits 1
  let ghost s1 = *self;
  proof { heads0(s1); assert(s1.ch@[0][0] == 0); assert(s1.own@[0u32] == (0int, 0int)); }
@at after call fixUnits 1
  let ghost s2 = *self;
  proof { assert(s2.ch@ =~= root_ch()); assert(lvl(s2) =~= seq![seq![s2.unitPool@[0]]]) by { assert(lvl(s2)[0] =~= seq![s2.unitPool@[0]]); } assert(1 <= s2.basePool@.len() == s2.labelPool@.len()) by { reveal(pwf); } }
@at exit
  self.ch = Ghost(Seq::empty());
  proof {
    let d = dgb(s2); let e = dgd(*dawg);
    assert(extends(d, e)) by { reveal(pwf); }
    assert forall|k: Seq<u8>| #[trigger] dlook(e, 0, k) == blook(*old(self), k) by {
      finish_look(d, e, s2.unitPool@[0], k);
      assert(ulook(d, lvl(s2), bkey(k)) == ulook(dgb(s1), lvl(s1), bkey(k)));
    }
    finish_look(d, e, s2.unitPool@[0], Seq::empty());
  }
@end
@fn DawgBuilder.InsertStringValue
@requires bwf(*old(self)), key@.len() < MAXLEN
@ensures r == accepts(*old(self), key@, value), stored(*old(self), *final(self), key@, value, r)
@at entry
  proof { assert(key@.subrange(0, key@.len() as int) =~= key@); }
@end
@fn DawgBuilder.InsertString
@requires bwf(*old(self)), key@.len() < MAXLEN
@ensures r == accepts(*old(self), key@, 0), stored(*old(self), *final(self), key@, 0, r)
@at entry
  proof { assert(key@.subrange(0, key@.len() as int) =~= key@); }
@end
@fn NewDawgBuilderWithSize
@requires initialHashTableSize > 0
@ensures fresh(r)
@end
@fn NewDawgBuilder
@ensures fresh(r)
@end
