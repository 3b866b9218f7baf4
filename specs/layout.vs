@raw
// ---------------------------------------------------------------- how an automaton lies in the units of a dictionary
pub open spec fn sameblk(a: u32, b: u32) -> bool { a / 256 == b / 256 }
pub open spec fn leafunit(v: i32) -> u32 { (v as u32) | 0x8000_0000 }
pub proof fn leaf_props(v: i32)
  requires v >= 0
  ensures lab(leafunit(v)) >= 0x8000_0000, (leafunit(v) & 0x7fff_ffff) as i32 == v
{
  let x = v as u32;
  assert((x | 0x8000_0000) & 0x8000_00ff >= 0x8000_0000u32) by(bit_vector);
  assert((x | 0x8000_0000) & 0x7fff_ffff == x) by(bit_vector) requires x < 0x8000_0000;
}
pub open spec fn memb(d: DG, o: u32, t: int) -> u32 { o ^ (d.label[t] as u32) }
pub open spec fn inblk(o: u32, i: u32) -> bool { (i ^ o) < 256 }
pub open spec fn ulab(d: DG, i: u32, t: int) -> u32 { if i == 0 { 0 } else { d.label[t] as u32 } }
pub open spec fn leafat(d: DG, g: int) -> bool { g != 0 && d.leaf(g) }
pub proof fn xor_facts(a: u32, b: u32, l: u8)
  ensures (a ^ (l as u32)) ^ a == l as u32, inblk(a, a ^ (l as u32)), sameblk(a, a ^ (l as u32)), inblk(a, b) ==> a ^ ((b ^ a) as u8 as u32) == b, inblk(a, b) == sameblk(a, b), a ^ (a ^ b) == b, a ^ 0 == a
{
  let m = l as u32;
  assert((a ^ m) ^ a == m && (a ^ m) / 256 == a / 256) by(bit_vector) requires m < 256;
  assert((b ^ a) < 256 ==> a ^ ((b ^ a) as u8 as u32) == b) by(bit_vector);
  assert(((b ^ a) < 256) == (a / 256 == b / 256)) by(bit_vector);
  assert(a ^ (a ^ b) == b && a ^ 0 == a) by(bit_vector);
}
pub open spec fn lay_node(d: DG, us: Seq<u32>, nd: IMap<u32, (u32, int)>, grp: Map<u32, int>, i: u32) -> bool {
  let o = nd[i].0; let t = nd[i].1; let u = us[i as int]; let ob = i ^ off(u);
  &&& i < us.len() && 0 <= t < d.len()
  &&& if d.leaf(t) { u == leafunit(d.val(t)) } else { lab(u) == ulab(d, i, t) && ob != 0 && grp.contains_key(ob) && grp[ob] == d.child(t) && hasleaf(u) == leafat(d, d.child(t)) }
  &&& if i == 0 { o == 0 && t == 0 } else { o != 0 && grp.contains_key(o) && grp[o] != 0 && in_group(d, grp[o], t) && i == memb(d, o, t) }
}
pub open spec fn lay_member(d: DG, nd: IMap<u32, (u32, int)>, o: u32, t: int) -> bool { let i = memb(d, o, t); nd.contains_key(i) && nd[i] == (o, t) }
pub open spec fn lay_grp(d: DG, us: Seq<u32>, nd: IMap<u32, (u32, int)>, grp: Map<u32, int>, o: u32) -> bool {
  o < us.len() && (grp[o] != 0 ==> start(d, grp[o]) && forall|t: int| in_group(d, grp[o], t) ==> #[trigger] lay_member(d, nd, o, t))
}
pub open spec fn lay_fill(us: Seq<u32>, grp: Map<u32, int>, i: u32) -> bool { let l = lab(us[i as int]); l < 256 && !grp.contains_key(i ^ l) }
#[verifier::opaque]
pub open spec fn layout(d: DG, us: Seq<u32>, nd: IMap<u32, (u32, int)>, grp: Map<u32, int>) -> bool {
  &&& dwf(d) && us.len() % 256 == 0 && 0 < us.len() < MAXLEN && nd.contains_key(0)
  &&& forall|i: u32| #[trigger] nd.contains_key(i) ==> lay_node(d, us, nd, grp, i)
  &&& forall|o: u32| #[trigger] grp.contains_key(o) ==> lay_grp(d, us, nd, grp, o)
  &&& forall|i: u32| i < us.len() && !#[trigger] nd.contains_key(i) ==> lay_fill(us, grp, i)
}
pub open spec fn lays(d: DG, us: Seq<u32>) -> bool { exists|nd: IMap<u32, (u32, int)>, grp: Map<u32, int>| #[trigger] layout(d, us, nd, grp) }
// ---- what a step does
pub open spec fn posn(d: DG, nd: IMap<u32, (u32, int)>, i: u32, t: int) -> bool { nd.contains_key(i) && nd[i].1 == t && !d.leaf(t) }
pub proof fn lay_step(d: DG, us: Seq<u32>, nd: IMap<u32, (u32, int)>, grp: Map<u32, int>, i: u32, t: int, c: u8)
  requires layout(d, us, nd, grp), posn(d, nd, i, t)
  ensures
    i < us.len() && nx(us, i, c) < us.len(),
    c == 0 ==> !follows(us, i, c),
    c != 0 ==> follows(us, i, c) == (kid(d, t, c) is Some),
    c != 0 && follows(us, i, c) ==> posn(d, nd, nx(us, i, c), kid(d, t, c)->0),
    hasleaf(us[i as int]) == (stateval(d, t) is Some),
    stateval(d, t) matches Some(v) ==> leafval(us, i) == v,
{
  reveal(layout);
  let u = us[i as int]; let ob = i ^ off(u); let g = d.child(t);
  let x = nx(us, i, c);
  assert(lay_node(d, us, nd, grp, i));
  assert(lay_grp(d, us, nd, grp, ob));
  xor_facts(ob, x, c);
  xor_block(ob, c as u32, us.len() as u32);
  assert(x < us.len());
  if g != 0 { gend_bounds(d, g); scan_props(d, g, c); scan_props(d, g, 0); }
  assert(x ^ (c as u32) == ob) by(bit_vector) requires x == ob ^ (c as u32);
  if !nd.contains_key(x) { assert(lay_fill(us, grp, x)); }
  else {
    assert(lay_node(d, us, nd, grp, x));
    let o2 = nd[x].0; let t2 = nd[x].1;
    if d.leaf(t2) { bval_pos(d.base[t2]); leaf_props(d.val(t2)); }
    else if lab(us[x as int]) == c as u32 && x != 0 {
      assert(d.label[t2] == c);
      assert(o2 == ob) by(bit_vector) requires x == o2 ^ (c as u32), x == ob ^ (c as u32);
      group_member(d, g, t2);
    }
  }
  if c != 0 && kid(d, t, c) is Some {
    let y = kid(d, t, c)->0;
    assert(in_group(d, g, y));
    assert(lay_member(d, nd, ob, y));
    assert(memb(d, ob, y) == x);
    assert(lay_node(d, us, nd, grp, x));
    assert(nd[x].0 != 0); assert(lay_node(d, us, nd, grp, 0));
  }
  if g != 0 && d.leaf(g) {
    assert(in_group(d, g, g));
    assert(lay_member(d, nd, ob, g));
    xor_facts(ob, ob, 0);
    assert(ob ^ 0u32 == ob) by(bit_vector);
    assert(memb(d, ob, g) == ob);
    assert(lay_node(d, us, nd, grp, ob));
    bval_pos(d.base[g]); leaf_props(d.val(g));
    assert(scan(d, g, 0) == Some(g));
  }
}
pub proof fn bval_pos(b: u32)
  ensures bval(b) >= 0
{ assert((b >> 1) < 0x8000_0000) by(bit_vector); }
pub proof fn lay_root(d: DG, us: Seq<u32>, nd: IMap<u32, (u32, int)>, grp: Map<u32, int>)
  requires layout(d, us, nd, grp)
  ensures posn(d, nd, 0, 0), us.len() > 0, dwf(d)
{ reveal(layout); assert(lay_node(d, us, nd, grp, 0)); }
pub proof fn lay_posn_node(d: DG, us: Seq<u32>, nd: IMap<u32, (u32, int)>, grp: Map<u32, int>, i: u32, t: int)
  requires layout(d, us, nd, grp), posn(d, nd, i, t)
  ensures node(us, i)
{
  assert(us.len() % 256 == 0 && 0 < us.len() < MAXLEN) by { reveal(layout); }
  let n = nodeset(d, nd, us.len() as int);
  assert forall|j: u32| #[trigger] n.contains(j) == posn(d, nd, j, nd[j].1) by { nodeset_in(d, nd, us.len() as int, j); if posn(d, nd, j, nd[j].1) { lay_step(d, us, nd, grp, j, nd[j].1, 0); } }
  assert forall|j: u32| #[trigger] n.contains(j) implies j < us.len() && nx(us, j, 0) < us.len() by { lay_step(d, us, nd, grp, j, nd[j].1, 0); }
  assert forall|j: u32, c: u8| n.contains(j) && #[trigger] follows(us, j, c) implies n.contains(nx(us, j, c)) by { lay_step(d, us, nd, grp, j, nd[j].1, c); }
  assert(nodes(us, n));
}
pub open spec fn nodeset(d: DG, nd: IMap<u32, (u32, int)>, n: int) -> Set<u32>
  decreases n
{ if n <= 0 { Set::empty() } else if n <= 0x1_0000_0000 && posn(d, nd, (n - 1) as u32, nd[(n - 1) as u32].1) { nodeset(d, nd, n - 1).insert((n - 1) as u32) } else { nodeset(d, nd, n - 1) } }
pub proof fn nodeset_in(d: DG, nd: IMap<u32, (u32, int)>, n: int, j: u32)
  requires n <= 0x1_0000_0000
  ensures nodeset(d, nd, n).contains(j) == (j < n && posn(d, nd, j, nd[j].1))
  decreases n
{ if n > 0 { nodeset_in(d, nd, n - 1, j); } }
pub proof fn lay_walk(d: DG, us: Seq<u32>, nd: IMap<u32, (u32, int)>, grp: Map<u32, int>, i: u32, t: int, k: Seq<u8>)
  requires layout(d, us, nd, grp), posn(d, nd, i, t)
  ensures (walk(us, i, k) is Some) == (dwalk(d, t, k) is Some), walk(us, i, k) is Some ==> posn(d, nd, walk(us, i, k)->0, dwalk(d, t, k)->0)
  decreases k.len()
{
  if k.len() > 0 {
    lay_step(d, us, nd, grp, i, t, k[0]);
    if k[0] != 0 && follows(us, i, k[0]) { lay_walk(d, us, nd, grp, nx(us, i, k[0]), kid(d, t, k[0])->0, k.drop_first()); }
  }
}
// a lookup in the dictionary answers what the automaton says
pub proof fn lay_find(d: DG, us: Seq<u32>, k: Seq<u8>)
  requires lays(d, us)
  ensures find(us, k) == dlook(d, 0, k), node(us, 0), (walk(us, 0, k) is Some) == (dwalk(d, 0, k) is Some)
{
  let (nd, grp) = choose|nd: IMap<u32, (u32, int)>, grp: Map<u32, int>| #[trigger] layout(d, us, nd, grp);
  lay_root(d, us, nd, grp);
  lay_posn_node(d, us, nd, grp, 0, 0);
  lay_walk(d, us, nd, grp, 0, 0, k);
  if walk(us, 0, k) is Some { lay_step(d, us, nd, grp, walk(us, 0, k)->0, dwalk(d, 0, k)->0, 0); }
}
pub proof fn dwalk_cat(d: DG, t: int, p: Seq<u8>, k: Seq<u8>)
  ensures dwalk(d, t, p) is None ==> dwalk(d, t, p + k) is None, dwalk(d, t, p) matches Some(u) ==> dwalk(d, t, p + k) == dwalk(d, u, k)
  decreases p.len()
{
  if p.len() == 0 { assert(p + k =~= k); }
  else {
    assert((p + k).drop_first() =~= p.drop_first() + k); assert((p + k)[0] == p[0]);
    if p[0] != 0 && kid(d, t, p[0]) is Some { dwalk_cat(d, kid(d, t, p[0])->0, p.drop_first(), k); }
  }
}
// every transition that is not a leaf leads to a key
pub proof fn leads(d: DG, t: int) -> (k: Seq<u8>)
  requires pwf(d), 0 <= t < d.len(), d.label[t] != 0, start(d, d.child(t)), t != 0 ==> gend(d, d.child(t)) < t
  ensures dlook(d, t, k) is Some
  decreases (if t == 0 { d.len() } else { t })
{
  let g = d.child(t);
  gend_bounds(d, g);
  pwf_at(d, g);
  scan_props(d, g, d.label[g]);
  if d.leaf(g) { assert(kid(d, t, 0) == Some(g)); Seq::empty() }
  else {
    let c = d.label[g];
    gend_bounds(d, d.child(g));
    let r = leads(d, g);
    let k = seq![c] + r;
    assert(k.drop_first() =~= r);
    assert(kid(d, t, c) == Some(g));
    assert(dwalk(d, t, k) == dwalk(d, g, r));
    k
  }
}
pub proof fn walk_posn(d: DG, s: int, p: Seq<u8>)
  requires dwf(d), 0 <= s < d.len(), !d.leaf(s), p.len() > 0 || s != 0 || d.len() > 1, dwalk(d, s, p) is Some
  ensures ({ let t = dwalk(d, s, p)->0; 0 <= t < d.len() && !d.leaf(t) && start(d, d.child(t)) && (t != 0 ==> gend(d, d.child(t)) < t) })
  decreases p.len()
{
  if p.len() == 0 { if s != 0 { pwf_at(d, s); } }
  else {
    let u = kid(d, s, p[0])->0;
    if s != 0 { pwf_at(d, s); }
    gend_bounds(d, d.child(s));
    scan_props(d, d.child(s), p[0]);
    walk_posn(d, u, p.drop_first());
  }
}
@end
