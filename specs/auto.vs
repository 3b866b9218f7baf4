@raw
// ---------------------------------------------------------------- the automaton in list form
pub open spec fn bchild(b: u32) -> int { (b >> 2) as int }
pub open spec fn bsib(b: u32) -> bool { b & 1 != 0 }
pub open spec fn bst(b: u32) -> bool { b & 2 != 0 }
pub open spec fn bval(b: u32) -> i32 { (b >> 1) as i32 }

pub struct DG { pub base: Seq<u32>, pub label: Seq<u8> }

impl DG {
  pub open spec fn len(self) -> int { self.base.len() as int }
  pub open spec fn child(self, s: int) -> int { bchild(self.base[s]) }
  pub open spec fn sib(self, s: int) -> bool { bsib(self.base[s]) }
  pub open spec fn leaf(self, s: int) -> bool { self.label[s] == 0 }
  pub open spec fn val(self, s: int) -> i32 { bval(self.base[s]) }
}
// last transition of the group that continues at u
pub open spec fn gend(d: DG, u: int) -> int
  decreases d.len() - u
{ if 0 <= u && u + 1 < d.len() && d.sib(u) { gend(d, u + 1) } else { u } }
// a group starts at t
pub open spec fn start(d: DG, t: int) -> bool { 0 < t < d.len() && (t == 1 || !d.sib(t - 1)) }

// a pool of groups: sorted by label, each below the transitions that lead to it; index 0 is not part of a group
pub open spec fn sib_ok(d: DG, t: int) -> bool { d.sib(t) ==> t + 1 < d.len() && d.label[t] < d.label[t + 1] }
pub open spec fn child_ok(d: DG, t: int) -> bool { d.label[t] != 0 ==> start(d, d.child(t)) && gend(d, d.child(t)) < t }
pub open spec fn st_ok(d: DG, t: int) -> bool { d.label[t] != 0 ==> bst(d.base[t]) == start(d, t) }
#[verifier::opaque]
pub open spec fn pwf(d: DG) -> bool {
  &&& 1 <= d.len() < MAXLEN
  &&& d.label.len() == d.base.len()
  &&& forall|t: int| 0 < t < d.len() ==> #[trigger] sib_ok(d, t)
  &&& forall|t: int| 0 < t < d.len() ==> #[trigger] child_ok(d, t)
  &&& forall|t: int| 0 < t < d.len() ==> #[trigger] st_ok(d, t)
}
// a finished automaton: index 0 is the root
pub open spec fn dwf(d: DG) -> bool {
  &&& pwf(d)
  &&& d.label[0] != 0
  &&& if d.len() == 1 { d.child(0) == 0 } else { start(d, d.child(0)) }
}
// the transition of a group (from u on) that carries c
pub open spec fn scan(d: DG, u: int, c: u8) -> Option<int>
  decreases d.len() - u
{
  if !(0 <= u < d.len()) { None }
  else if d.label[u] == c { Some(u) }
  else if d.sib(u) { scan(d, u + 1, c) }
  else { None }
}
pub open spec fn kid(d: DG, s: int, c: u8) -> Option<int> { if d.child(s) == 0 { None } else { scan(d, d.child(s), c) } }

// what a key leads to from the group g
pub open spec fn glook(d: DG, g: int, k: Seq<u8>) -> Option<i32>
  decreases k.len()
{
  if !(0 < g < d.len()) { None }
  else if k.len() == 0 { match scan(d, g, 0) { Some(u) => Some(d.val(u)), None => None } }
  else if k[0] == 0 { None }
  else { match scan(d, g, k[0]) { Some(u) => glook(d, d.child(u), k.drop_first()), None => None } }
}
// from the transition s
pub open spec fn dwalk(d: DG, s: int, k: Seq<u8>) -> Option<int>
  decreases k.len()
{
  if k.len() == 0 { Some(s) }
  else if k[0] == 0 { None }
  else { match kid(d, s, k[0]) { Some(u) => dwalk(d, u, k.drop_first()), None => None } }
}
pub open spec fn stateval(d: DG, s: int) -> Option<i32> { match kid(d, s, 0) { Some(u) => Some(d.val(u)), None => None } }
pub open spec fn dlook(d: DG, s: int, k: Seq<u8>) -> Option<i32> { match dwalk(d, s, k) { Some(u) => stateval(d, u), None => None } }

pub open spec fn dgd(d: Dawg) -> DG { DG { base: d.basePool@, label: d.labelPool@ } }
// ---- what holds in a well-formed automaton
pub proof fn pwf_at(d: DG, t: int)
  requires pwf(d), 0 < t < d.len()
  ensures sib_ok(d, t), child_ok(d, t), st_ok(d, t), d.label.len() == d.len(), d.len() < MAXLEN
{ reveal(pwf); }
pub proof fn gend_bounds(d: DG, u: int)
  requires 0 <= u < d.len()
  ensures u <= gend(d, u) < d.len()
  decreases d.len() - u
{ if u + 1 < d.len() && d.sib(u) { gend_bounds(d, u + 1); } }

pub proof fn scan_props(d: DG, u: int, c: u8)
  requires pwf(d), 0 < u < d.len()
  ensures
    scan(d, u, c) matches Some(t) ==> u <= t <= gend(d, u) && d.label[t] == c,
    c < d.label[u] ==> scan(d, u, c) is None,
    forall|t: int| u <= t <= gend(d, u) && #[trigger] d.label[t] == c ==> scan(d, u, c) == Some(t),
    forall|t: int| u < t <= gend(d, u) ==> d.label[u] < #[trigger] d.label[t],
  decreases d.len() - u
{
  pwf_at(d, u);
  gend_bounds(d, u);
  if d.sib(u) { scan_props(d, u + 1, c); }
}
// the members of the group with start g
pub open spec fn in_group(d: DG, g: int, t: int) -> bool { 0 < g <= t <= gend(d, g) && g < d.len() }
pub proof fn group_member(d: DG, g: int, t: int)
  requires pwf(d), in_group(d, g, t)
  ensures gend(d, t) == gend(d, g), 0 < t < d.len(), (t < gend(d, g)) == d.sib(t), scan(d, g, d.label[t]) == Some(t)
  decreases t - g
{
  pwf_at(d, g);
  gend_bounds(d, g);
  scan_props(d, g, d.label[t]);
  if t > g { group_member(d, g + 1, t); } else { if d.sib(g) { gend_bounds(d, g + 1); } }
}
pub proof fn dlook_glook(d: DG, s: int, k: Seq<u8>)
  requires pwf(d), 0 <= s < d.len(), d.child(s) == 0 || start(d, d.child(s)), d.label[s] != 0
  ensures dlook(d, s, k) == glook(d, d.child(s), k)
  decreases k.len()
{
  if k.len() > 0 && k[0] != 0 && d.child(s) != 0 {
    scan_props(d, d.child(s), k[0]);
    if kid(d, s, k[0]) is Some {
      let u = kid(d, s, k[0])->0;
      gend_bounds(d, d.child(s));
      pwf_at(d, u);
      dlook_glook(d, u, k.drop_first());
    }
  }
}
// a longer pool says the same about the groups it took over
pub open spec fn extends(d: DG, e: DG) -> bool {
  &&& d.len() <= e.len() && d.label.len() == d.len() && e.label.len() == e.len()
  &&& forall|t: int| 0 < t < d.len() ==> #[trigger] e.base[t] == d.base[t]
  &&& forall|t: int| 0 < t < d.len() ==> #[trigger] e.label[t] == d.label[t]
}
pub proof fn scan_ext(d: DG, e: DG, u: int, c: u8)
  requires pwf(d), extends(d, e), 0 < u < d.len()
  ensures scan(e, u, c) == scan(d, u, c), gend(e, u) == gend(d, u)
  decreases d.len() - u
{ pwf_at(d, u); assert(e.base[u] == d.base[u]); if d.sib(u) { scan_ext(d, e, u + 1, c); } }
pub proof fn glook_ext(d: DG, e: DG, g: int, k: Seq<u8>)
  requires pwf(d), extends(d, e), 0 < g < d.len()
  ensures glook(e, g, k) == glook(d, g, k)
  decreases k.len()
{
  gend_bounds(d, g);
  let c = if k.len() == 0 { 0u8 } else { k[0] };
  scan_ext(d, e, g, c);
  scan_props(d, g, c);
  if scan(d, g, c) is Some {
    let u = scan(d, g, c)->0;
    assert(e.base[u] == d.base[u]);
    pwf_at(d, u);
    if k.len() > 0 && k[0] != 0 { glook_ext(d, e, d.child(u), k.drop_first()); }
  }
}

// a run of siblings
pub proof fn gend_run(d: DG, t: int, n: int)
  requires pwf(d), 0 < t, 0 <= n, t + n < d.len(), forall|x: int| t <= x < t + n ==> #[trigger] d.sib(x)
  ensures gend(d, t) >= t + n, !d.sib(t + n) ==> gend(d, t) == t + n, d.sib(t + n) ==> gend(d, t) > t + n
  decreases n
{ assert(n > 0 ==> d.sib(t)); if n > 0 { gend_run(d, t + 1, n - 1); } else { pwf_at(d, t); if d.sib(t) { gend_bounds(d, t + 1); } } }
pub proof fn start_iff(d: DG, t: int)
  requires pwf(d), 0 < t < d.len()
  ensures (d.label[t] == 0 || bst(d.base[t])) == start(d, t) || (d.label[t] == 0 && start(d, t))
{ pwf_at(d, t); if t > 1 { pwf_at(d, t - 1); } }
// ---- order
pub open spec fn lexle(a: Seq<u8>, b: Seq<u8>) -> bool
  decreases a.len()
{ if a.len() == 0 { true } else if b.len() == 0 { false } else if a[0] != b[0] { a[0] < b[0] } else { lexle(a.drop_first(), b.drop_first()) } }
@end
