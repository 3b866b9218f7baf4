@raw
// ---------------------------------------------------------------- allocation of units
pub type EX = Seq<Vec<DictionaryExtraUnit>>;
pub open spec fn at(ex: EX, i: u32) -> DictionaryExtraUnit { ex[(i / 256) as int]@[(i % 256) as int] }
pub open spec fn efix(e: DictionaryExtraUnit) -> bool { e.loValues & 1 == 1 }
pub open spec fn enext(e: DictionaryExtraUnit) -> u32 { e.loValues >> 1 }
pub open spec fn eused(e: DictionaryExtraUnit) -> bool { e.hiValues & 1 == 1 }
pub open spec fn eprev(e: DictionaryExtraUnit) -> u32 { e.hiValues >> 1 }
pub proof fn eu_bits()
  ensures
    forall|l: u32, n: u32| n < 0x8000_0000 ==> (#[trigger] ((l & 1) | (n << 1))) >> 1 == n,
    forall|l: u32, n: u32| (#[trigger] ((l & 1) | (n << 1))) & 1 == l & 1,
    forall|l: u32| (#[trigger] (l | 1u32)) & 1 == 1,
    forall|l: u32| (#[trigger] (l | 1u32)) >> 1 == l >> 1,
{
  assert(forall|l: u32, n: u32| n < 0x8000_0000 ==> (#[trigger] ((l & 1) | (n << 1))) >> 1 == n) by(bit_vector);
  assert(forall|l: u32, n: u32| (#[trigger] ((l & 1) | (n << 1))) & 1 == l & 1) by(bit_vector);
  assert(forall|l: u32| (#[trigger] (l | 1u32)) & 1 == 1) by(bit_vector);
  assert(forall|l: u32| (#[trigger] (l | 1u32)) >> 1 == l >> 1) by(bit_vector);
}
pub open spec fn e_next(e: DictionaryExtraUnit, n: u32) -> DictionaryExtraUnit { DictionaryExtraUnit { loValues: (e.loValues & 1) | (n << 1), ..e } }
pub open spec fn e_prev(e: DictionaryExtraUnit, n: u32) -> DictionaryExtraUnit { DictionaryExtraUnit { hiValues: (e.hiValues & 1) | (n << 1), ..e } }
pub proof fn e_zero()
  ensures ({ let e = DictionaryExtraUnit { loValues: 0, hiValues: 0 }; !efix(e) && !eused(e) })
{ assert(0u32 & 1 == 0) by(bit_vector); }
pub proof fn e_facts(e: DictionaryExtraUnit, n: u32)
  requires n < 0x8000_0000
  ensures
    ({ let f = e_next(e, n); efix(f) == efix(e) && enext(f) == n && eused(f) == eused(e) && eprev(f) == eprev(e) }),
    ({ let f = e_prev(e, n); efix(f) == efix(e) && enext(f) == enext(e) && eused(f) == eused(e) && eprev(f) == n }),
{ eu_bits(); }
// first unit that is not in a closed block
pub open spec fn wlo(nb: int) -> int { if nb >= 16 { (nb - 16) * 256 } else { 0 } }
pub open spec fn lo(db: DictionaryBuilder) -> int { wlo(db.extras@.len() as int) }
pub open spec fn nu(db: DictionaryBuilder) -> int { db.units@.len() as int }
pub open spec fn win(db: DictionaryBuilder, i: u32) -> bool { lo(db) <= i < nu(db) }
pub open spec fn ufix(db: DictionaryBuilder, i: u32) -> bool { i < nu(db) && (i < lo(db) || efix(at(db.extras@, i))) }
pub open spec fn free(db: DictionaryBuilder, i: u32) -> bool { win(db, i) && !efix(at(db.extras@, i)) }

// an unused unit that no offset in use can mistake for a child
pub open spec fn filler(db: DictionaryBuilder, i: u32) -> bool { lab(db.units@[i as int]) < 256 && !db.grp@.contains_key(i ^ lab(db.units@[i as int])) }
pub open spec fn linked(ex: EX, i: u32) -> bool { enext(at(ex, eprev(at(ex, i)))) == i && eprev(at(ex, enext(at(ex, i)))) == i }
pub open spec fn roomy(db: DictionaryBuilder, b: u32) -> bool { (exists|o: u32| sameblk(o, b) && !#[trigger] db.grp@.contains_key(o)) || (forall|i: u32| sameblk(i, b) ==> #[trigger] ufix(db, i)) }
// the shape of the tables
pub open spec fn shape(us: Seq<u32>, ex: EX) -> bool {
  &&& us.len() == 256 * ex.len() && us.len() < MAXLEN
  &&& forall|b: int| wlo(ex.len() as int) <= 256 * b && b < ex.len() ==> (#[trigger] ex[b])@.len() == 256
}
pub open spec fn lnk(db: DictionaryBuilder, i: u32) -> bool { free(db, i) ==> free(db, enext(at(db.extras@, i))) && free(db, eprev(at(db.extras@, i))) && linked(db.extras@, i) }
pub open spec fn links(db: DictionaryBuilder) -> bool {
  &&& forall|i: u32| #[trigger] lnk(db, i)
  &&& db.unfixedIndex == nu(db) || free(db, db.unfixedIndex)
}
#[verifier::opaque]
pub open spec fn awf(db: DictionaryBuilder) -> bool {
  &&& shape(db.units@, db.extras@)
  &&& links(db)
  &&& forall|i: u32| #[trigger] win(db, i) ==> eused(at(db.extras@, i)) == db.grp@.contains_key(i)
  &&& forall|i: u32| #[trigger] free(db, i) ==> db.units@[i as int] == 0
  &&& forall|o: u32| #[trigger] db.grp@.contains_key(o) ==> o < nu(db)
  &&& forall|b: u32| #[trigger] win(db, b) ==> roomy(db, b)
}
pub open spec fn aframe(s: DictionaryBuilder, t: DictionaryBuilder) -> bool {
  &&& t == (DictionaryBuilder { units: t.units, extras: t.extras, unfixedIndex: t.unfixedIndex, numOfUnusedUnits: t.numOfUnusedUnits, ..s })
  &&& nu(s) <= nu(t)
  &&& forall|i: u32| #[trigger] ufix(s, i) ==> ufix(t, i) && t.units@[i as int] == s.units@[i as int]
}
// only `index` was taken
pub open spec fn taken1(s: DictionaryBuilder, t: DictionaryBuilder, index: u32) -> bool {
  &&& aframe(s, t) && t.units@ == s.units@ && t.extras@.len() == s.extras@.len() && t.numOfUnusedUnits == s.numOfUnusedUnits
  &&& forall|i: u32| #[trigger] ufix(t, i) ==> ufix(s, i) || i == index
  &&& ufix(t, index)
}
// block b was closed
pub open spec fn closedblk(s: DictionaryBuilder, t: DictionaryBuilder, b: u32) -> bool {
  &&& aframe(s, t) && nu(t) == nu(s) && t.extras@.len() == s.extras@.len()
  &&& forall|i: u32| i < nu(t) && i / 256 == b ==> #[trigger] ufix(t, i)
  &&& forall|i: u32| #[trigger] ufix(t, i) && !ufix(s, i) ==> i / 256 == b && filler(t, i)
}
// a new block was opened
pub open spec fn opened1(s: DictionaryBuilder, t: DictionaryBuilder) -> bool {
  &&& aframe(s, t) && nu(t) == nu(s) + 256
  &&& forall|i: u32| #[trigger] ufix(t, i) ==> ufix(s, i) || (i < lo(t) && filler(t, i))
  &&& forall|i: u32| nu(s) <= i < nu(t) ==> #[trigger] free(t, i)
}
pub open spec fn reserved(s: DictionaryBuilder, t: DictionaryBuilder, index: u32) -> bool {
  &&& aframe(s, t) && nu(t) == (if index < nu(s) { nu(s) } else { nu(s) + 256 })
  &&& forall|i: u32| #[trigger] ufix(t, i) ==> ufix(s, i) || i == index || (i < lo(t) && filler(t, i))
  &&& win(t, index) && ufix(t, index) && t.units@[index as int] == 0
}
pub proof fn awf_at(db: DictionaryBuilder, i: u32)
  requires awf(db), win(db, i)
  ensures db.extras@[(i / 256) as int]@.len() == 256, i / 256 < db.extras@.len(), i < MAXLEN, nu(db) < MAXLEN, nu(db) == 256 * db.extras@.len(),
    !ufix(db, i) ==> free(db, i) && db.units@[i as int] == 0 && free(db, enext(at(db.extras@, i))) && free(db, eprev(at(db.extras@, i))) && linked(db.extras@, i),
    eused(at(db.extras@, i)) == db.grp@.contains_key(i), roomy(db, i)
{ reveal(awf); assert(lnk(db, i)); assert(256 * (i / 256) >= lo(db)); let b = db.extras@[(i / 256) as int]; }

pub proof fn reserve_pre(s: DictionaryBuilder, i: u32)
  requires awf(s), free(s, i)
  ensures ({ let p = eprev(at(s.extras@, i)); let q = enext(at(s.extras@, i)); let ex = s.extras@;
    &&& i / 256 < ex.len() && p / 256 < ex.len() && q / 256 < ex.len() && ex[(i / 256) as int]@.len() == 256 && ex[(p / 256) as int]@.len() == 256 && ex[(q / 256) as int]@.len() == 256
    &&& i < MAXLEN && p < MAXLEN && q < MAXLEN && s.units@[i as int] == 0 && win(s, i) })
{ awf_at(s, i); awf_at(s, eprev(at(s.extras@, i))); awf_at(s, enext(at(s.extras@, i))); }
// taking a unit out of the list
pub open spec fn unlinked(e: EX, f: EX, i: u32) -> bool {
  let p = eprev(at(e, i)); let q = enext(at(e, i));
  &&& f.len() == e.len() && forall|b: int| 0 <= b < e.len() ==> (#[trigger] f[b])@.len() == e[b]@.len()
  &&& forall|x: u32| efix(#[trigger] at(f, x)) == (efix(at(e, x)) || x == i)
  &&& forall|x: u32| eused(#[trigger] at(f, x)) == eused(at(e, x))
  &&& forall|x: u32| enext(#[trigger] at(f, x)) == (if x == p { q } else { enext(at(e, x)) })
  &&& forall|x: u32| eprev(#[trigger] at(f, x)) == (if x == q { p } else { eprev(at(e, x)) })
}
pub proof fn unlink1(s: DictionaryBuilder, t: DictionaryBuilder, index: u32, i: u32)
  requires awf(s), free(s, index), unlinked(s.extras@, t.extras@, index), free(s, i), i != index, forall|x: u32| #[trigger] free(t, x) == (free(s, x) && x != index)
  ensures ({ let f = t.extras@; free(t, enext(at(f, i))) && free(t, eprev(at(f, i))) && linked(f, i) })
{
  let e = s.extras@; let f = t.extras@;
  awf_at(s, index); awf_at(s, i);
  let p = eprev(at(e, index)); let q = enext(at(e, index));
  let a = eprev(at(e, i)); let b = enext(at(e, i));
  awf_at(s, p); awf_at(s, q); awf_at(s, a); awf_at(s, b);
  let v = at(f, i); let w = at(f, a); let x = at(f, b); let y = at(f, p); let z = at(f, q);
  assert(free(t, i));
}
pub proof fn unlink(s: DictionaryBuilder, t: DictionaryBuilder, index: u32)
  requires awf(s), free(s, index), unlinked(s.extras@, t.extras@, index), t == (DictionaryBuilder { extras: t.extras, unfixedIndex: t.unfixedIndex, ..s }),
    t.unfixedIndex == (if index != s.unfixedIndex { s.unfixedIndex } else if enext(at(s.extras@, index)) == index { nu(s) as u32 } else { enext(at(s.extras@, index)) })
  ensures awf(t), taken1(s, t, index)
{
  awf_at(s, index);
  reveal(awf);
  let e = s.extras@; let f = t.extras@;
  assert forall|b: int| wlo(f.len() as int) <= 256 * b && b < f.len() implies (#[trigger] f[b])@.len() == 256 by { assert(e[b]@.len() == 256); }
  assert forall|i: u32| #[trigger] free(t, i) == (free(s, i) && i != index) by { let x = at(f, i); }
  assert forall|i: u32| #[trigger] ufix(t, i) == (ufix(s, i) || i == index) by { let x = at(f, i); }
  assert forall|i: u32| #[trigger] lnk(t, i) by { if free(t, i) { unlink1(s, t, index, i); } }
  assert forall|i: u32| #[trigger] win(t, i) implies eused(at(f, i)) == t.grp@.contains_key(i) by { assert(win(s, i)); let x = at(f, i); }
  assert forall|b: u32| #[trigger] win(t, b) implies roomy(t, b) by {
    assert(win(s, b)); assert(roomy(s, b));
    if !(exists|o: u32| sameblk(o, b) && !#[trigger] s.grp@.contains_key(o)) {
      assert forall|i: u32| sameblk(i, b) implies #[trigger] ufix(t, i) by { assert(ufix(s, i)); }
    }
  }
}
// a unit that is taken gets its content
pub proof fn awf_units(s: DictionaryBuilder, t: DictionaryBuilder, i: u32)
  requires awf(s), ufix(s, i), t == (DictionaryBuilder { units: t.units, numOfUnusedUnits: t.numOfUnusedUnits, ..s }), t.units@ == s.units@.update(i as int, t.units@[i as int])
  ensures awf(t), forall|x: u32| #[trigger] ufix(t, x) == ufix(s, x), forall|x: u32| #[trigger] free(t, x) == free(s, x), lo(t) == lo(s), nu(t) == nu(s)
{
  reveal(awf);
  assert forall|x: u32| #[trigger] ufix(t, x) == ufix(s, x) by {}
  assert forall|x: u32| #[trigger] free(t, x) == free(s, x) by {}
  assert forall|x: u32| #[trigger] lnk(t, x) by { assert(lnk(s, x)); }
  assert forall|x: u32| #[trigger] win(t, x) implies eused(at(t.extras@, x)) == t.grp@.contains_key(x) by { assert(win(s, x)); }
  assert forall|b: u32| #[trigger] win(t, b) implies roomy(t, b) by {
    assert(win(s, b)); assert(roomy(s, b));
    if !(exists|o: u32| sameblk(o, b) && !#[trigger] s.grp@.contains_key(o)) {
      assert forall|i: u32| sameblk(i, b) implies #[trigger] ufix(t, i) by { assert(ufix(s, i)); }
    }
  }
}
pub open spec fn ft(db: DictionaryBuilder, n: int, u: u32, b: u32) -> bool { forall|i: u32| i / 256 == b && i < n ==> #[trigger] ufix(db, i) }
pub proof fn fill_label(i: u32, u: u32, l: u8, w: u32)
  requires i / 256 == u / 256, l == (i ^ u) as u8, w == setlab(0, l)
  ensures lab(w) == l as u32, i ^ lab(w) == u, lab(w) < 256
{
  assert(l as u32 == (i ^ u) && ((0u32 & 0xffff_ff00) | (l as u32)) & 0x8000_00ff == (l as u32) && (i ^ (l as u32)) == u) by(bit_vector) requires i / 256 == u / 256, l == (i ^ u) as u8;
}
pub proof fn shape_of(s: DictionaryBuilder)
  requires awf(s)
  ensures shape(s.units@, s.extras@), lo(s) <= nu(s), s.unfixedIndex == nu(s) || free(s, s.unfixedIndex)
{ reveal(awf); }
// one entry changed
pub open spec fn upd(e: EX, f: EX, i: u32, x: DictionaryExtraUnit) -> bool {
  &&& f.len() == e.len() && forall|b: int| 0 <= b < e.len() ==> (#[trigger] f[b])@.len() == e[b]@.len()
  &&& at(f, i) == x
  &&& forall|y: u32| y != i ==> #[trigger] at(f, y) == at(e, y)
}
pub open spec fn last0(s: DictionaryBuilder) -> u32 { if s.unfixedIndex == nu(s) { (nu(s) + 255) as u32 } else { eprev(at(s.extras@, s.unfixedIndex)) } }
// the lists of the new block and of the old ones joined
pub open spec fn joined(s: DictionaryBuilder, f: EX) -> bool {
  let n = nu(s); let e = s.extras@; let u = s.unfixedIndex; let l = last0(s);
  &&& forall|x: u32| wlo(e.len() as int + 1) <= x < n ==> efix(#[trigger] at(f, x)) == efix(at(e, x))
  &&& forall|x: u32| wlo(e.len() as int + 1) <= x < n ==> eused(#[trigger] at(f, x)) == eused(at(e, x))
  &&& forall|x: u32| wlo(e.len() as int + 1) <= x < n ==> enext(#[trigger] at(f, x)) == (if x == l { n as u32 } else { enext(at(e, x)) })
  &&& forall|x: u32| wlo(e.len() as int + 1) <= x < n ==> eprev(#[trigger] at(f, x)) == (if x == u { (n + 255) as u32 } else { eprev(at(e, x)) })
  &&& forall|x: u32| n <= x < n + 256 ==> !efix(#[trigger] at(f, x)) && !eused(at(f, x))
  &&& forall|x: u32| n <= x < n + 256 ==> enext(#[trigger] at(f, x)) == (if x == n + 255 { u } else { (x + 1) as u32 })
  &&& forall|x: u32| n <= x < n + 256 ==> eprev(#[trigger] at(f, x)) == (if x == n { l } else { (x - 1) as u32 })
}
pub proof fn expand_u(s: DictionaryBuilder, f: EX)
  requires awf(s), forall|i: u32| lo(s) <= i < wlo(s.extras@.len() as int + 1) ==> #[trigger] ufix(s, i)
  ensures ({ let u = s.unfixedIndex; let l = last0(s); wlo(s.extras@.len() as int + 1) <= u <= nu(s) && wlo(s.extras@.len() as int + 1) <= l < nu(s) + 256 && (u < nu(s) ==> l < nu(s)) })
{ shape_of(s); let u = s.unfixedIndex; if u != nu(s) { u_at(s); if u < wlo(s.extras@.len() as int + 1) { assert(ufix(s, u)); } if last0(s) < wlo(s.extras@.len() as int + 1) { assert(ufix(s, last0(s))); } } }
pub proof fn join_chain(s: DictionaryBuilder, e3: EX, e4: EX, e5: EX, e6: EX, e7: EX, e8: EX, e9: EX)
  requires
    awf(s), nu(s) + 256 <= MAXLEN, wlo(s.extras@.len() as int + 1) <= last0(s) < nu(s) + 256, s.unfixedIndex <= nu(s), s.unfixedIndex < nu(s) ==> last0(s) < nu(s),
    forall|x: u32| wlo(s.extras@.len() as int + 1) <= x < nu(s) ==> #[trigger] at(e3, x) == at(s.extras@, x),
    forall|x: u32| nu(s) <= x < nu(s) + 256 ==> !efix(#[trigger] at(e3, x)), forall|x: u32| nu(s) <= x < nu(s) + 256 ==> !eused(#[trigger] at(e3, x)),
    forall|x: u32| nu(s) <= x < nu(s) + 255 ==> enext(#[trigger] at(e3, x)) == x + 1,
    forall|x: u32| nu(s) < x < nu(s) + 256 ==> eprev(#[trigger] at(e3, x)) == x - 1,
    ({ let k0 = nu(s) as u32; let k1 = (nu(s) + 255) as u32; let u = s.unfixedIndex; let l = last0(s);
      &&& upd(e3, e4, k0, e_prev(at(e3, k0), k1)) && upd(e4, e5, k1, e_next(at(e4, k1), k0)) && upd(e5, e6, k0, e_prev(at(e5, k0), l))
      &&& upd(e6, e7, k1, e_next(at(e6, k1), u)) && upd(e7, e8, l, e_next(at(e7, l), k0)) && upd(e8, e9, u, e_prev(at(e8, u), k1)) }),
  ensures joined(s, e9)
{
  hide(e_next); hide(e_prev); hide(efix); hide(eused); hide(enext); hide(eprev);
  let n = nu(s); let k0 = n as u32; let k1 = (n + 255) as u32; let u = s.unfixedIndex; let l = last0(s);
  e_facts(at(e3, k0), k1); e_facts(at(e4, k1), k0); e_facts(at(e5, k0), l); e_facts(at(e6, k1), u); e_facts(at(e7, l), k0); e_facts(at(e8, u), k1);
  assert forall|x: u32| wlo(s.extras@.len() as int + 1) <= x < n implies #[trigger] efix(at(e9, x)) == efix(at(s.extras@, x)) && eused(at(e9, x)) == eused(at(s.extras@, x)) && enext(at(e9, x)) == (if x == l { k0 } else { enext(at(s.extras@, x)) })
    && eprev(at(e9, x)) == (if x == u { k1 } else { eprev(at(s.extras@, x)) }) by { assert(at(e3, x) == at(s.extras@, x)); let a = at(e4, x); let b = at(e5, x); let c = at(e6, x); let d = at(e7, x); let e = at(e8, x); }
  assert forall|x: u32| n <= x < n + 256 implies !efix(#[trigger] at(e9, x)) && !eused(at(e9, x)) && enext(at(e9, x)) == (if x == k1 { u } else { (x + 1) as u32 }) && eprev(at(e9, x)) == (if x == k0 { l } else { (x - 1) as u32 }) by {
    let z = at(e3, x); let a = at(e4, x); let b = at(e5, x); let c = at(e6, x); let d = at(e7, x); let e = at(e8, x); }
}
pub open spec fn zeros() -> Seq<u32> { Seq::new(256, |x: int| 0u32) }
pub open spec fn jat(s: DictionaryBuilder, f: EX, x: u32) -> bool {
  let n = nu(s); let e = s.extras@; let u = s.unfixedIndex; let l = last0(s);
  if x < n { enext(at(f, x)) == (if x == l { n as u32 } else { enext(at(e, x)) }) && eprev(at(f, x)) == (if x == u { (n + 255) as u32 } else { eprev(at(e, x)) }) }
  else { enext(at(f, x)) == (if x == n + 255 { u } else { (x + 1) as u32 }) && eprev(at(f, x)) == (if x == n { l } else { (x - 1) as u32 }) }
}
pub open spec fn jpre(s: DictionaryBuilder, t: DictionaryBuilder) -> bool {
  &&& awf(s) && nu(t) == nu(s) + 256 && nu(s) < MAXLEN && (s.unfixedIndex == nu(s) || free(s, s.unfixedIndex))
  &&& forall|x: u32| lo(t) <= x < nu(t) ==> #[trigger] jat(s, t.extras@, x)
  &&& forall|x: u32| #[trigger] free(s, x) ==> free(t, x)
  &&& forall|x: u32| nu(s) <= x < nu(t) ==> #[trigger] free(t, x)
  &&& lo(t) <= nu(s) && lo(s) >= 0
}
pub proof fn u_at(s: DictionaryBuilder)
  requires awf(s), s.unfixedIndex != nu(s)
  ensures free(s, s.unfixedIndex), free(s, last0(s)), enext(at(s.extras@, last0(s))) == s.unfixedIndex, eprev(at(s.extras@, s.unfixedIndex)) == last0(s)
{ shape_of(s); awf_at(s, s.unfixedIndex); }
pub proof fn expand_old(s: DictionaryBuilder, t: DictionaryBuilder, i: u32)
  requires jpre(s, t), free(s, i)
  ensures ({ let f = t.extras@; free(t, enext(at(f, i))) && free(t, eprev(at(f, i))) && linked(f, i) })
{
  let e = s.extras@; let f = t.extras@; let n = nu(s); let u = s.unfixedIndex; let l = last0(s);
  awf_at(s, i);
  let p = eprev(at(e, i)); let q = enext(at(e, i));
  if u != n { u_at(s); assert(free(t, u) && free(t, l)); }
  let k0 = n as u32; let k1 = (n + 255) as u32;
  assert(free(t, i) && free(t, p) && free(t, q) && free(t, k0) && free(t, k1));
  assert(jat(s, f, i)); assert(jat(s, f, p)); assert(jat(s, f, q)); assert(jat(s, f, k0)); assert(jat(s, f, k1));
  awf_at(s, p); awf_at(s, q);
}
pub proof fn expand_new(s: DictionaryBuilder, t: DictionaryBuilder, i: u32)
  requires jpre(s, t), nu(s) <= i < nu(t)
  ensures ({ let f = t.extras@; free(t, enext(at(f, i))) && free(t, eprev(at(f, i))) && linked(f, i) })
{
  let f = t.extras@; let n = nu(s); let u = s.unfixedIndex; let l = last0(s);
  let k0 = n as u32; let k1 = (n + 255) as u32;
  assert(free(t, k0) && free(t, k1));
  if u != n { u_at(s); assert(free(t, u) && free(t, l)); }
  assert(jat(s, f, u)); assert(jat(s, f, l)); assert(jat(s, f, i));
  if i != k1 { let x = (i + 1) as u32; assert(free(t, x)); assert(jat(s, f, x)); }
  if i != k0 { let x = (i - 1) as u32; assert(free(t, x)); assert(jat(s, f, x)); }
}
pub proof fn expand_links(s: DictionaryBuilder, t: DictionaryBuilder)
  requires awf(s), t == (DictionaryBuilder { units: t.units, extras: t.extras, ..s }), t.units@ == s.units@ + zeros(), t.extras@.len() == s.extras@.len() + 1, joined(s, t.extras@),
    forall|i: u32| lo(s) <= i < lo(t) ==> #[trigger] ufix(s, i)
  ensures links(t), forall|i: u32| i >= lo(t) && i < nu(s) ==> #[trigger] free(t, i) == free(s, i), forall|i: u32| #[trigger] ufix(t, i) == (ufix(s, i) && i < nu(s)),
    forall|i: u32| nu(s) <= i < nu(t) ==> #[trigger] free(t, i)
{
  reveal(awf);
  let e = s.extras@; let f = t.extras@; let n = nu(s);
  assert(lo(t) <= n);
  assert forall|i: u32| i >= lo(t) && i < nu(s) implies #[trigger] free(t, i) == free(s, i) by { let x = at(f, i); }
  assert forall|i: u32| nu(s) <= i < nu(t) implies #[trigger] free(t, i) by { let x = at(f, i); }
  assert forall|i: u32| #[trigger] ufix(t, i) == (ufix(s, i) && i < nu(s)) by { let x = at(f, i); }
  assert forall|i: u32| #[trigger] free(s, i) implies i >= lo(t) && free(t, i) by { if i < lo(t) { assert(ufix(s, i)); } let x = at(f, i); }
  assert forall|x: u32| lo(t) <= x < nu(t) implies #[trigger] jat(s, f, x) by { let z = at(f, x); }
  assert(jpre(s, t)) by { shape_of(s); }
  if s.unfixedIndex != n { assert(free(s, s.unfixedIndex)); }
  assert forall|i: u32| #[trigger] lnk(t, i) by { if !free(t, i) { } else if i < n { assert(free(s, i)); expand_old(s, t, i); } else { expand_new(s, t, i); } }
}
pub proof fn expand_done(s: DictionaryBuilder, t: DictionaryBuilder)
  requires awf(s), t == (DictionaryBuilder { units: t.units, extras: t.extras, ..s }), t.units@ == s.units@ + zeros(), t.extras@.len() == s.extras@.len() + 1, joined(s, t.extras@), shape(t.units@, t.extras@),
    forall|i: u32| lo(s) <= i < lo(t) ==> #[trigger] ufix(s, i)
  ensures awf(t), forall|i: u32| #[trigger] ufix(t, i) == (ufix(s, i) && i < nu(s)), forall|i: u32| nu(s) <= i < nu(t) ==> #[trigger] free(t, i)
{
  expand_links(s, t);
  reveal(awf);
  let e = s.extras@; let f = t.extras@; let n = nu(s);
  assert forall|i: u32| #[trigger] win(t, i) implies eused(at(f, i)) == t.grp@.contains_key(i) by { let x = at(f, i); if i < n { assert(win(s, i)); } }
  assert forall|i: u32| #[trigger] free(t, i) implies t.units@[i as int] == 0 by { if i < n { assert(free(s, i)); } }
  assert forall|b: u32| #[trigger] win(t, b) implies roomy(t, b) by {
    if b >= n { assert(!t.grp@.contains_key(b)); assert(sameblk(b, b)); }
    else {
      assert(win(s, b)); assert(roomy(s, b));
      if !(exists|o: u32| sameblk(o, b) && !#[trigger] s.grp@.contains_key(o)) {
        assert forall|i: u32| sameblk(i, b) implies #[trigger] ufix(t, i) by { assert(ufix(s, i)); }
      }
    }
  }
}
pub open spec fn seq_at(f: EX, n: int, x: u32) -> bool { !efix(at(f, x)) && !eused(at(f, x)) && enext(at(f, x)) == x + 1 && (x > n ==> eprev(at(f, x)) == x - 1) }
@end
@raw
// ---------------------------------------------------------------- the choice of an offset
pub proof fn nodup_len(s: Seq<u32>, n: int)
  requires s.no_duplicates(), forall|j: int| 0 <= j < s.len() ==> #[trigger] s[j] < n, n >= 0
  ensures s.len() <= n
{
  let t = Seq::new(s.len(), |j: int| s[j] as int);
  assert(t.no_duplicates());
  t.unique_seq_to_set();
  vstd::set_lib::lemma_int_range(0, n);
  assert(t.to_set().subset_of(vstd::set_lib::set_int_range(0, n)));
  vstd::set_lib::lemma_len_subset(t.to_set(), vstd::set_lib::set_int_range(0, n));
}
pub open spec fn rel_ok(r: u32) -> bool { r & 0xff == 0 || r < 0x20_0000 }
pub open spec fn members_free(db: DictionaryBuilder, o: u32, from: int) -> bool { forall|j: int| from <= j < db.labels@.len() ==> free(db, o ^ (#[trigger] db.labels@[j] as u32)) }
pub open spec fn good(db: DictionaryBuilder, index: u32, o: u32) -> bool {
  &&& win(db, o) && !db.grp@.contains_key(o) && rel_ok(index ^ o)
  &&& members_free(db, o, 0)
}
pub open spec fn fresh_off(db: DictionaryBuilder, index: u32, o: u32) -> bool { o == nu(db) + index % 256 && rel_ok(index ^ o) }
pub proof fn xor_blk(o: u32, l: u8)
  ensures sameblk(o ^ (l as u32), o), (o ^ (l as u32)) ^ (l as u32) == o
{ assert((o ^ (l as u32)) / 256 == o / 256 && (o ^ (l as u32)) ^ (l as u32) == o) by(bit_vector); }
pub proof fn blk_win(db: DictionaryBuilder, a: u32, b: u32)
  requires shape(db.units@, db.extras@), win(db, a), sameblk(a, b)
  ensures win(db, b)
{ }
pub proof fn rel_bits(r: u32)
  ensures (r & 255 != 0 && r & 0xffe0_0000 != 0) == !rel_ok(r)
{ assert((r & 0xffe0_0000 != 0) == (r >= 0x20_0000)) by(bit_vector); }
pub proof fn new_off(n: u32, i: u32)
  requires n % 256 == 0, n < 0x2000_0000
  ensures (n | (i & 255)) == n + i % 256, rel_ok(i ^ (n | (i & 255)))
{
  assert((n | (i & 255)) == n + i % 256 && (i ^ (n | (i & 255))) & 0xff == 0) by(bit_vector) requires n % 256 == 0, n < 0x2000_0000;
}
pub open spec fn trail(db: DictionaryBuilder, s: Seq<u32>) -> bool {
  &&& s.len() >= 1 && s[0] == db.unfixedIndex && s.no_duplicates()
  &&& forall|j: int| 0 <= j < s.len() ==> free(db, #[trigger] s[j])
  &&& forall|j: int| 0 < j < s.len() ==> eprev(at(db.extras@, #[trigger] s[j])) == s[j - 1]
}
pub proof fn trail_step(db: DictionaryBuilder, s: Seq<u32>)
  requires awf(db), trail(db, s)
  ensures ({ let q = enext(at(db.extras@, s.last())); free(db, q) && s.len() <= nu(db) && (q != db.unfixedIndex ==> trail(db, s.push(q))) })
{
  let l = s.last();
  assert(free(db, s[s.len() - 1]));
  awf_at(db, l);
  let q = enext(at(db.extras@, l));
  nodup_len(s, nu(db));
  if q != db.unfixedIndex {
    let t = s.push(q);
    assert forall|j: int| 0 <= j < s.len() implies s[j] != q by {
      if s[j] == q && j > 0 { assert(eprev(at(db.extras@, s[j])) == s[j - 1]); assert(s[j - 1] == s[s.len() - 1]); }
    }
    assert(t.no_duplicates());
  }
}
@end
@raw
// ---------------------------------------------------------------- units
pub open spec fn setoff(u: u32, o: u32) -> u32 { if o < 0x20_0000 { (u & 0x8000_01ff) | (o << 10) } else { (u & 0x8000_01ff) | (o << 2) | 0x200 } }
pub proof fn setoff_props(u: u32, o: u32)
  requires rel_ok(o), o < 0x2000_0000, lab(u) < 256
  ensures off(setoff(u, o)) == o, lab(setoff(u, o)) == lab(u), hasleaf(setoff(u, o)) == hasleaf(u)
{
  if o < 0x20_0000 {
    assert(({ let w = (u & 0x8000_01ff) | (o << 10); (w >> 10) << ((w & 0x200) >> 6) == o && w & 0x8000_00ff == u & 0x8000_00ff && w & 0x100 == u & 0x100 })) by(bit_vector) requires o < 0x20_0000, u & 0x8000_00ff < 256;
  } else {
    assert(({ let w = (u & 0x8000_01ff) | (o << 2) | 0x200; (w >> 10) << ((w & 0x200) >> 6) == o && w & 0x8000_00ff == u & 0x8000_00ff && w & 0x100 == u & 0x100 })) by(bit_vector) requires o >= 0x20_0000, o & 0xff == 0, o < 0x2000_0000, u & 0x8000_00ff < 256;
  }
}
pub open spec fn setlab(u: u32, l: u8) -> u32 { (u & 0xffff_ff00) | (l as u32) }
pub proof fn setlab_props(l: u8)
  ensures lab(setlab(0, l)) == l as u32, !hasleaf(setlab(0, l)), off(setlab(0, l)) == 0
{ assert(({ let w = (0u32 & 0xffff_ff00) | (l as u32); (w >> 10) << ((w & 0x200) >> 6) == 0 && w & 0x8000_00ff == (l as u32) && w & 0x100 == 0 })) by(bit_vector); }
pub proof fn setleaf_props(u: u32)
  ensures off(u | 0x100) == off(u), lab(u | 0x100) == lab(u), hasleaf(u | 0x100)
{ assert(({ let w = u | 0x100; (w >> 10) << ((w & 0x200) >> 6) == (u >> 10) << ((u & 0x200) >> 6) && w & 0x8000_00ff == u & 0x8000_00ff && w & 0x100 != 0 })) by(bit_vector); }
@end
@raw
// ---------------------------------------------------------------- what is placed where
pub open spec fn dinv(d: Dawg) -> bool { dwf(dgd(d)) && fp_ok(d.flagPool) && d.flagPool.size == d.basePool@.len() && d.numOfMergingStates == nset(bits(d.flagPool)) }
// the transition that unit i is for, if i belongs to group g at offset o
pub open spec fn mt(d: DG, g: int, o: u32, i: u32) -> Option<int> { if inblk(o, i) { scan(d, g, (i ^ o) as u8) } else { None } }
pub open spec fn content(db: DictionaryBuilder, i: u32, t: int) -> bool {
  let d = dgd(db.dawg); let u = db.units@[i as int];
  if d.leaf(t) { u == leafunit(d.val(t)) }
  else {
    &&& lab(u) == ulab(d, i, t)
    &&& if db.done@.contains(i) { let ob = i ^ off(u); ob != 0 && db.grp@.contains_key(ob) && db.grp@[ob] == d.child(t) && hasleaf(u) == leafat(d, d.child(t)) } else { !hasleaf(u) }
  }
}
pub open spec fn node_ok(db: DictionaryBuilder, i: u32) -> bool {
  let d = dgd(db.dawg); let o = db.nd@[i].0; let t = db.nd@[i].1;
  &&& ufix(db, i) && content(db, i, t) && 0 <= t < d.len()
  &&& if i == 0 { o == 0 && t == 0 } else { o != 0 && db.grp@.contains_key(o) && db.grp@[o] != 0 && in_group(d, db.grp@[o], t) && i == memb(d, o, t) }
}
pub open spec fn has_member(db: DictionaryBuilder, o: u32, t: int) -> bool { let i = memb(dgd(db.dawg), o, t); db.nd@.contains_key(i) && db.nd@[i] == (o, t) }
pub open spec fn grp_ok(db: DictionaryBuilder, o: u32) -> bool {
  let d = dgd(db.dawg); let g = db.grp@[o];
  if g == 0 { o == 0 || d.len() == 1 }
  else { o != 0 && start(d, g) && forall|t: int| in_group(d, g, t) ==> #[trigger] has_member(db, o, t) }
}
pub open spec fn slot_ok(db: DictionaryBuilder, x: int) -> bool {
  let p = db.linkTable.hashTable@[x];
  if p.index == 0 { p.offset == 0 } else { merging(db.dawg, p.index) && (p.offset != 0 ==> db.grp@.contains_key(p.offset) && db.grp@[p.offset] == p.index) }
}
pub open spec fn merging(d: Dawg, v: u32) -> bool { v < d.flagPool.size && bits(d.flagPool)[v as int] }
pub open spec fn table_ok(db: DictionaryBuilder) -> bool {
  &&& forall|x: int| 0 <= x < db.linkTable.hashTable@.len() ==> #[trigger] slot_ok(db, x)
  &&& db.linkTable.hashTable@.len() == db.dawg.numOfMergingStates + db.dawg.numOfMergingStates / 2
  &&& lt_ok(db.linkTable.hashTable@)
}
#[verifier::opaque]
pub open spec fn placed_ok(db: DictionaryBuilder) -> bool {
  &&& db.nd@.contains_key(0) && db.grp@.contains_key(0) && db.grp@[0] == 0
  &&& forall|i: u32| #[trigger] db.nd@.contains_key(i) ==> node_ok(db, i)
  &&& forall|o: u32| #[trigger] db.grp@.contains_key(o) ==> grp_ok(db, o)
  &&& forall|i: u32| #[trigger] ufix(db, i) && i >= lo(db) ==> db.nd@.contains_key(i)
  &&& forall|i: u32| #[trigger] ufix(db, i) && !db.nd@.contains_key(i) ==> filler(db, i)
  &&& forall|i: u32| #[trigger] db.done@.contains(i) ==> db.nd@.contains_key(i)
}
pub open spec fn dbok(db: DictionaryBuilder) -> bool { dinv(db.dawg) && awf(db) && placed_ok(db) && table_ok(db) }

pub proof fn memb_mt(d: DG, g: int, o: u32, i: u32, t: int)
  requires pwf(d), 0 < g < d.len()
  ensures
    mt(d, g, o, i) matches Some(x) ==> in_group(d, g, x) && i == memb(d, o, x),
    in_group(d, g, t) ==> mt(d, g, o, memb(d, o, t)) == Some(t),
{
  xor_facts(o, i, 0);
  if inblk(o, i) { scan_props(d, g, (i ^ o) as u8); }
  if in_group(d, g, t) { gend_bounds(d, g); group_member(d, g, t); xor_facts(o, i, d.label[t]); }
}
// ---- the members placed so far
pub open spec fn content0(d: DG, u: u32, t: int) -> bool { if d.leaf(t) { u == leafunit(d.val(t)) } else { lab(u) == d.label[t] as u32 && !hasleaf(u) } }
pub open spec fn put(s: DictionaryBuilder, m: DictionaryBuilder, o: u32, t: int) -> bool {
  let d = dgd(s.dawg); let i = memb(d, o, t);
  !ufix(s, i) && win(m, i) && ufix(m, i) && content0(d, m.units@[i as int], t)
}
pub open spec fn openm(m: DictionaryBuilder, o: u32, t: int) -> bool { free(m, memb(dgd(m.dawg), o, t)) }
pub open spec fn newfix(s: DictionaryBuilder, m: DictionaryBuilder, o: u32, c: int, k: int, i: u32) -> bool {
  ufix(s, i) || (i < lo(m) && filler(m, i)) || (mt(dgd(s.dawg), c, o, i) matches Some(t) && t < c + k)
}
pub open spec fn kept(s: DictionaryBuilder, m: DictionaryBuilder, ix: u32, i: u32) -> bool { ufix(m, i) && (i != ix ==> m.units@[i as int] == s.units@[i as int]) }
pub open spec fn putk(s: DictionaryBuilder, m: DictionaryBuilder, ix: u32, o: u32, c: int, k: int) -> bool {
  let d = dgd(s.dawg); let u = m.units@[ix as int];
  &&& m == (DictionaryBuilder { units: m.units, extras: m.extras, unfixedIndex: m.unfixedIndex, numOfUnusedUnits: m.numOfUnusedUnits, labels: m.labels, ..s })
  &&& awf(m) && nu(s) <= nu(m) && 0 <= k
  &&& ufix(s, ix) && lab(u) == lab(s.units@[ix as int]) && off(u) == ix ^ o && hasleaf(u) == (k > 0 && d.leaf(c))
  &&& forall|i: u32| #[trigger] ufix(s, i) ==> kept(s, m, ix, i)
  &&& forall|i: u32| #[trigger] ufix(m, i) ==> newfix(s, m, o, c, k, i)
  &&& forall|t: int| c <= t < c + k ==> #[trigger] put(s, m, o, t)
  &&& if o < nu(m) { win(m, o) && forall|t: int| c + k <= t <= gend(d, c) ==> #[trigger] openm(m, o, t) } else { k == 0 && nu(m) == nu(s) && o == nu(s) + ix % 256 }
}
pub open spec fn step_units(d: DG, m2: DictionaryBuilder, m3: DictionaryBuilder, ix: u32, o: u32, t: int) -> bool {
  let i = memb(d, o, t) as int; let us = m2.units@;
  m3.units@ == (if d.leaf(t) { us.update(ix as int, us[ix as int] | 0x100).update(i, leafunit(d.val(t))) } else { us.update(i, setlab(us[i], d.label[t])) })
}
pub proof fn put_pre(s: DictionaryBuilder, m: DictionaryBuilder, ix: u32, o: u32, c: int, k: int)
  requires putk(s, m, ix, o, c, k), pwf(dgd(s.dawg)), start(dgd(s.dawg), c), c + k <= gend(dgd(s.dawg), c)
  ensures ({ let i = memb(dgd(s.dawg), o, c + k); i < nu(m) + 256 && (i < nu(m) ==> free(m, i)) && !ufix(s, i) && i != ix && sameblk(o, i) && ix < nu(m) })
{
  let d = dgd(s.dawg); let i = memb(d, o, c + k);
  xor_facts(o, i, d.label[c + k]);
  shape_of(m);
  if o < nu(m) { assert(openm(m, o, c + k)); assert(sameblk(o, i)); }
  if ufix(s, i) { assert(kept(s, m, ix, i)); }
  assert(kept(s, m, ix, ix));
}
pub proof fn put_step(s: DictionaryBuilder, m: DictionaryBuilder, m2: DictionaryBuilder, m3: DictionaryBuilder, ix: u32, o: u32, c: int, k: int)
  requires putk(s, m, ix, o, c, k), pwf(dgd(s.dawg)), start(dgd(s.dawg), c), c + k <= gend(dgd(s.dawg), c),
    awf(m2), reserved(m, m2, memb(dgd(s.dawg), o, c + k)), memb(dgd(s.dawg), o, c + k) < nu(m) ==> taken1(m, m2, memb(dgd(s.dawg), o, c + k)),
    m3 == (DictionaryBuilder { units: m3.units, ..m2 }), step_units(dgd(s.dawg), m2, m3, ix, o, c + k)
  ensures putk(s, m3, ix, o, c, k + 1)
{
  let d = dgd(s.dawg); let tk = c + k; let i = memb(d, o, tk);
  put_pre(s, m, ix, o, c, k);
  gend_bounds(d, c);
  group_member(d, c, tk);
  xor_facts(o, i, d.label[tk]);
  shape_of(m); shape_of(m2);
  assert(kept(s, m, ix, ix));
  assert(ufix(m2, ix));
  setlab_props(d.label[tk]);
  setleaf_props(m2.units@[ix as int]);
  put_awf(m2, m3, ix, i);
  assert forall|x: u32| #[trigger] ufix(s, x) implies kept(s, m3, ix, x) by { assert(kept(s, m, ix, x)); assert(ufix(m, x)); assert(ufix(m2, x)); }
  assert forall|x: u32| #[trigger] ufix(m3, x) implies newfix(s, m3, o, c, k + 1, x) by {
    assert(ufix(m2, x));
    if x == i { memb_mt(d, c, o, x, tk); }
    else if ufix(m, x) { assert(newfix(s, m, o, c, k, x)); assert(kept(s, m, ix, x) || !ufix(s, x)); if !ufix(s, x) { assert(x != ix); assert(m3.units@[x as int] == m.units@[x as int]); } }
    else { assert(x < lo(m2) && filler(m2, x)); assert(x != ix) by { assert(ufix(m, ix)); } assert(m3.units@[x as int] == m2.units@[x as int]); }
  }
  assert forall|t: int| c <= t < c + (k + 1) implies #[trigger] put(s, m3, o, t) by {
    group_member(d, c, t);
    if t < tk {
      assert(put(s, m, o, t));
      let y = memb(d, o, t);
      assert(ufix(m, y)); assert(ufix(m2, y));
      assert(y != i) by { xor_facts(o, y, d.label[t]); scan_props(d, t, 0); assert(d.label[t] < d.label[tk]); }
      assert(y != ix);
    }
  }
  assert(win(m3, o)) by { blk_win(m3, i, o); }
  assert forall|t: int| c + (k + 1) <= t <= gend(d, c) implies #[trigger] openm(m3, o, t) by {
    let y = memb(d, o, t);
    xor_facts(o, y, d.label[t]);
    group_member(d, c, t);
    assert(y != i) by { scan_props(d, tk, 0); assert(d.label[tk] < d.label[t]); }
    blk_win(m3, o, y);
    if o < nu(m) { assert(openm(m, o, t)); }
    assert(!ufix(m, y));
    if ufix(m3, y) { assert(ufix(m2, y)); }
  }
  assert(hasleaf(m3.units@[ix as int]) == d.leaf(c)) by { if k > 0 { scan_props(d, c, 0); assert(d.label[c] < d.label[tk]); } }
}
// contents of taken units do not matter for the allocation
pub proof fn put_awf(s: DictionaryBuilder, t: DictionaryBuilder, i: u32, j: u32)
  requires awf(s), ufix(s, i), ufix(s, j), t == (DictionaryBuilder { units: t.units, ..s }), t.units@.len() == s.units@.len(), forall|x: int| 0 <= x < s.units@.len() && x != i && x != j ==> #[trigger] t.units@[x] == s.units@[x]
  ensures awf(t), forall|x: u32| #[trigger] ufix(t, x) == ufix(s, x), forall|x: u32| #[trigger] free(t, x) == free(s, x), lo(t) == lo(s), nu(t) == nu(s)
{
  let u = DictionaryBuilder { units: t.units, ..s };
  reveal(awf);
  assert forall|x: u32| #[trigger] ufix(t, x) == ufix(s, x) by {}
  assert forall|x: u32| #[trigger] free(t, x) == free(s, x) by {}
  assert forall|x: u32| #[trigger] lnk(t, x) by { assert(lnk(s, x)); }
  assert forall|x: u32| #[trigger] win(t, x) implies eused(at(t.extras@, x)) == t.grp@.contains_key(x) by { assert(win(s, x)); }
  assert forall|b: u32| #[trigger] win(t, b) implies roomy(t, b) by {
    assert(win(s, b)); assert(roomy(s, b));
    if !(exists|o: u32| sameblk(o, b) && !#[trigger] s.grp@.contains_key(o)) {
      assert forall|i: u32| sameblk(i, b) implies #[trigger] ufix(t, i) by { assert(ufix(s, i)); }
    }
  }
}
@end
@raw
// ---------------------------------------------------------------- a group is in place
pub open spec fn nd_plus(d: DG, nd: IMap<u32, (u32, int)>, o: u32, c: int) -> IMap<u32, (u32, int)> {
  IMap::new(|i: u32| nd.contains_key(i) || mt(d, c, o, i) is Some, |i: u32| if nd.contains_key(i) { nd[i] } else { (o, mt(d, c, o, i)->0) })
}
pub proof fn at_node(s: DictionaryBuilder, i: u32)
  requires placed_ok(s), s.nd@.contains_key(i)
  ensures node_ok(s, i)
{ reveal(placed_ok); }
pub proof fn at_grp(s: DictionaryBuilder, o: u32)
  requires placed_ok(s), s.grp@.contains_key(o)
  ensures grp_ok(s, o), s.grp@.contains_key(0), s.grp@[0] == 0, s.nd@.contains_key(0)
{ reveal(placed_ok); }
// where a used offset shows up among the units
pub open spec fn rep(db: DictionaryBuilder, x: u32) -> u32 { if x == 0 { 0 } else { memb(dgd(db.dawg), x, db.grp@[x]) } }
pub proof fn full_block(t: DictionaryBuilder, o: u32)
  requires dinv(t.dawg), dgd(t.dawg).len() > 1, placed_ok(t), forall|x: u32| sameblk(x, o) ==> #[trigger] t.grp@.contains_key(x)
  ensures forall|i: u32| sameblk(i, o) ==> #[trigger] ufix(t, i)
{
  let d = dgd(t.dawg);
  let b = (o / 256 * 256) as u32;
  let f = Seq::new(256, |j: int| (rep(t, (b + j) as u32) - b) as u32);
  assert forall|j: int| 0 <= j < 256 implies ({ let x = (b + j) as u32; t.nd@.contains_key(rep(t, x)) && t.nd@[rep(t, x)].0 == x && sameblk(rep(t, x), o) && #[trigger] f[j] < 256 }) by {
    let x = (b + j) as u32;
    assert(sameblk(x, o)); assert(t.grp@.contains_key(x));
    at_grp(t, x);
    if x != 0 { let g = t.grp@[x]; gend_bounds(d, g); xor_facts(x, o, d.label[g]); assert(has_member(t, x, g)); }
    else { at_node(t, 0); }
  }
  assert forall|i: u32| sameblk(i, o) implies #[trigger] ufix(t, i) by {
    if !ufix(t, i) {
      let h = f.push((i - b) as u32);
      assert(h.no_duplicates()) by {
        assert forall|p: int, q: int| 0 <= p < q < h.len() implies h[p] != h[q] by {
          assert(f[p] < 256);
          if q < 256 { assert(f[q] < 256); if h[p] == h[q] { assert(rep(t, (b + p) as u32) == rep(t, (b + q) as u32)); } }
          else if h[p] == h[q] { at_node(t, rep(t, (b + p) as u32)); }
        }
      }
      assert forall|j: int| 0 <= j < h.len() implies #[trigger] h[j] < 256 by { if j < 256 { assert(f[j] < 256); } }
      nodup_len(h, 256);
    }
  }
}
pub open spec fn placed(s: DictionaryBuilder, m: DictionaryBuilder, t: DictionaryBuilder, ix: u32, o: u32, c: int) -> bool {
  &&& t == (DictionaryBuilder { extras: t.extras, grp: t.grp, nd: t.nd, done: t.done, ..m })
  &&& t.grp@ == s.grp@.insert(o, c) && t.nd@ == nd_plus(dgd(s.dawg), s.nd@, o, c) && t.done@ == s.done@.insert(ix)
  &&& upd(m.extras@, t.extras@, o, DictionaryExtraUnit { hiValues: at(m.extras@, o).hiValues | 1, ..at(m.extras@, o) })
}
pub open spec fn todo(s: DictionaryBuilder, ix: u32) -> bool { s.nd@.contains_key(ix) && !s.done@.contains(ix) && !dgd(s.dawg).leaf(s.nd@[ix].1) }
pub open spec fn place_pre(s: DictionaryBuilder, m: DictionaryBuilder, t: DictionaryBuilder, ix: u32, o: u32, c: int) -> bool {
  let d = dgd(s.dawg);
  &&& dbok(s) && todo(s, ix) && c == d.child(s.nd@[ix].1) && start(d, c)
  &&& !s.grp@.contains_key(o) && putk(s, m, ix, o, c, gend(d, c) - c + 1) && placed(s, m, t, ix, o, c)
}
pub proof fn place_same(s: DictionaryBuilder, m: DictionaryBuilder, t: DictionaryBuilder, ix: u32, o: u32, c: int)
  requires place_pre(s, m, t, ix, o, c)
  ensures forall|x: u32| #[trigger] ufix(t, x) == ufix(m, x), forall|x: u32| #[trigger] free(t, x) == free(m, x), lo(t) == lo(m), nu(t) == nu(m), win(t, o), o != 0, t.units@ == m.units@, dgd(s.dawg).len() > 1,
    lo(s) <= lo(t), lo(t) % 256 == 0
{
  gend_bounds(dgd(s.dawg), c);
  assert(s.grp@.contains_key(0)) by { reveal(placed_ok); }
  eu_bits();
  shape_of(s); shape_of(m);
  assert forall|x: u32| #[trigger] ufix(t, x) == ufix(m, x) by { let y = at(t.extras@, x); }
  assert forall|x: u32| #[trigger] free(t, x) == free(m, x) by { let y = at(t.extras@, x); }
}
pub proof fn place_awf(s: DictionaryBuilder, m: DictionaryBuilder, t: DictionaryBuilder, ix: u32, o: u32, c: int)
  requires place_pre(s, m, t, ix, o, c), placed_ok(t)
  ensures awf(t)
{
  place_same(s, m, t, ix, o, c);
  eu_bits();
  reveal(awf);
  assert forall|x: u32| #[trigger] lnk(t, x) by {
    assert(lnk(m, x)); let y = at(t.extras@, x);
    if free(t, x) { let a = at(t.extras@, eprev(at(m.extras@, x))); let b = at(t.extras@, enext(at(m.extras@, x))); assert(free(m, x)); }
  }
  assert forall|x: u32| #[trigger] win(t, x) implies eused(at(t.extras@, x)) == t.grp@.contains_key(x) by { assert(win(m, x)); let y = at(t.extras@, x); }
  assert forall|x: u32| #[trigger] free(t, x) implies t.units@[x as int] == 0 by { assert(free(m, x)); }
  assert forall|b: u32| #[trigger] win(t, b) implies roomy(t, b) by {
    assert(win(m, b)); assert(roomy(m, b));
    if sameblk(b, o) {
      if !(exists|x: u32| sameblk(x, b) && !#[trigger] t.grp@.contains_key(x)) { full_block(t, b); }
    } else if exists|x: u32| sameblk(x, b) && !#[trigger] m.grp@.contains_key(x) {
      let x = choose|x: u32| sameblk(x, b) && !#[trigger] m.grp@.contains_key(x);
      assert(!t.grp@.contains_key(x));
    } else {
      assert forall|i: u32| sameblk(i, b) implies #[trigger] ufix(t, i) by { assert(ufix(m, i)); }
    }
  }
}
pub proof fn place_node(s: DictionaryBuilder, m: DictionaryBuilder, t: DictionaryBuilder, ix: u32, o: u32, c: int, i: u32)
  requires place_pre(s, m, t, ix, o, c), t.nd@.contains_key(i)
  ensures node_ok(t, i)
{
  let d = dgd(s.dawg);
  place_same(s, m, t, ix, o, c);
  at_node(s, ix);
  assert(s.nd@.contains_key(0) && s.grp@.contains_key(0)) by { reveal(placed_ok); }
  if s.nd@.contains_key(i) {
    at_node(s, i);
    assert(kept(s, m, ix, i)); assert(ufix(t, i));
    if i == ix { xor_facts(ix, o, 0); gend_bounds(d, c); assert(content(t, i, t.nd@[i].1)); }
    else { assert(content(t, i, t.nd@[i].1)); }
    assert(node_ok(t, i));
  } else {
    let x = mt(d, c, o, i)->0;
    gend_bounds(d, c);
    memb_mt(d, c, o, i, x);
    assert(put(s, m, o, x));
    assert(ufix(t, i));
    if s.done@.contains(i) { assert(s.nd@.contains_key(i)) by { reveal(placed_ok); } }
    at_node(s, 0);
    group_member(d, c, x);
    assert(content(t, i, x));
    assert(node_ok(t, i));
  }
}
pub proof fn place_done(s: DictionaryBuilder, m: DictionaryBuilder, t: DictionaryBuilder, ix: u32, o: u32, c: int)
  requires place_pre(s, m, t, ix, o, c)
  ensures dbok(t), forall|x: int| in_group(dgd(s.dawg), c, x) ==> #[trigger] has_member(t, o, x) && !t.done@.contains(memb(dgd(s.dawg), o, x)) && !s.nd@.contains_key(memb(dgd(s.dawg), o, x)),
    forall|i: u32| #[trigger] t.nd@.contains_key(i) ==> s.nd@.contains_key(i) || (t.nd@[i].0 == o && in_group(dgd(s.dawg), c, t.nd@[i].1))
{
  let d = dgd(s.dawg);
  place_same(s, m, t, ix, o, c);
  gend_bounds(d, c);
  assert forall|x: int| in_group(d, c, x) implies #[trigger] has_member(t, o, x) && !t.done@.contains(memb(d, o, x)) && !s.nd@.contains_key(memb(d, o, x)) by {
    let i = memb(d, o, x);
    memb_mt(d, c, o, i, x);
    assert(put(s, m, o, x));
    if s.nd@.contains_key(i) { at_node(s, i); }
    if s.done@.contains(i) { assert(s.nd@.contains_key(i)) by { reveal(placed_ok); } }
    if i == ix { at_node(s, ix); }
  }
  assert forall|i: u32| #[trigger] t.nd@.contains_key(i) implies s.nd@.contains_key(i) || (t.nd@[i].0 == o && in_group(d, c, t.nd@[i].1)) by { if !s.nd@.contains_key(i) { memb_mt(d, c, o, i, 0); } }
  assert(placed_ok(t)) by {
    assert forall|i: u32| #[trigger] t.nd@.contains_key(i) implies node_ok(t, i) by { place_node(s, m, t, ix, o, c, i); }
    assert forall|x: u32| #[trigger] t.grp@.contains_key(x) implies grp_ok(t, x) by {
      if x != o {
        at_grp(s, x); assert(s.grp@.contains_key(x));
        if s.grp@[x] != 0 { assert forall|y: int| in_group(d, s.grp@[x], y) implies #[trigger] has_member(t, x, y) by { assert(has_member(s, x, y)); } }
      }
    }
    assert forall|i: u32| #[trigger] ufix(t, i) && i >= lo(t) implies t.nd@.contains_key(i) by {
      assert(ufix(m, i)); assert(newfix(s, m, o, c, gend(d, c) - c + 1, i));
      if ufix(s, i) { reveal(placed_ok); assert(s.nd@.contains_key(i)); }
    }
    assert forall|i: u32| #[trigger] ufix(t, i) && !t.nd@.contains_key(i) implies filler(t, i) by {
      assert(ufix(m, i)); assert(newfix(s, m, o, c, gend(d, c) - c + 1, i));
      if ufix(s, i) {
        assert(filler(s, i) && i < lo(s)) by { reveal(placed_ok); }
        assert(kept(s, m, ix, i)); assert(i != ix);
      }
      let l = lab(t.units@[i as int]);
      xor_facts(i, o, l as u8);
      assert(sameblk(i, i ^ l));
      assert(!sameblk(i, o));
    }
    assert forall|i: u32| #[trigger] t.done@.contains(i) implies t.nd@.contains_key(i) by { if i != ix { reveal(placed_ok); assert(s.done@.contains(i)); } }
    reveal(placed_ok);
    assert(s.nd@.contains_key(0) && s.grp@.contains_key(0));
  }
  place_awf(s, m, t, ix, o, c);
  assert(table_ok(t)) by { assert forall|x: int| 0 <= x < t.linkTable.hashTable@.len() implies #[trigger] slot_ok(t, x) by { assert(slot_ok(s, x)); } }
}
// an existing group is used again
pub proof fn link_done(s: DictionaryBuilder, t: DictionaryBuilder, ix: u32, o: u32, c: int)
  requires dbok(s), todo(s, ix), c == dgd(s.dawg).child(s.nd@[ix].1), c != 0, o != 0, s.grp@.contains_key(o), s.grp@[o] == c,
    t == (DictionaryBuilder { units: t.units, done: t.done, ..s }), t.done@ == s.done@.insert(ix), t.units@ == s.units@.update(ix as int, t.units@[ix as int]),
    ({ let u = t.units@[ix as int]; off(u) == ix ^ o && lab(u) == lab(s.units@[ix as int]) && hasleaf(u) == leafat(dgd(s.dawg), c) })
  ensures dbok(t)
{
  let d = dgd(s.dawg);
  at_node(s, ix);
  awf_units(s, DictionaryBuilder { units: t.units, ..s }, ix);
  put_awf_g(DictionaryBuilder { units: t.units, ..s }, t);
  assert(placed_ok(t)) by {
    assert forall|i: u32| #[trigger] t.nd@.contains_key(i) implies node_ok(t, i) by { at_node(s, i); assert(ufix(t, i) == ufix(s, i)); xor_facts(ix, o, 0); }
    assert forall|x: u32| #[trigger] t.grp@.contains_key(x) implies grp_ok(t, x) by {
      at_grp(s, x);
      if s.grp@[x] != 0 { assert forall|y: int| in_group(d, s.grp@[x], y) implies #[trigger] has_member(t, x, y) by { assert(has_member(s, x, y)); } }
    }
    assert forall|i: u32| #[trigger] ufix(t, i) && i >= lo(t) implies t.nd@.contains_key(i) by { reveal(placed_ok); assert(ufix(s, i)); }
    assert forall|i: u32| #[trigger] ufix(t, i) && !t.nd@.contains_key(i) implies filler(t, i) by { reveal(placed_ok); assert(ufix(s, i)); }
    assert forall|i: u32| #[trigger] t.done@.contains(i) implies t.nd@.contains_key(i) by { reveal(placed_ok); if i != ix { assert(s.done@.contains(i)); } }
    reveal(placed_ok);
  }
  assert(table_ok(t)) by { assert forall|x: int| 0 <= x < t.linkTable.hashTable@.len() implies #[trigger] slot_ok(t, x) by { assert(slot_ok(s, x)); } }
}
// what the allocation does not look at
pub proof fn put_awf_g(s: DictionaryBuilder, t: DictionaryBuilder)
  requires awf(s), t == (DictionaryBuilder { done: t.done, nd: t.nd, labels: t.labels, linkTable: t.linkTable, dict: t.dict, ..s })
  ensures awf(t), forall|x: u32| #[trigger] ufix(t, x) == ufix(s, x)
{
  reveal(awf);
  assert forall|x: u32| #[trigger] ufix(t, x) == ufix(s, x) by {}
  assert forall|x: u32| #[trigger] free(t, x) == free(s, x) by {}
  assert forall|x: u32| #[trigger] lnk(t, x) by { assert(lnk(s, x)); }
  assert forall|x: u32| #[trigger] win(t, x) implies eused(at(t.extras@, x)) == t.grp@.contains_key(x) by { assert(win(s, x)); }
  assert forall|b: u32| #[trigger] win(t, b) implies roomy(t, b) by {
    assert(win(s, b)); assert(roomy(s, b));
    if !(exists|o: u32| sameblk(o, b) && !#[trigger] s.grp@.contains_key(o)) {
      assert forall|i: u32| sameblk(i, b) implies #[trigger] ufix(t, i) by { assert(ufix(s, i)); }
    }
  }
}
@end
@raw
// ---------------------------------------------------------------- the link table
pub type LT = Seq<linkPair>;
pub open spec fn lhash(v: u32, n: int) -> int { (ihash(v) as int) % n }
// every slot passed on the way from the hash value of v to x is taken by another index
pub open spec fn passed(t: LT, v: u32, x: int, y: int) -> bool { dist(lhash(v, t.len() as int), y, t.len() as int) < dist(lhash(v, t.len() as int), x, t.len() as int) ==> t[y].index != 0 && t[y].index != v }
pub open spec fn probed(t: LT, v: u32, x: int) -> bool { forall|y: int| 0 <= y < t.len() ==> #[trigger] passed(t, v, x, y) }
pub open spec fn lt_ok(t: LT) -> bool { forall|x: int| 0 <= x < t.len() && (#[trigger] t[x]).index != 0 ==> probed(t, t[x].index, x) }
pub open spec fn has_room(t: LT, v: u32) -> bool { exists|e: int| 0 <= e < t.len() && ((#[trigger] t[e]).index == 0 || t[e].index == v) }
pub proof fn lhash_range(v: u32, n: int)
  requires n > 0
  ensures 0 <= lhash(v, n) < n
{ assert(0 <= (ihash(v) as int) % n < n) by(nonlinear_arith) requires n > 0; }
pub proof fn next_slot(h: int, n: int)
  requires 0 <= h < n
  ensures (h + 1) % n == (if h + 1 == n { 0 } else { h + 1 })
{ if h + 1 == n { assert((h + 1) % n == 0) by(nonlinear_arith) requires h + 1 == n, n > 0; } else { assert((h + 1) % n == h + 1) by(nonlinear_arith) requires 0 <= h + 1 < n; } }
pub proof fn probe_next(t: LT, v: u32, x: int, e: int)
  requires 0 <= x < t.len(), 0 <= e < t.len(), t[e].index == 0 || t[e].index == v, probed(t, v, x), t[x].index != 0, t[x].index != v
  ensures ({ let z = (x + 1) % (t.len() as int); 0 <= z < t.len() && probed(t, v, z) && 0 <= dist(z, e, t.len() as int) < dist(x, e, t.len() as int) && z == (if x + 1 == t.len() { 0 } else { x + 1 }) })
{
  let n = t.len() as int; let h = lhash(v, n); let z = (x + 1) % n;
  lhash_range(v, n); next_slot(x, n);
  assert(passed(t, v, x, e));
  assert forall|y: int| 0 <= y < n implies #[trigger] passed(t, v, z, y) by { assert(passed(t, v, x, y)); }
}
pub proof fn nset_nodup(s: Seq<bool>, q: Seq<u32>)
  requires q.no_duplicates(), forall|j: int| 0 <= j < q.len() ==> #[trigger] q[j] < s.len() && s[q[j] as int]
  ensures q.len() <= nset(s)
  decreases s.len()
{
  if q.len() > 0 {
    assert(q[0] < s.len());
    let r = s.drop_last();
    let l = (s.len() - 1) as int;
    if exists|p: int| 0 <= p < q.len() && q[p] == l {
      let p = choose|p: int| 0 <= p < q.len() && q[p] == l;
      let w = q.remove(p);
      assert forall|j: int| 0 <= j < w.len() implies #[trigger] w[j] < r.len() && r[w[j] as int] by { let k = if j < p { j } else { j + 1 }; assert(w[j] == q[k] && q[k] != q[p]); }
      assert(w.no_duplicates()) by { assert forall|i: int, j: int| 0 <= i < j < w.len() implies w[i] != w[j] by { let a = if i < p { i } else { i + 1 }; let b = if j < p { j } else { j + 1 }; assert(q[a] != q[b]); } }
      nset_nodup(r, w);
      assert(s.last() == s[q[p] as int]);
    } else {
      assert forall|j: int| 0 <= j < q.len() implies #[trigger] q[j] < r.len() && r[q[j] as int] by { assert(q[j] != l); }
      nset_nodup(r, q);
    }
  }
}
pub proof fn link_room(s: DictionaryBuilder, v: u32)
  requires dinv(s.dawg), table_ok(s), merging(s.dawg, v)
  ensures has_room(s.linkTable.hashTable@, v), s.linkTable.hashTable@.len() > 0
{
  let t = s.linkTable.hashTable@; let b = bits(s.dawg.flagPool);
  nset_pos(b, v as int);
  if !has_room(t, v) {
    let q = Seq::new(t.len(), |x: int| t[x].index).push(v);
    assert forall|i: int, j: int| 0 <= i < j < q.len() implies q[i] != q[j] by {
      assert(t[i].index != 0 && t[i].index != v);
      if j < t.len() && t[i].index == t[j].index {
        let u = t[i].index; assert(t[j].index != 0);
        lhash_range(u, t.len() as int);
        assert(probed(t, u, i)); assert(probed(t, u, j));
        assert(passed(t, u, i, j)); assert(passed(t, u, j, i));
      }
    }
    assert forall|j: int| 0 <= j < q.len() implies #[trigger] q[j] < b.len() && b[q[j] as int] by { if j < t.len() { assert(slot_ok(s, j)); assert(t[j].index != 0 && t[j].index != v); } }
    nset_nodup(b, q);
  }
}
pub open spec fn entered(t: LT, u: LT, v: u32, o: u32, x: int) -> bool { 0 <= x < t.len() && u =~= t.update(x, linkPair { index: v, offset: o }) && probed(t, v, x) && (t[x].index == 0 || t[x].index == v) }
pub proof fn entered_ok(t: LT, u: LT, v: u32, o: u32, x: int)
  requires lt_ok(t), entered(t, u, v, o, x), v != 0
  ensures lt_ok(u)
{
  assert forall|y: int| 0 <= y < u.len() && (#[trigger] u[y]).index != 0 implies probed(u, u[y].index, y) by {
    let w = u[y].index;
    if y != x { assert(t[y].index == w); }
    assert(probed(t, w, y));
    assert forall|z: int| 0 <= z < u.len() implies #[trigger] passed(u, w, y, z) by {
      assert(passed(t, w, y, z));
      if z == x && w == v && y != x { assert(passed(t, v, x, y)); assert(t[y].index == v); lhash_range(v, t.len() as int); }
    }
  }
}
pub proof fn insert_ok(s: DictionaryBuilder, t: DictionaryBuilder, v: u32, o: u32, x: int)
  requires dbok(s), merging(s.dawg, v), v != 0, o != 0, s.grp@.contains_key(o), s.grp@[o] == v, t == (DictionaryBuilder { linkTable: t.linkTable, ..s }), entered(s.linkTable.hashTable@, t.linkTable.hashTable@, v, o, x)
  ensures dbok(t)
{
  let a = s.linkTable.hashTable@; let b = t.linkTable.hashTable@;
  entered_ok(a, b, v, o, x);
  put_awf_g(s, t);
  placed_same(s, t);
  assert forall|y: int| 0 <= y < b.len() implies #[trigger] slot_ok(t, y) by { if y != x { assert(slot_ok(s, y)); } }
}
pub proof fn placed_same(s: DictionaryBuilder, t: DictionaryBuilder)
  requires placed_ok(s), t == (DictionaryBuilder { labels: t.labels, linkTable: t.linkTable, dict: t.dict, ..s })
  ensures placed_ok(t)
{
  reveal(placed_ok);
  assert forall|i: u32| #[trigger] t.nd@.contains_key(i) implies node_ok(t, i) by { assert(node_ok(s, i)); }
  assert forall|o: u32| #[trigger] t.grp@.contains_key(o) implies grp_ok(t, o) by {
    assert(grp_ok(s, o));
    if t.grp@[o] != 0 { assert forall|y: int| in_group(dgd(t.dawg), t.grp@[o], y) implies #[trigger] has_member(t, o, y) by { assert(has_member(s, o, y)); } }
  }
  assert forall|i: u32| #[trigger] ufix(t, i) && i >= lo(t) implies t.nd@.contains_key(i) by { assert(ufix(s, i)); }
  assert forall|i: u32| #[trigger] ufix(t, i) && !t.nd@.contains_key(i) implies filler(t, i) by { assert(ufix(s, i)); }
}
@end
@raw
// ---------------------------------------------------------------- placing the children of a node
pub proof fn xor_small(a: u32, b: u32)
  requires a < 0x2000_0000, b < 0x2000_0000
  ensures (a ^ b) < 0x2000_0000
{ assert((a ^ b) < 0x2000_0000) by(bit_vector) requires a < 0x2000_0000, b < 0x2000_0000; }
pub open spec fn labs_ok(db: DictionaryBuilder, c: int, n: int) -> bool { db.labels@.len() == n && forall|j: int| 0 <= j < n ==> #[trigger] db.labels@[j] == dgd(db.dawg).label[c + j] }
pub open spec fn gnext(d: DG, c: int, k: int) -> int { if c + k <= gend(d, c) { c + k } else { 0 } }
pub proof fn gstep(d: DG, c: int, k: int)
  requires pwf(d), start(d, c), 0 <= k, c + k <= gend(d, c)
  ensures 0 < c + k < d.len(), d.sib(c + k) == (c + k < gend(d, c)), gend(d, c) < d.len(), d.label.len() == d.len(), d.len() < MAXLEN
{ gend_bounds(d, c); group_member(d, c, c + k); pwf_at(d, c + k); }
pub proof fn kid_start(s: DictionaryBuilder, ix: u32)
  requires dbok(s), todo(s, ix), dgd(s.dawg).len() > 1
  ensures ({ let d = dgd(s.dawg); let t = s.nd@[ix].1; 0 <= t < d.len() && start(d, d.child(t)) && d.child(t) <= gend(d, d.child(t)) < d.len() && (t != 0 ==> gend(d, d.child(t)) < t) && pwf(d) && d.label.len() == d.len() && d.len() < MAXLEN && s.dawg.flagPool.size == d.len() && ufix(s, ix) && ix < MAXLEN })
{ at_node(s, ix); shape_of(s); let d = dgd(s.dawg); let t = s.nd@[ix].1; pwf_at(d, 1); if t != 0 { pwf_at(d, t); } gend_bounds(d, d.child(t)); }
pub proof fn put_start(s: DictionaryBuilder, m0: DictionaryBuilder, m: DictionaryBuilder, ix: u32, o: u32, c: int)
  requires dbok(s), todo(s, ix), c == dgd(s.dawg).child(s.nd@[ix].1), start(dgd(s.dawg), c), m0 == (DictionaryBuilder { labels: m0.labels, ..s }), labs_ok(m0, c, gend(dgd(s.dawg), c) - c + 1),
    good(m0, ix, o) || fresh_off(m0, ix, o), m == (DictionaryBuilder { units: m.units, ..m0 }), m.units@ == s.units@.update(ix as int, setoff(s.units@[ix as int], ix ^ o)), (ix ^ o) < 0x2000_0000
  ensures putk(s, m, ix, o, c, 0), !s.grp@.contains_key(o)
{
  let d = dgd(s.dawg);
  at_node(s, ix); shape_of(s);
  put_awf_g(s, m0);
  awf_units(m0, m, ix);
  setoff_props(s.units@[ix as int], ix ^ o);
  assert forall|i: u32| #[trigger] ufix(s, i) implies kept(s, m, ix, i) by { assert(ufix(m0, i)); assert(ufix(m, i)); }
  assert forall|i: u32| #[trigger] ufix(m, i) implies newfix(s, m, o, c, 0, i) by { assert(ufix(m0, i)); }
  if good(m0, ix, o) {
    assert forall|t: int| c <= t <= gend(d, c) implies #[trigger] openm(m, o, t) by { let j = t - c; assert(free(m0, o ^ (m0.labels@[j] as u32))); assert(free(m, memb(d, o, t))); }
  } else if s.grp@.contains_key(o) { reveal(awf); }
}
// ---- the recursion
pub open spec fn grown(s: DictionaryBuilder, t: DictionaryBuilder, ix: u32) -> bool {
  &&& t.dawg == s.dawg && t.dict == s.dict
  &&& forall|i: u32| #[trigger] s.nd@.contains_key(i) ==> t.nd@.contains_key(i) && t.nd@[i] == s.nd@[i]
  &&& forall|o: u32| #[trigger] s.grp@.contains_key(o) ==> t.grp@.contains_key(o) && t.grp@[o] == s.grp@[o]
  &&& forall|i: u32| s.nd@.contains_key(i) && i != ix ==> #[trigger] t.done@.contains(i) == s.done@.contains(i)
  &&& forall|i: u32| #[trigger] todo(t, i) ==> todo(s, i) && i != ix
}
// the loop over the children, up to tk
pub open spec fn rest(s: DictionaryBuilder, t: DictionaryBuilder, ix: u32, o: u32, c: int, tk: int) -> bool {
  let d = dgd(s.dawg);
  &&& t.dawg == s.dawg && t.dict == s.dict && dbok(t)
  &&& t.grp@.contains_key(o) && t.grp@[o] == c && o != 0
  &&& forall|i: u32| #[trigger] s.nd@.contains_key(i) ==> t.nd@.contains_key(i) && t.nd@[i] == s.nd@[i]
  &&& forall|x: u32| #[trigger] s.grp@.contains_key(x) ==> t.grp@.contains_key(x) && t.grp@[x] == s.grp@[x]
  &&& forall|i: u32| s.nd@.contains_key(i) && i != ix ==> #[trigger] t.done@.contains(i) == s.done@.contains(i)
  &&& forall|x: int| in_group(d, c, x) ==> #[trigger] has_member(t, o, x) && !s.nd@.contains_key(memb(d, o, x)) && (x >= tk ==> !t.done@.contains(memb(d, o, x)))
  &&& forall|i: u32| #[trigger] todo(t, i) ==> (todo(s, i) && i != ix) || (t.nd@[i].0 == o && in_group(d, c, t.nd@[i].1) && t.nd@[i].1 >= tk)
}
pub proof fn rest_begin(s: DictionaryBuilder, t: DictionaryBuilder, ix: u32, o: u32, c: int)
  requires dbok(t), !s.grp@.contains_key(o), o != 0, t.dawg == s.dawg, t.dict == s.dict, t.grp@ == s.grp@.insert(o, c), t.nd@ == nd_plus(dgd(s.dawg), s.nd@, o, c), t.done@ == s.done@.insert(ix),
    forall|x: int| in_group(dgd(s.dawg), c, x) ==> #[trigger] has_member(t, o, x) && !t.done@.contains(memb(dgd(s.dawg), o, x)) && !s.nd@.contains_key(memb(dgd(s.dawg), o, x)),
    forall|i: u32| #[trigger] t.nd@.contains_key(i) ==> s.nd@.contains_key(i) || (t.nd@[i].0 == o && in_group(dgd(s.dawg), c, t.nd@[i].1))
  ensures rest(s, t, ix, o, c, c)
{
  assert forall|i: u32| #[trigger] todo(t, i) implies (todo(s, i) && i != ix) || (t.nd@[i].0 == o && in_group(dgd(s.dawg), c, t.nd@[i].1) && t.nd@[i].1 >= c) by { assert(t.nd@.contains_key(i)); }
}
pub proof fn rest_step(s: DictionaryBuilder, t: DictionaryBuilder, t2: DictionaryBuilder, ix: u32, o: u32, c: int, tk: int)
  requires rest(s, t, ix, o, c, tk), dinv(s.dawg), in_group(dgd(s.dawg), c, tk), dbok(t2), grown(t, t2, memb(dgd(s.dawg), o, tk)), s.nd@.contains_key(ix)
  ensures rest(s, t2, ix, o, c, tk + 1)
{
  let d = dgd(s.dawg);
  let j = memb(d, o, tk);
  assert(has_member(t, o, tk));
  assert(t.grp@.contains_key(o));
  assert forall|i: u32| #[trigger] s.nd@.contains_key(i) implies t2.nd@.contains_key(i) && t2.nd@[i] == s.nd@[i] by { assert(t.nd@.contains_key(i)); }
  assert forall|x: u32| #[trigger] s.grp@.contains_key(x) implies t2.grp@.contains_key(x) && t2.grp@[x] == s.grp@[x] by { assert(t.grp@.contains_key(x)); }
  assert forall|i: u32| s.nd@.contains_key(i) && i != ix implies #[trigger] t2.done@.contains(i) == s.done@.contains(i) by { assert(t.nd@.contains_key(i)); assert(i != j); let z = t.done@.contains(i); }
  assert forall|x: int| in_group(d, c, x) implies #[trigger] has_member(t2, o, x) && !s.nd@.contains_key(memb(d, o, x)) && (x >= tk + 1 ==> !t2.done@.contains(memb(d, o, x))) by {
    assert(has_member(t, o, x));
    let y = memb(d, o, x);
    assert(t.nd@.contains_key(y));
    if x >= tk + 1 { assert(y != j) by { assert(t.nd@[y] == (o, x)); } let z = t2.done@.contains(y); }
  }
  assert forall|i: u32| #[trigger] todo(t2, i) implies (todo(s, i) && i != ix) || (t2.nd@[i].0 == o && in_group(d, c, t2.nd@[i].1) && t2.nd@[i].1 >= tk + 1) by {
    assert(todo(t, i) && i != j);
    assert(t2.nd@[i] == t.nd@[i]);
    if !(todo(s, i) && i != ix) { if t.nd@[i].1 == tk { at_node(t, i); } }
  }
}
pub proof fn rest_end(s: DictionaryBuilder, t: DictionaryBuilder, ix: u32, o: u32, c: int)
  requires rest(s, t, ix, o, c, gend(dgd(s.dawg), c) + 1)
  ensures grown(s, t, ix)
{ }
@end
@raw
pub proof fn nu_room(s: DictionaryBuilder)
  requires awf(s)
  ensures nu(s) + 255 < MAXLEN
{ reveal(awf); }
pub proof fn grp_lt(s: DictionaryBuilder, o: u32)
  requires awf(s), s.grp@.contains_key(o)
  ensures o < MAXLEN, o < nu(s)
{ reveal(awf); }
pub proof fn rest_link(s: DictionaryBuilder, t: DictionaryBuilder, u: DictionaryBuilder, ix: u32, o: u32, c: int)
  requires rest(s, t, ix, o, c, c), dbok(u), u == (DictionaryBuilder { linkTable: u.linkTable, ..t })
  ensures rest(s, u, ix, o, c, c)
{
  let d = dgd(s.dawg);
  assert forall|x: int| in_group(d, c, x) implies #[trigger] has_member(u, o, x) && !s.nd@.contains_key(memb(d, o, x)) && (x >= c ==> !u.done@.contains(memb(d, o, x))) by { assert(has_member(t, o, x)); }
  assert forall|i: u32| #[trigger] todo(u, i) implies (todo(s, i) && i != ix) || (u.nd@[i].0 == o && in_group(d, c, u.nd@[i].1) && u.nd@[i].1 >= c) by { assert(todo(t, i)); }
}
@end
@raw
// ---------------------------------------------------------------- a finished layout
pub proof fn layout_of(s: DictionaryBuilder, t: DictionaryBuilder)
  requires dbok(s), forall|i: u32| !#[trigger] todo(s, i), awf(t), aframe(s, t), nu(t) == nu(s), forall|i: u32| i < nu(t) ==> #[trigger] ufix(t, i), forall|i: u32| #[trigger] ufix(t, i) && !ufix(s, i) ==> filler(t, i)
  ensures layout(dgd(s.dawg), t.units@, s.nd@, s.grp@)
{
  reveal(layout); reveal(placed_ok);
  let d = dgd(s.dawg); let us = t.units@; let nd = s.nd@; let grp = s.grp@;
  shape_of(t);
  assert forall|i: u32| #[trigger] nd.contains_key(i) implies lay_node(d, us, nd, grp, i) by { assert(node_ok(s, i)); assert(!todo(s, i)); assert(ufix(s, i)); }
  assert forall|o: u32| #[trigger] grp.contains_key(o) implies lay_grp(d, us, nd, grp, o) by {
    assert(grp_ok(s, o)); grp_lt(s, o);
    if grp[o] != 0 { assert forall|x: int| in_group(d, grp[o], x) implies #[trigger] lay_member(d, nd, o, x) by { assert(has_member(s, o, x)); } }
  }
  assert forall|i: u32| i < us.len() && !#[trigger] nd.contains_key(i) implies lay_fill(us, grp, i) by { assert(ufix(t, i)); if ufix(s, i) { assert(filler(s, i)); } }
  assert(ufix(s, 0)) by { assert(node_ok(s, 0)); }
}
// ---------------------------------------------------------------- the start
pub open spec fn blank(db: DictionaryBuilder) -> bool { db.units@.len() == 0 && db.extras@.len() == 0 && db.unfixedIndex == 0 && db.grp@ == Map::<u32, int>::empty() }
pub proof fn blank_awf(s: DictionaryBuilder)
  requires blank(s)
  ensures awf(s)
{ reveal(awf); assert forall|i: u32| #[trigger] lnk(s, i) by { } }
// after the root has been placed
pub open spec fn begun(m: DictionaryBuilder, t: DictionaryBuilder) -> bool {
  &&& t == (DictionaryBuilder { units: t.units, extras: t.extras, grp: t.grp, nd: t.nd, done: t.done, ..m })
  &&& t.grp@ == Map::<u32, int>::empty().insert(0, 0) && t.nd@ == IMap::<u32, (u32, int)>::empty().insert(0, (0u32, 0int)) && t.done@ == Set::<u32>::empty()
  &&& upd(m.extras@, t.extras@, 0, DictionaryExtraUnit { hiValues: at(m.extras@, 0).hiValues | 1, ..at(m.extras@, 0) })
  &&& t.units@ == m.units@.update(0, setlab(setoff(0, 1), 0))
}
pub proof fn root_unit()
  ensures ({ let u = setlab(setoff(0, 1), 0); lab(u) == 0 && off(u) == 1 && !hasleaf(u) })
{ assert(({ let u = (0u32 & 0x8000_01ff) | (1u32 << 10); let w = (u & 0xffff_ff00) | 0; (w >> 10) << ((w & 0x200) >> 6) == 1 && w & 0x8000_00ff == 0 && w & 0x100 == 0 })) by(bit_vector); }
pub proof fn begin_ok(s: DictionaryBuilder, m: DictionaryBuilder, t: DictionaryBuilder)
  requires blank(s), dinv(s.dawg), awf(m), reserved(s, m, 0), begun(m, t), table_ok(t)
  ensures dbok(t), todo(t, 0), forall|i: u32| #[trigger] t.nd@.contains_key(i) ==> i == 0, t.extras@.len() == 1
{
  let d = dgd(t.dawg);
  root_unit(); eu_bits(); shape_of(m);
  assert forall|x: u32| #[trigger] ufix(t, x) == (x == 0) by { let y = at(t.extras@, x); assert(ufix(m, 0)); if ufix(m, x) { assert(ufix(s, x) || x == 0 || x < lo(m)); } }
  assert forall|x: u32| #[trigger] free(t, x) == free(m, x) by { let y = at(t.extras@, x); }
  assert(awf(t)) by {
    reveal(awf);
    assert forall|x: u32| #[trigger] lnk(t, x) by {
      assert(lnk(m, x)); let y = at(t.extras@, x);
      if free(t, x) { let a = at(t.extras@, eprev(at(m.extras@, x))); let b = at(t.extras@, enext(at(m.extras@, x))); assert(free(m, x)); }
    }
    assert forall|x: u32| #[trigger] win(t, x) implies eused(at(t.extras@, x)) == t.grp@.contains_key(x) by { assert(win(m, x)); let y = at(t.extras@, x); }
    assert forall|x: u32| #[trigger] free(t, x) implies t.units@[x as int] == 0 by { assert(free(m, x)); assert(!ufix(t, x)); }
    assert forall|b: u32| #[trigger] win(t, b) implies roomy(t, b) by { assert(sameblk(1, b) && !t.grp@.contains_key(1)); }
  }
  assert(d.len() >= 1) by { reveal(pwf); }
  assert(placed_ok(t)) by { reveal(placed_ok); assert(ufix(t, 0)); }
}
// no transitions at all
pub proof fn empty_ok(s: DictionaryBuilder, t: DictionaryBuilder)
  requires dbok(s), dgd(s.dawg).len() == 1, s.grp@ == Map::<u32, int>::empty().insert(0, 0), s.nd@ == IMap::<u32, (u32, int)>::empty().insert(0, (0u32, 0int)), s.extras@.len() == 1, s.units@[0] == setlab(setoff(0, 1), 0),
    t == (DictionaryBuilder { extras: t.extras, grp: t.grp, done: t.done, ..s }), t.grp@ == s.grp@.insert(1, 0), t.done@ == Set::<u32>::empty().insert(0),
    upd(s.extras@, t.extras@, 1, DictionaryExtraUnit { hiValues: at(s.extras@, 1).hiValues | 1, ..at(s.extras@, 1) })
  ensures dbok(t), forall|i: u32| !#[trigger] todo(t, i)
{
  let d = dgd(t.dawg);
  root_unit(); eu_bits(); shape_of(s);
  assert(0u32 ^ 1u32 == 1u32) by(bit_vector);
  assert forall|x: u32| #[trigger] ufix(t, x) == ufix(s, x) by { let y = at(t.extras@, x); }
  assert forall|x: u32| #[trigger] free(t, x) == free(s, x) by { let y = at(t.extras@, x); }
  assert(awf(t)) by {
    reveal(awf);
    assert forall|x: u32| #[trigger] lnk(t, x) by {
      assert(lnk(s, x)); let y = at(t.extras@, x);
      if free(t, x) { let a = at(t.extras@, eprev(at(s.extras@, x))); let b = at(t.extras@, enext(at(s.extras@, x))); assert(free(s, x)); }
    }
    assert forall|x: u32| #[trigger] win(t, x) implies eused(at(t.extras@, x)) == t.grp@.contains_key(x) by { assert(win(s, x)); let y = at(t.extras@, x); }
    assert forall|x: u32| #[trigger] free(t, x) implies t.units@[x as int] == 0 by { assert(free(s, x)); }
    assert forall|b: u32| #[trigger] win(t, b) implies roomy(t, b) by { assert(sameblk(2, b) && !t.grp@.contains_key(2)); }
  }
  assert(placed_ok(t)) by {
    reveal(placed_ok);
    assert(node_ok(s, 0)); assert(ufix(t, 0));
    assert forall|i: u32| #[trigger] ufix(t, i) && !t.nd@.contains_key(i) implies filler(t, i) by { assert(ufix(s, i)); assert(i >= lo(s)); assert(s.nd@.contains_key(i)); }
    assert(node_ok(t, 0));
  }
  assert(table_ok(t)) by { assert forall|x: int| 0 <= x < t.linkTable.hashTable@.len() implies #[trigger] slot_ok(t, x) by { assert(slot_ok(s, x)); assert(!merging(s.dawg, 0) || true); } }
}
@end
@raw
// ---------------------------------------------------------------- the properties
// what a history of insertions (key, value, accepted) leaves for a key
pub open spec fn given(h: Seq<(Seq<u8>, i32, bool)>, k: Seq<u8>) -> Option<i32>
  decreases h.len()
{ if h.len() == 0 { None } else if h.last().2 && h.last().0 == k { Some(h.last().1) } else { given(h.drop_last(), k) } }
pub open spec fn history(st: Seq<DawgBuilder>, h: Seq<(Seq<u8>, i32, bool)>) -> bool {
  &&& st.len() == h.len() + 1 && fresh(st[0])
  &&& forall|i: int| 0 <= i < h.len() ==> stored(st[i], #[trigger] st[i + 1], h[i].0, h[i].1, h[i].2)
}
pub proof fn prop_history(st: Seq<DawgBuilder>, h: Seq<(Seq<u8>, i32, bool)>, k: Seq<u8>)
  requires history(st, h)
  ensures blook(st.last(), k) == given(h, k), bwf(st.last())
  decreases h.len()
{
  if h.len() > 0 {
    let n = h.len() - 1;
    let t = st.drop_last(); let g = h.drop_last();
    assert forall|i: int| 0 <= i < g.len() implies stored(t[i], #[trigger] t[i + 1], g[i].0, g[i].1, g[i].2) by { assert(stored(st[i], st[i + 1], h[i].0, h[i].1, h[i].2)); }
    prop_history(t, g, k);
    assert(stored(st[n], st[n + 1], h[n].0, h[n].1, h[n].2));
  }
}
// C01: a dictionary built from a finished builder answers what was inserted
pub proof fn prop_lookup(st: Seq<DawgBuilder>, h: Seq<(Seq<u8>, i32, bool)>, d: Dawg, dict: Dictionary, k: Seq<u8>)
  requires history(st, h), finished(st.last(), d), lays(dgd(d), dict.units@)
  ensures find(dict.units@, k) == given(h, k), node(dict.units@, 0)
{ prop_history(st, h, k); lay_find(dgd(d), dict.units@, k); assert(dlook(dgd(d), 0, k) == blook(st.last(), k)); }

// C03: a walk succeeds on the prefixes of keys and on nothing else
pub proof fn prop_prefix(st: Seq<DawgBuilder>, h: Seq<(Seq<u8>, i32, bool)>, d: Dawg, dict: Dictionary, p: Seq<u8>)
  requires history(st, h), finished(st.last(), d), lays(dgd(d), dict.units@)
  ensures
    (walk(dict.units@, 0, p) is Some) == (p.len() == 0 || exists|k: Seq<u8>| given(h, #[trigger] (p + k)) is Some),
    walk(dict.units@, 0, p) matches Some(i) ==> node(dict.units@, i) && hasleaf(dict.units@[i as int]) == (given(h, p) is Some) && (given(h, p) matches Some(v) ==> leafval(dict.units@, i) == v),
    walk(dict.units@, 0, p) matches Some(i) ==> forall|c: u8| #[trigger] follows(dict.units@, i, c) == (exists|k: Seq<u8>| given(h, #[trigger] (p.push(c) + k)) is Some),
{
  prop_prefix1(st, h, d, dict, p);
  let us = dict.units@;
  if walk(us, 0, p) is Some {
    let i = walk(us, 0, p)->0;
    prop_lookup(st, h, d, dict, p);
    walk_node(us, 0, p);
    assert forall|c: u8| #[trigger] follows(us, i, c) == (exists|k: Seq<u8>| given(h, #[trigger] (p.push(c) + k)) is Some) by {
      prop_prefix1(st, h, d, dict, p.push(c));
      let q = p.push(c);
      walk_push(us, 0, q, p.len() as int);
      assert(q.take(p.len() as int) =~= p); assert(q.take(p.len() as int + 1) =~= q);
    }
  }
}
pub proof fn prop_prefix1(st: Seq<DawgBuilder>, h: Seq<(Seq<u8>, i32, bool)>, d: Dawg, dict: Dictionary, p: Seq<u8>)
  requires history(st, h), finished(st.last(), d), lays(dgd(d), dict.units@)
  ensures (walk(dict.units@, 0, p) is Some) == (p.len() == 0 || exists|k: Seq<u8>| given(h, #[trigger] (p + k)) is Some)
{
  let g = dgd(d);
  lay_find(g, dict.units@, p);
  assert(g.len() >= 1) by { reveal(pwf); }
  if p.len() > 0 {
    if dwalk(g, 0, p) is Some {
      walk_posn(g, 0, p);
      let t = dwalk(g, 0, p)->0;
      let k = leads(g, t);
      dwalk_cat(g, 0, p, k);
      prop_history(st, h, p + k);
      assert(dlook(g, 0, p + k) == blook(st.last(), p + k));
      assert(given(h, p + k) is Some);
    } else {
      assert forall|k: Seq<u8>| !(given(h, #[trigger] (p + k)) is Some) by { dwalk_cat(g, 0, p, k); prop_history(st, h, p + k); assert(dlook(g, 0, p + k) == blook(st.last(), p + k)); }
    }
  }
}
@end
@ghostfield DictionaryBuilder grp: Ghost<Map<u32, int>> = Ghost(Map::empty())
@ghostfield DictionaryBuilder nd: Ghost<IMap<u32, (u32, int)>> = Ghost(IMap::empty())
@ghostfield DictionaryBuilder done: Ghost<Set<u32>> = Ghost(Set::empty())

@fn DictionaryBuilder.reserveUnit
@requires awf(*old(self)), index < nu(*old(self)) + 256, index < nu(*old(self)) ==> free(*old(self), index)
@ensures awf(*final(self)), reserved(*old(self), *final(self), index), index < nu(*old(self)) ==> taken1(*old(self), *final(self), index)
@decreases (if index >= nu(*old(self)) { 3int } else { 0 })
@at entry
  let ghost mut s = *self;
  proof { eu_bits(); if index < nu(s) { reserve_pre(s, index); } }
@at after call expandDictionary 1
  proof { s = *self; assert(free(s, index)); reserve_pre(s, index); }
@at exit
  proof {
    assert(unlinked(s.extras@, self.extras@, index));
    unlink(s, *self, index);
  }
@end
@fn DictionaryBuilder.fixBlock
@wrapping
@requires awf(*old(self)), lo(*old(self)) <= blockId * 256, blockId < old(self).extras@.len()
@ensures awf(*final(self)), closedblk(*old(self), *final(self), blockId)
@decreases 1int
@at entry
  hide(roomy);
  let ghost s0 = *self;
  let ghost mut uo: Option<u32> = None;
  proof { shape_of(s0); awf_at(s0, (blockId * 256) as u32); }
@loop 1
  invariant begin <= offset <= end, unusedOffsetForLabel == 0, uo is None, forall|o: u32| begin <= o < offset ==> #[trigger] s0.grp@.contains_key(o)
  decreases end - offset
@at begin 1
  proof { awf_at(s0, offset); }
@at then 1
  proof { uo = Some(offset); }
@at before loop 2
  proof {
    if uo is None {
      assert(!(exists|o: u32| sameblk(o, begin) && !#[trigger] s0.grp@.contains_key(o)));
      reveal(roomy);
      assert(roomy(s0, begin));
      assert forall|i: u32| sameblk(i, begin) implies #[trigger] ufix(s0, i) by {}
    }
  }
@loop 2
  invariant begin <= index <= end, awf(*self), aframe(s0, *self), nu(*self) == nu(s0), self.extras@.len() == s0.extras@.len(),
    forall|i: u32| begin <= i < index ==> #[trigger] ufix(*self, i),
    forall|i: u32| #[trigger] ufix(*self, i) && !ufix(s0, i) ==> sameblk(i, begin) && filler(*self, i),
    uo is Some ==> uo == Some(unusedOffsetForLabel) && sameblk(unusedOffsetForLabel, begin) && !s0.grp@.contains_key(unusedOffsetForLabel),
    uo is None ==> forall|i: u32| sameblk(i, begin) ==> #[trigger] ufix(s0, i)
  decreases end - index
@at begin 2
  let ghost s1 = *self;
  let ghost mut s2 = *self;
  proof { awf_at(s1, index); if uo is None { assert(ufix(s0, index)); } }
@at after call reserveUnit 1
  proof { s2 = *self; }
@at end 2
  proof {
    if !ufix(s1, index) {
      fill_label(index, unusedOffsetForLabel, (index ^ unusedOffsetForLabel) as u8, self.units@[index as int]);
      awf_units(s2, *self, index);
      assert(ufix(s2, index));
      assert forall|i: u32| begin <= i <= index implies #[trigger] ufix(*self, i) by { if i < index { assert(ufix(s1, i)); } assert(ufix(s2, i)); }
      assert forall|i: u32| #[trigger] ufix(*self, i) && !ufix(s0, i) implies sameblk(i, begin) && filler(*self, i) by {
        assert(ufix(s2, i));
        if i != index { assert(ufix(s1, i)); assert(s2.units@[i as int] == s1.units@[i as int]); }
      }
      assert forall|i: u32| #[trigger] ufix(s0, i) implies ufix(*self, i) && self.units@[i as int] == s0.units@[i as int] by { assert(ufix(s1, i)); assert(ufix(s2, i)); }
    }
  }
@end
@fn DictionaryBuilder.expandDictionary
@requires awf(*old(self))
@ensures awf(*final(self)), opened1(*old(self), *final(self))
@decreases 2int
@at entry
  hide(roomy); hide(links); hide(e_next); hide(e_prev); hide(efix); hide(eused); hide(enext); hide(eprev);
  let ghost s0 = *self;
  let ghost mut s1 = *self;
  let ghost n = nu(s0);
  let ghost mut e2 = self.extras@;
  proof { eu_bits(); shape_of(s0); }
@at after call fixBlock 1
  proof { s1 = *self; shape_of(s1); }
@at before loop 1
  let ghost e1 = self.extras@;
@loop 1
  invariant n <= i <= n + 256,
    self.extras@.len() == e1.len(), self.extras@ == e1.update(e1.len() - 1, self.extras@[e1.len() - 1]), self.extras@[e1.len() - 1]@.len() == 256,
    forall|x: u32| n <= x < i ==> (#[trigger] at(self.extras@, x)).loValues == 0, forall|x: u32| n <= x < i ==> (#[trigger] at(self.extras@, x)).hiValues == 0
  decreases n + 256 - i
@at begin 1
  let ghost f0 = self.extras@;
@at end 1
  proof { let f1 = self.extras@; assert(upd(f0, f1, i, DictionaryExtraUnit { loValues: 0, hiValues: 0 })); }
@at before loop 2
  proof {
    e2 = self.extras@;
    assert(e2.len() == s1.extras@.len() + 1);
    assert forall|b: int| wlo(e2.len() as int) <= 256 * b && b < e2.len() - 1 implies (#[trigger] e2[b]) == s1.extras@[b] by {}
    assert forall|x: u32| wlo(e2.len() as int) <= x < n implies #[trigger] at(e2, x) == at(s1.extras@, x) by { assert(e2[(x / 256) as int] == s1.extras@[(x / 256) as int]); }
    assert forall|x: u32| n <= x < n + 256 implies (#[trigger] at(e2, x)) == (DictionaryExtraUnit { loValues: 0, hiValues: 0 }) by {}
    e_zero();
  }
@loop 2
  invariant n + 1 <= i <= n + 256,
    self.extras@.len() == e2.len(), self.extras@ == e2.update(e2.len() - 1, self.extras@[e2.len() - 1]), self.extras@[e2.len() - 1]@.len() == 256,
    forall|x: u32| n <= x < n + 256 ==> !efix(#[trigger] at(self.extras@, x)), forall|x: u32| n <= x < n + 256 ==> !eused(#[trigger] at(self.extras@, x)),
    forall|x: u32| n <= x < i - 1 ==> enext(#[trigger] at(self.extras@, x)) == x + 1,
    forall|x: u32| n < x < i ==> eprev(#[trigger] at(self.extras@, x)) == x - 1
  decreases n + 256 - i
@at begin 2
  let ghost f0 = self.extras@;
@at after call setNext 1
  let ghost f1 = self.extras@;
  proof { let k = (i - 1) as u32; assert(upd(f0, f1, k, e_next(at(f0, k), i))); e_facts(at(f0, k), i); }
@at after call setPrev 1
  proof { let f2 = self.extras@; let k = (i - 1) as u32; assert(upd(f1, f2, i, e_prev(at(f1, i), k))); e_facts(at(f1, i), k); }
@at after loop 2
  let ghost e3 = self.extras@;
  let ghost u = self.unfixedIndex;
  let ghost l = last0(s1);
  proof {
    assert forall|x: u32| wlo(e2.len() as int) <= x < n implies #[trigger] at(e3, x) == at(s1.extras@, x) by { assert(at(e2, x) == at(s1.extras@, x)); assert(e3[(x / 256) as int] == e2[(x / 256) as int]); }
    expand_u(s1, e3);
  }
@at after call setPrev 2
  let ghost e4 = self.extras@;
  let ghost k0 = n as u32; let ghost k1 = (n + 255) as u32;
  proof { assert(upd(e3, e4, k0, e_prev(at(e3, k0), k1))); e_facts(at(e3, k0), k1); }
@at after call setNext 2
  let ghost e5 = self.extras@;
  proof { assert(upd(e4, e5, k1, e_next(at(e4, k1), k0))); e_facts(at(e4, k1), k0); assert(eprev(at(e5, u)) == l); }
@at after call setPrev 3
  let ghost e6 = self.extras@;
  proof { assert(upd(e5, e6, k0, e_prev(at(e5, k0), l))); e_facts(at(e5, k0), l); }
@at after call setNext 3
  let ghost e7 = self.extras@;
  proof { assert(upd(e6, e7, k1, e_next(at(e6, k1), u))); e_facts(at(e6, k1), u); assert(eprev(at(e7, u)) == l); }
@at after call setNext 4
  let ghost e8 = self.extras@;
  proof { assert(upd(e7, e8, l, e_next(at(e7, l), k0))); e_facts(at(e7, l), k0); }
@at exit
  proof {
    let e9 = self.extras@;
    assert(upd(e8, e9, u, e_prev(at(e8, u), k1))); e_facts(at(e8, u), k1);
    join_chain(s1, e3, e4, e5, e6, e7, e8, e9);
    assert(self.units@ =~= s1.units@ + zeros());
    expand_done(s1, *self);
    assert(opened1(s0, *self));
  }
@end
@fn DictionaryBuilder.isGoodOffset
@requires awf(*self), win(*self, offset)
@ensures r ==> !self.grp@.contains_key(offset) && rel_ok(index ^ offset) && members_free(*self, offset, 1)
@at entry
  proof { shape_of(*self); awf_at(*self, offset); rel_bits(index ^ offset); }
@loop 1
  invariant 1 <= i, i <= self.labels@.len() || i == 1, forall|j: int| 1 <= j < i ==> free(*self, offset ^ (#[trigger] self.labels@[j] as u32))
  decreases self.labels@.len() - i
@at begin 1
  proof { let l = self.labels@[i as int]; xor_blk(offset, l); blk_win(*self, offset, offset ^ (l as u32)); awf_at(*self, offset ^ (l as u32)); }
@end
@fn DictionaryBuilder.findGoodOffset
@requires awf(*self), self.labels@.len() > 0
@ensures good(*self, index, r) || fresh_off(*self, index, r)
@at entry
  let ghost mut tr = seq![self.unfixedIndex];
  proof { shape_of(*self); new_off(nu(*self) as u32, index); }
@loop 1
  invariant trail(*self, tr), tr.last() == unfixedIndex
  decreases nu(*self) - tr.len()
@at begin 1
  proof {
    trail_step(*self, tr); awf_at(*self, unfixedIndex);
    let l = self.labels@[0]; xor_blk(unfixedIndex, l); blk_win(*self, unfixedIndex, unfixedIndex ^ (l as u32));
  }
@at return 2
  proof { assert(free(*self, offset ^ (self.labels@[0] as u32))); }
@at end 1
  proof { tr = tr.push(unfixedIndex); trail_step(*self, tr); }
@end
@fn DictionaryBuilder.fixAllBlocks
@requires awf(*old(self))
@ensures awf(*final(self)), aframe(*old(self), *final(self)), nu(*final(self)) == nu(*old(self)),
  forall|i: u32| i < nu(*final(self)) ==> #[trigger] ufix(*final(self), i),
  forall|i: u32| #[trigger] ufix(*final(self), i) && !ufix(*old(self), i) ==> filler(*final(self), i)
@at entry
  let ghost s0 = *self;
  proof { shape_of(s0); }
@loop 1
  invariant begin <= blockId <= end, awf(*self), aframe(s0, *self), nu(*self) == nu(s0), self.extras@.len() == s0.extras@.len(),
    forall|i: u32| i / 256 < blockId ==> #[trigger] ufix(*self, i), forall|i: u32| #[trigger] ufix(*self, i) && !ufix(s0, i) ==> filler(*self, i)
  decreases end - blockId
@at begin 1
  let ghost s1 = *self;
@at end 1
  proof {
    assert forall|i: u32| i / 256 < blockId + 1 implies #[trigger] ufix(*self, i) by { if i / 256 < blockId { assert(ufix(s1, i)); } }
    assert forall|i: u32| #[trigger] ufix(*self, i) && !ufix(s0, i) implies filler(*self, i) by { if ufix(s1, i) { assert(filler(s1, i)); } }
    assert forall|i: u32| #[trigger] ufix(s0, i) implies ufix(*self, i) && self.units@[i as int] == s0.units@[i as int] by { assert(ufix(s1, i)); }
  }
@end
@fn dictSetHasLeaf
@ensures *final(base) == *old(base) | 0x100
@end
@fn dictSetValue
@ensures *final(base) == leafunit(value)
@end
@fn dictSetLabel
@ensures *final(base) == setlab(*old(base), label)
@at entry
  proof { assert(!255u32 == 0xffff_ff00) by(bit_vector); }
@end
@fn dictSetOffset
@ensures r == (offset < 0x2000_0000), r ==> *final(base) == setoff(*old(base), offset), !r ==> *final(base) == *old(base)
@at entry
  proof { let u = *base; let o = offset; assert((0x8000_0000u32 | 0x100 | 0xff) == 0x8000_01ff) by(bit_vector); assert(((u & 0x8000_01ff) | ((o << 2) | 0x200)) == ((u & 0x8000_01ff) | (o << 2) | 0x200)) by(bit_vector); }
@end
@fn LinkTable.findId
@requires self.hashTable@.len() > 0, has_room(self.hashTable@, index)
@ensures r < self.hashTable@.len(), probed(self.hashTable@, index, r as int), self.hashTable@[r as int].index == 0 || self.hashTable@[r as int].index == index
@at entry
  let ghost t = self.hashTable@;
  let ghost e = choose|e: int| 0 <= e < t.len() && ((#[trigger] t[e]).index == 0 || t[e].index == index);
  proof { lhash_range(index, t.len() as int); }
@at before loop 1
  proof { assert(probed(t, index, hashId as int)); }
@loop 1
  invariant hashId < t.len(), probed(t, index, hashId as int)
  decreases dist(hashId as int, e, t.len() as int)
@at end 1
  proof { }
@at begin 1
  proof { if t[hashId as int].index != index { probe_next(t, index, hashId as int, e); } }
@end
@fn LinkTable.Insert
@requires old(self).hashTable@.len() > 0, has_room(old(self).hashTable@, index)
@ensures exists|x: int| #[trigger] entered(old(self).hashTable@, final(self).hashTable@, index, offset, x)
@at exit
  proof { assert(entered(old(self).hashTable@, self.hashTable@, index, offset, hashId as int)); }
@end
@fn LinkTable.Find
@requires self.hashTable@.len() > 0, has_room(self.hashTable@, index), forall|x: int| 0 <= x < self.hashTable@.len() && (#[trigger] self.hashTable@[x]).index == 0 ==> self.hashTable@[x].offset == 0
@ensures r != 0 ==> exists|x: int| 0 <= x < self.hashTable@.len() && (#[trigger] self.hashTable@[x]).index == index && self.hashTable@[x].offset == r
@end
@fn NewLinkTable
@requires tableSize >= 0
@ensures r.hashTable@.len() == tableSize, forall|x: int| 0 <= x < tableSize ==> (#[trigger] r.hashTable@[x]).index == 0 && r.hashTable@[x].offset == 0
@end
@fn DictionaryBuilder.arrangeChildNodes
@requires dbok(*old(self)), todo(*old(self), dictIndex), old(self).nd@[dictIndex].1 == dawgIndex, dgd(old(self).dawg).len() > 1
@ensures r != 0, !old(self).grp@.contains_key(r), dbok(*final(self)), final(self).dawg == old(self).dawg, final(self).dict == old(self).dict,
  ({ let c = dgd(old(self).dawg).child(dawgIndex as int);
    &&& final(self).grp@ == old(self).grp@.insert(r, c) && final(self).nd@ == nd_plus(dgd(old(self).dawg), old(self).nd@, r, c) && final(self).done@ == old(self).done@.insert(dictIndex)
    &&& rest(*old(self), *final(self), dictIndex, r, c, c) })
@at entry
  hide(awf); hide(placed_ok); hide(table_ok); hide(links); hide(shape);
  let ghost s0 = *self;
  let ghost d = dgd(s0.dawg);
  let ghost c = d.child(dawgIndex as int);
  proof { kid_start(s0, dictIndex); }
@loop 1
  invariant *self == (DictionaryBuilder { labels: self.labels, ..s0 }), labs_ok(*self, c, self.labels@.len() as int), c + self.labels@.len() <= gend(d, c) + 1, dawgChildIndex == gnext(d, c, self.labels@.len() as int)
  decreases gend(d, c) + 1 - c - self.labels@.len()
@at begin 1
  proof { gstep(d, c, self.labels@.len() as int); }
@at before call findGoodOffset 1
  let ghost s1 = *self;
  proof { put_awf_g(s0, s1); shape_of(s0); gend_bounds(d, c); nu_room(s0); }
@at before call dictSetOffset 1
  proof { xor_small(dictIndex, offset); }
@at before loop 2
  proof { put_start(s0, s1, *self, dictIndex, offset, c); gstep(d, c, 0); }
@loop 2
  invariant 0 <= i <= gend(d, c) - c + 1, putk(s0, *self, dictIndex, offset, c, i as int), labs_ok(*self, c, gend(d, c) - c + 1), dawgChildIndex == gnext(d, c, i as int)
  decreases gend(d, c) - c + 1 - i
@at begin 2
  let ghost m = *self;
  proof { gstep(d, c, i as int); put_pre(s0, m, dictIndex, offset, c, i as int); }
@at after call reserveUnit 1
  let ghost m2 = *self;
@at end 2
  proof { put_step(s0, m, m2, *self, dictIndex, offset, c, i as int); }
@at after loop 2
  let ghost m3 = *self;
  proof { awf_at(m3, offset); }
@at return 2
  self.grp = Ghost(s0.grp@.insert(offset, c));
  self.nd = Ghost(nd_plus(d, s0.nd@, offset, c));
  self.done = Ghost(s0.done@.insert(dictIndex));
  proof {
    place_done(s0, m3, *self, dictIndex, offset, c);
    place_same(s0, m3, *self, dictIndex, offset, c);
    rest_begin(s0, *self, dictIndex, offset, c);
  }
@end
@fn DictionaryBuilder.buildDictionaryIndices
@requires dbok(*old(self)), old(self).nd@.contains_key(dictIndex), old(self).nd@[dictIndex].1 == dawgIndex, !old(self).done@.contains(dictIndex), dgd(old(self).dawg).len() > 1
@ensures r, dbok(*final(self)), grown(*old(self), *final(self), dictIndex)
@decreases (if dawgIndex == 0 { dgd(old(self).dawg).len() } else { dawgIndex as int })
@at entry
  hide(awf); hide(placed_ok); hide(links); hide(shape);
  let ghost s0 = *self;
  let ghost d = dgd(s0.dawg);
  let ghost c = d.child(dawgIndex as int);
  let ghost mut s2 = *self;
  let ghost mut o0: u32 = 0;
  proof { at_node(s0, dictIndex); pwf_at(d, 1); if todo(s0, dictIndex) { kid_start(s0, dictIndex); } }
@at before call Find 1
  proof { link_room(s0, c as u32); assert forall|x: int| 0 <= x < s0.linkTable.hashTable@.len() && (#[trigger] s0.linkTable.hashTable@[x]).index == 0 implies s0.linkTable.hashTable@[x].offset == 0 by { assert(slot_ok(s0, x)); } }
@at after call Find 1
  proof {
    o0 = offset;
    if offset != 0 {
      let x = choose|x: int| 0 <= x < s0.linkTable.hashTable@.len() && (#[trigger] s0.linkTable.hashTable@[x]).index == c && s0.linkTable.hashTable@[x].offset == offset;
      assert(slot_ok(s0, x));
      grp_lt(s0, o0);
      xor_small(dictIndex, o0);
      xor_facts(dictIndex, o0, 0);
      assert(o0 ^ dictIndex == dictIndex ^ o0) by(bit_vector);
      rel_bits(dictIndex ^ o0);
    }
  }
@at return 2
  self.done = Ghost(s0.done@.insert(dictIndex));
  proof {
    let u = s0.units@[dictIndex as int]; setleaf_props(u);
    setoff_props(u, dictIndex ^ o0); setoff_props(u | 0x100, dictIndex ^ o0);
    assert(self.units@ =~= s0.units@.update(dictIndex as int, self.units@[dictIndex as int]));
    link_done(s0, *self, dictIndex, o0, c);
  }
@at after call arrangeChildNodes 1
  proof { s2 = *self; assert(rest(s0, s2, dictIndex, offset, c, c)); }
@at before call Insert 1
  proof { link_room(s2, c as u32); }
@at after call Insert 1
  proof {
    let x = choose|x: int| #[trigger] entered(s2.linkTable.hashTable@, self.linkTable.hashTable@, c as u32, offset, x);
    insert_ok(s2, *self, c as u32, offset, x);
    rest_link(s0, s2, *self, dictIndex, offset, c);
  }
@loop 1
  invariant c <= dawgChildIndex <= gend(d, c), rest(s0, *self, dictIndex, offset, c, dawgChildIndex as int)
  decreases gend(d, c) + 1 - dawgChildIndex
@at begin 1
  let ghost m = *self;
  let ghost tk = dawgChildIndex as int;
  proof { gstep(d, c, tk - c); assert(in_group(d, c, tk)); assert(has_member(m, offset, tk)); }
@at after call buildDictionaryIndices 1
  proof { rest_step(s0, m, *self, dictIndex, offset, c, tk); if tk == gend(d, c) { rest_end(s0, *self, dictIndex, offset, c); } }
@end
@fn NewDictionaryBuilder
@ensures blank(r), r.dawg == *dawg, r.nd@ == IMap::<u32, (u32, int)>::empty(), r.done@ == Set::<u32>::empty()
@end
@fn DictionaryBuilder.BuildDictionary
@requires blank(*old(self)), dinv(old(self).dawg)
@ensures r, lays(dgd(old(self).dawg), final(self).dict.units@), final(self).dict.size == final(self).dict.units@.len(), final(self).dawg == old(self).dawg
@at entry
  hide(awf); hide(placed_ok);
  let ghost s0 = *self;
  let ghost d = dgd(s0.dawg);
  proof { nset_bound(bits(s0.dawg.flagPool)); let n = s0.dawg.numOfMergingStates; assert(n >= 0 ==> (n >> 1) == n / 2) by(bit_vector); }
@at before call reserveUnit 1
  proof { blank_awf(*self); }
  let ghost s1 = *self;
@at after call reserveUnit 1
  let ghost m = *self;
  proof { awf_at(m, 0); }
@at after call dictSetLabel 1
  self.grp = Ghost(Map::<u32, int>::empty().insert(0, 0));
  self.nd = Ghost(IMap::<u32, (u32, int)>::empty().insert(0, (0u32, 0int)));
  self.done = Ghost(Set::<u32>::empty());
  let ghost mut s2 = *self;
  proof {
    assert(self.units@ =~= m.units@.update(0, setlab(setoff(0, 1), 0)));
    assert(upd(m.extras@, self.extras@, 0, DictionaryExtraUnit { hiValues: at(m.extras@, 0).hiValues | 1, ..at(m.extras@, 0) }));
    begin_ok(s1, m, *self); awf_at(*self, 1);
  }
@at after call setIsUsed 2
  self.grp = Ghost(s2.grp@.insert(1, 0));
  self.done = Ghost(Set::<u32>::empty().insert(0));
  proof { empty_ok(s2, *self); }
@at before call fixAllBlocks 1
  proof { s2 = *self; assert(forall|i: u32| !#[trigger] todo(s2, i)); }
@at after call fixAllBlocks 1
  proof { layout_of(s2, *self); }
@end
@fn Dawg.Build
@requires dinv(*self)
@ensures r is Some, lays(dgd(*self), r->0.units@), r->0.size == r->0.units@.len()
@end
@fn Dawg.BuildWithUnused
@requires dinv(*self)
@ensures r is Some, lays(dgd(*self), r->0.units@), r->0.size == r->0.units@.len()
@end
@share DictionaryBuilder.BuildDictionary: db.units -- the builder writes nothing after handing its units over
@share Dawg.Build: dawg -- the automaton is only read
@share Dawg.BuildWithUnused: dawg -- the automaton is only read
@fn DictionaryExtraUnit.setNext
@ensures *final(self) == e_next(*old(self), next)
@end
@fn DictionaryExtraUnit.setPrev
@ensures *final(self) == e_prev(*old(self), prev)
@end
@fn DictionaryExtraUnit.next
@ensures r == enext(*self)
@end
@fn DictionaryExtraUnit.prev
@ensures r == eprev(*self)
@end
@fn DictionaryExtraUnit.isFixed
@ensures r == efix(*self)
@end
@fn DictionaryExtraUnit.isUsed
@ensures r == eused(*self)
@end
