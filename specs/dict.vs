@raw
// ---------------------------------------------------------------- the double array
pub open spec fn off(u: u32) -> u32 { (u >> 10) << ((u & 0x200) >> 6) }
pub open spec fn lab(u: u32) -> u32 { u & 0x8000_00ff }
pub open spec fn hasleaf(u: u32) -> bool { u & 0x100 != 0 }
// the unit a byte leads to, and whether there is such a transition
pub open spec fn nx(us: Seq<u32>, i: u32, c: u8) -> u32 { i ^ off(us[i as int]) ^ (c as u32) }
pub open spec fn follows(us: Seq<u32>, i: u32, c: u8) -> bool { lab(us[nx(us, i, c) as int]) == c as u32 }
pub open spec fn leafval(us: Seq<u32>, i: u32) -> i32 { (us[(i ^ off(us[i as int])) as int] & 0x7fff_ffff) as i32 }
pub open spec fn walk(us: Seq<u32>, i: u32, k: Seq<u8>) -> Option<u32>
  decreases k.len()
{
  if k.len() == 0 { Some(i) }
  else if follows(us, i, k[0]) { walk(us, nx(us, i, k[0]), k.drop_first()) }
  else { None }
}
// what a lookup answers
pub open spec fn find(us: Seq<u32>, k: Seq<u8>) -> Option<i32> {
  match walk(us, 0, k) { Some(i) => if hasleaf(us[i as int]) { Some(leafval(us, i)) } else { None }, None => None }
}
// how many bytes of k can be followed
pub open spec fn reach(us: Seq<u32>, i: u32, k: Seq<u8>) -> nat
  decreases k.len()
{
  if k.len() == 0 { 0 } else if follows(us, i, k[0]) { 1 + reach(us, nx(us, i, k[0]), k.drop_first()) } else { 0 }
}

// a set of positions closed under following
pub open spec fn nodes(us: Seq<u32>, n: Set<u32>) -> bool {
  &&& us.len() % 256 == 0 && 0 < us.len() < MAXLEN
  &&& forall|i: u32| #[trigger] n.contains(i) ==> i < us.len() && nx(us, i, 0) < us.len()
  &&& forall|i: u32, c: u8| n.contains(i) && #[trigger] follows(us, i, c) ==> n.contains(nx(us, i, c))
}
pub open spec fn node(us: Seq<u32>, i: u32) -> bool { exists|n: Set<u32>| #[trigger] nodes(us, n) && n.contains(i) }

pub proof fn xor_block(a: u32, c: u32, n: u32)
  requires a < n, n % 256 == 0, c < 256
  ensures (a ^ c) < n
{ assert((a ^ c) < n) by(bit_vector) requires a < n, n % 256 == 0, c < 256; }

pub proof fn nx_range(us: Seq<u32>, i: u32, c: u8)
  requires node(us, i)
  ensures i < us.len(), nx(us, i, c) < us.len(), nx(us, i, 0) == i ^ off(us[i as int]), nx(us, i, 0) < us.len()
{
  let o = off(us[i as int]);
  assert((i ^ o ^ 0u32) == (i ^ o)) by(bit_vector);
  xor_block(i ^ o, c as u32, us.len() as u32);
}
pub proof fn nx_node(us: Seq<u32>, i: u32, c: u8)
  requires node(us, i), follows(us, i, c)
  ensures node(us, nx(us, i, c))
{ }

pub proof fn walk_push(us: Seq<u32>, i: u32, k: Seq<u8>, n: int)
  requires 0 <= n < k.len()
  ensures
    walk(us, i, k.take(n)) is Some ==> walk(us, i, k.take(n + 1)) == (if follows(us, walk(us, i, k.take(n))->0, k[n]) { Some(nx(us, walk(us, i, k.take(n))->0, k[n])) } else { None }),
    walk(us, i, k.take(n)) is None ==> walk(us, i, k.take(n + 1)) is None,
  decreases n
{
  reveal_with_fuel(walk, 2);
  if n == 0 {
    assert(k.take(0).len() == 0);
    assert(k.take(1)[0] == k[0]); assert(k.take(1).drop_first() =~= Seq::<u8>::empty());
  } else {
    let d = k.drop_first();
    assert(k.take(n).drop_first() =~= d.take(n - 1));
    assert(k.take(n + 1).drop_first() =~= d.take(n));
    assert(k.take(n)[0] == k[0]); assert(k.take(n + 1)[0] == k[0]);
    if follows(us, i, k[0]) { walk_push(us, nx(us, i, k[0]), d, n - 1); }
  }
}
pub proof fn walk_none(us: Seq<u32>, i: u32, k: Seq<u8>, n: int)
  requires 0 <= n <= k.len(), walk(us, i, k.take(n)) is None
  ensures walk(us, i, k) is None
  decreases k.len() - n
{ if n < k.len() { walk_push(us, i, k, n); walk_none(us, i, k, n + 1); } else { assert(k.take(n) =~= k); } }
pub proof fn walk_node(us: Seq<u32>, i: u32, k: Seq<u8>)
  requires node(us, i), walk(us, i, k) is Some
  ensures node(us, walk(us, i, k)->0)
  decreases k.len()
{ if k.len() > 0 { nx_node(us, i, k[0]); walk_node(us, nx(us, i, k[0]), k.drop_first()); } }
pub proof fn reach_is(us: Seq<u32>, i: u32, k: Seq<u8>, n: int)
  requires 0 <= n <= k.len(), walk(us, i, k.take(n)) is Some, n < k.len() ==> walk(us, i, k.take(n + 1)) is None
  ensures reach(us, i, k) == n
  decreases n
{
  reveal_with_fuel(walk, 2); reveal_with_fuel(reach, 2);
  if n > 0 {
    let d = k.drop_first();
    assert(k.take(n).drop_first() =~= d.take(n - 1)); assert(k.take(n)[0] == k[0]);
    if n < k.len() { assert(k.take(n + 1).drop_first() =~= d.take(n)); assert(k.take(n + 1)[0] == k[0]); }
    reach_is(us, nx(us, i, k[0]), d, n - 1);
  } else if k.len() > 0 { assert(k.take(1)[0] == k[0]); assert(k.take(1).drop_first() =~= Seq::<u8>::empty()); }
}
// a prefix of the key reaches at least as far
pub proof fn walk_prefix(us: Seq<u32>, i: u32, k: Seq<u8>, n: int)
  requires 0 <= n <= k.len(), walk(us, i, k) is Some
  ensures walk(us, i, k.take(n)) is Some
{ if walk(us, i, k.take(n)) is None { walk_none(us, i, k, n); } }

// the state of a FollowString loop
pub open spec fn at_pos(us: Seq<u32>, i0: u32, k: Seq<u8>, n: int, i: u32) -> bool { walk(us, i0, k.take(n)) == Some(i) }
@end

@fn dictHasLeaf
@ensures r == hasleaf(base)
@end
@fn dictValue
@ensures r == (base & 0x7fff_ffff) as i32
@at entry
  proof { assert((base & !0x8000_0000u32) == (base & 0x7fff_ffff)) by(bit_vector); }
@end
@fn dictLabel
@ensures r == lab(base)
@at entry
  proof { assert((base & (0x8000_0000u32 | 0xff)) == (base & 0x8000_00ff)) by(bit_vector); }
@end
@fn dictOffset
@ensures r == off(base)
@at entry
  proof {
    assert(((base & 0x200) >> 6) < 32) by(bit_vector);
    assert(((base & 0x200) >> 6) == (if base & 0x200 != 0 { 8u32 } else { 0u32 })) by(bit_vector);
    assert((base >> 10) << 0u32 == base >> 10) by(bit_vector);
  }
@end

@fn Dictionary.setUnits
@ensures final(self).units@ == units@, final(self).size == units@.len(), units@.len() < MAXLEN
@end
@fn Dictionary.Size
@ensures r == self.size
@end
@fn Dictionary.Root
@ensures r == 0
@end
@fn NewDictionary
@ensures r.units@.len() == 0, r.size == 0
@end
@fn Dictionary.HasValue
@requires node(self.units@, index)
@ensures r == hasleaf(self.units@[index as int])
@at entry
  proof { nx_range(self.units@, index, 0); }
@end
@fn Dictionary.Value
@requires node(self.units@, index)
@ensures r == leafval(self.units@, index)
@at entry
  proof { nx_range(self.units@, index, 0); }
@end

@fn Dictionary.Follow
@requires node(self.units@, *old(index))
@ensures
  r == follows(self.units@, *old(index), label),
  r ==> *final(index) == nx(self.units@, *old(index), label) && node(self.units@, *final(index)),
  !r ==> *final(index) == *old(index)
@at entry
  proof { nx_range(self.units@, *index, label); }
@end

@fn Dictionary.FollowString
@requires node(self.units@, *old(index))
@ensures
  r == (walk(self.units@, *old(index), key@) is Some),
  r ==> walk(self.units@, *old(index), key@) == Some(*final(index)) && node(self.units@, *final(index)),
  walk(self.units@, *old(index), key@.take(reach(self.units@, *old(index), key@) as int)) == Some(*final(index)), node(self.units@, *final(index))
@at entry
  proof { assert(key@.take(key@.len() as int) =~= key@); }
@loop 1
  invariant 0 <= i <= key@.len(), node(self.units@, *index), at_pos(self.units@, *old(index), key@, i as int, *index)
  decreases key@.len() - i
@at begin 1
  proof { walk_push(self.units@, *old(index), key@, i as int); }
@at return 1
  proof { walk_none(self.units@, *old(index), key@, i + 1); reach_is(self.units@, *old(index), key@, i as int); }
@at after loop 1
  proof { assert(key@.take(key@.len() as int) =~= key@); reach_is(self.units@, *old(index), key@, key@.len() as int); }
@end

@fn Dictionary.FollowStringLen
@requires node(self.units@, *old(index)), 0 <= length <= key@.len()
@ensures
  r == (walk(self.units@, *old(index), key@.take(length as int)) is Some),
  r ==> walk(self.units@, *old(index), key@.take(length as int)) == Some(*final(index)),
  walk(self.units@, *old(index), key@.take(length as int).take(reach(self.units@, *old(index), key@.take(length as int)) as int)) == Some(*final(index)), node(self.units@, *final(index))
@at entry
  proof { assert(key@.subrange(0, length as int) =~= key@.take(length as int)); }
@loop 1
  invariant 0 <= i <= length, node(self.units@, *index), at_pos(self.units@, *old(index), key@.take(length as int), i as int, *index)
  decreases length - i
@at begin 1
  proof { walk_push(self.units@, *old(index), key@.take(length as int), i as int); assert(key@.take(length as int)[i as int] == key@[i as int]); }
@at return 1
  proof { walk_none(self.units@, *old(index), key@.take(length as int), i + 1); reach_is(self.units@, *old(index), key@.take(length as int), i as int); }
@at after loop 1
  proof { assert(key@.take(length as int).take(length as int) =~= key@.take(length as int)); reach_is(self.units@, *old(index), key@.take(length as int), length as int); }
@end

@fn Dictionary.FollowStringCount
@requires node(self.units@, *old(index)), *old(count) + key@.len() <= 0x7fff_ffff_ffff_ffff
@ensures
  r == (walk(self.units@, *old(index), key@) is Some),
  r ==> walk(self.units@, *old(index), key@) == Some(*final(index)),
  *final(count) == *old(count) + reach(self.units@, *old(index), key@),
  walk(self.units@, *old(index), key@.take(reach(self.units@, *old(index), key@) as int)) == Some(*final(index)), node(self.units@, *final(index))
@at entry
  proof { assert(key@.take(key@.len() as int) =~= key@); }
@loop 1
  invariant 0 <= i <= key@.len(), node(self.units@, *index), at_pos(self.units@, *old(index), key@, i as int, *index), *count == *old(count) + i
  decreases key@.len() - i
@at begin 1
  proof { walk_push(self.units@, *old(index), key@, i as int); }
@at return 1
  proof { walk_none(self.units@, *old(index), key@, i + 1); reach_is(self.units@, *old(index), key@, i as int); }
@at after loop 1
  proof { assert(key@.take(key@.len() as int) =~= key@); reach_is(self.units@, *old(index), key@, key@.len() as int); }
@end

@fn Dictionary.FollowStringLenCount
@requires node(self.units@, *old(index)), 0 <= length <= key@.len(), *old(count) + length <= 0x7fff_ffff_ffff_ffff
@ensures
  r == (walk(self.units@, *old(index), key@.take(length as int)) is Some),
  r ==> walk(self.units@, *old(index), key@.take(length as int)) == Some(*final(index)),
  *final(count) == *old(count) + reach(self.units@, *old(index), key@.take(length as int)),
  walk(self.units@, *old(index), key@.take(length as int).take(reach(self.units@, *old(index), key@.take(length as int)) as int)) == Some(*final(index)), node(self.units@, *final(index))
@at entry
  proof { assert(key@.subrange(0, length as int) =~= key@.take(length as int)); }
@loop 1
  invariant 0 <= i <= length, node(self.units@, *index), at_pos(self.units@, *old(index), key@.take(length as int), i as int, *index), *count == *old(count) + i
  decreases length - i
@at begin 1
  proof { walk_push(self.units@, *old(index), key@.take(length as int), i as int); assert(key@.take(length as int)[i as int] == key@[i as int]); }
@at return 1
  proof { walk_none(self.units@, *old(index), key@.take(length as int), i + 1); reach_is(self.units@, *old(index), key@.take(length as int), i as int); }
@at after loop 1
  proof { assert(key@.take(length as int).take(length as int) =~= key@.take(length as int)); reach_is(self.units@, *old(index), key@.take(length as int), length as int); }
@end

@fn Dictionary.ContainsString
@requires node(self.units@, 0)
@ensures r == (find(self.units@, key@) is Some)
@at entry
  proof { assert(key@.take(key@.len() as int) =~= key@); }
@end
@fn Dictionary.ContainsStringLen
@requires node(self.units@, 0), 0 <= length <= key@.len()
@ensures r == (find(self.units@, key@.take(length as int)) is Some)
@at entry
  proof { assert(key@.subrange(0, length as int) =~= key@.take(length as int)); }
@end
@fn Dictionary.FindString
@requires node(self.units@, 0)
@ensures find(self.units@, key@) matches Some(v) ==> r == v, find(self.units@, key@) is None ==> r == -1
@at entry
  proof { assert(key@.take(key@.len() as int) =~= key@); }
@end
@fn Dictionary.FindStringLen
@requires node(self.units@, 0), 0 <= length <= key@.len()
@ensures find(self.units@, key@.take(length as int)) matches Some(v) ==> r == v, find(self.units@, key@.take(length as int)) is None ==> r == -1
@at entry
  proof { assert(key@.subrange(0, length as int) =~= key@.take(length as int)); }
@end
@fn Dictionary.FindStringValue
@requires node(self.units@, 0)
@ensures r == (find(self.units@, key@) is Some), r ==> Some(*final(value)) == find(self.units@, key@), !r ==> *final(value) == *old(value)
@at entry
  proof { assert(key@.take(key@.len() as int) =~= key@); }
@end
@fn Dictionary.FindStringLenValue
@requires node(self.units@, 0), 0 <= length <= key@.len()
@ensures r == (find(self.units@, key@.take(length as int)) is Some), r ==> Some(*final(value)) == find(self.units@, key@.take(length as int)), !r ==> *final(value) == *old(value)
@at entry
  proof { assert(key@.subrange(0, length as int) =~= key@.take(length as int)); }
@end
