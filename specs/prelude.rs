#![allow(unused_imports, unused_variables, unused_mut, unused_assignments, non_snake_case, non_upper_case_globals, non_camel_case_types, dead_code, unused_parens, unused_must_use, unreachable_code, path_statements)]
// Trusted prelude: the Go operations the extracted text uses, with their Go semantics.
use vstd::prelude::*;
use vstd::seq::*;
use vstd::map::*;
use vstd::set::*;

verus! {

global size_of usize == 8;

// RESOURCE ASSUMPTION: no slice or string grows to MAXLEN elements (memory runs out first).
pub spec const MAXLEN: int = 0x2000_0000;

#[verifier::external_body]
pub fn go_len<T>(v: &Vec<T>) -> (r: i64)
  ensures r == v@.len(), 0 <= r < MAXLEN
{ v.len() as i64 }

#[verifier::external_body]
pub fn go_make<T: Copy>(n: i64, x: T) -> (r: Vec<T>)
  requires n >= 0
  ensures r@.len() == n < MAXLEN, forall|i: int| 0 <= i < n ==> #[trigger] r@[i] == x
{ let mut v = Vec::new(); v.resize(n as usize, x); v }

#[verifier::external_body]
pub fn go_push<T>(v: &mut Vec<T>, x: T)
  ensures final(v)@ == old(v)@.push(x), final(v)@.len() < MAXLEN
{ v.push(x) }

#[verifier::external_body]
pub fn go_extend<T: Copy>(v: &mut Vec<T>, x: &Vec<T>)
  ensures final(v)@ == old(v)@ + x@, final(v)@.len() < MAXLEN
{ v.extend_from_slice(&x[..]) }

#[verifier::external_body]
pub fn go_truncate<T>(v: &mut Vec<T>, n: i64)
  requires 0 <= n <= old(v)@.len()
  ensures final(v)@ == old(v)@.subrange(0, n as int)
{ v.truncate(n as usize) }

#[verifier::external_body]
pub fn go_slice<T: Copy>(v: &Vec<T>, lo: i64, hi: i64) -> (r: Vec<T>)
  requires 0 <= lo <= hi <= v@.len()
  ensures r@ == v@.subrange(lo as int, hi as int)
{ v[lo as usize..hi as usize].to_vec() }

#[verifier::external_body]
pub fn go_put<T: Copy>(v: &mut Vec<T>, lo: i64, x: &Vec<T>)
  requires 0 <= lo, lo + x@.len() <= old(v)@.len()
  ensures final(v)@ == old(v)@.subrange(0, lo as int) + x@ + old(v)@.subrange(lo + x@.len(), old(v)@.len() as int)
{ for i in 0..x.len() { v[lo as usize + i] = x[i]; } }

#[verifier::external_body]
pub fn go_swap<T>(v: &mut Vec<T>, i: i64, j: i64)
  requires 0 <= i < old(v)@.len(), 0 <= j < old(v)@.len()
  ensures final(v)@ == old(v)@.update(i as int, old(v)@[j as int]).update(j as int, old(v)@[i as int])
{ v.swap(i as usize, j as usize) }

// A second reference to (or copy of) a value; the extraction emits it only where the value is not written
// through one of the two names while the other is in use.
#[verifier::external_body]
pub fn go_share<T>(x: &T) -> (r: T)
  ensures r == *x
{ unimplemented!() }

#[verifier::external_body]
pub fn go_concat<T: Copy>(a: &Vec<T>, b: &Vec<T>) -> (r: Vec<T>)
  ensures r@ == a@ + b@
{ let mut v = a.clone(); v.extend_from_slice(&b[..]); v }

// the builtin copy into v[lo:hi]
#[verifier::external_body]
pub fn go_copy<T: Copy>(v: &mut Vec<T>, lo: i64, hi: i64, x: &Vec<T>) -> (r: i64)
  requires 0 <= lo <= hi <= old(v)@.len()
  ensures r == (if hi - lo <= x@.len() { hi - lo } else { x@.len() as int }), final(v)@.len() == old(v)@.len(), forall|i: int| 0 <= i < old(v)@.len() ==> #[trigger] final(v)@[i] == (if lo <= i < lo + r { x@[i - lo] } else { old(v)@[i] })
{ let n = core::cmp::min((hi - lo) as usize, x.len()); for i in 0..n { v[lo as usize + i] = x[i]; } n as i64 }

#[verifier::external_body]
pub fn go_eq(a: &Vec<u8>, b: &Vec<u8>) -> (r: bool)
  ensures r == (a@ == b@)
{ a == b }

// strings.IndexByte, bytes.IndexByte
#[verifier::external_body]
pub fn go_index_byte(s: &Vec<u8>, c: u8) -> (r: i64)
  ensures -1 <= r < s@.len(), r >= 0 ==> s@[r as int] == c, forall|i: int| 0 <= i < (if r >= 0 { r as int } else { s@.len() as int }) ==> #[trigger] s@[i] != c
{ unimplemented!() }

pub fn go_empty_string() -> (r: Vec<u8>)
  ensures r@ == Seq::<u8>::empty()
{ Vec::new() }

// sort.Slice and sort.SliceStable of v[lo:]: an order of the same elements in which nothing stands before a lesser one
pub open spec fn sorted_from<T>(s: Seq<T>, lo: int, less: spec_fn(T, T) -> bool) -> bool { forall|i: int, j: int| lo <= i < j < s.len() ==> !less(#[trigger] s[j], #[trigger] s[i]) }
pub open spec fn weak_order<T>(ord: spec_fn(T, T) -> bool) -> bool {
  &&& forall|a: T| !#[trigger] ord(a, a)
  &&& forall|a: T, b: T, c: T| #[trigger] ord(a, b) && #[trigger] ord(b, c) ==> ord(a, c)
  &&& forall|a: T, b: T, c: T| !#[trigger] ord(a, b) && !#[trigger] ord(b, c) ==> !ord(a, c)
}
#[verifier::external_body]
pub fn go_sort<T: Copy, F: Fn(T, T) -> bool>(v: &mut Vec<T>, lo: i64, less: F, Ghost(ord): Ghost<spec_fn(T, T) -> bool>)
  requires 0 <= lo <= old(v)@.len(), forall|a: T, b: T| #[trigger] less.requires((a, b)), forall|a: T, b: T, r: bool| #[trigger] less.ensures((a, b), r) ==> r == ord(a, b), weak_order(ord)
  ensures final(v)@.len() == old(v)@.len(), final(v)@.take(lo as int) == old(v)@.take(lo as int), final(v)@.skip(lo as int).to_multiset() == old(v)@.skip(lo as int).to_multiset(), sorted_from(final(v)@, lo as int, ord)
{ unimplemented!() }

// views of (nested) integer slices
pub open spec fn dv1(s: Seq<i64>) -> Seq<int> { Seq::new(s.len(), |i: int| s[i] as int) }
pub open spec fn dv2(s: Seq<Vec<i64>>) -> Seq<Seq<int>> { Seq::new(s.len(), |i: int| dv1(s[i]@)) }

// ---- shifts: Go shifts by >= width give 0
pub open spec fn shl32(a: u32, n: int) -> u32 { if n < 32 { a << (n as u32) } else { 0 } }
pub open spec fn shr32(a: u32, n: int) -> u32 { if n < 32 { a >> (n as u32) } else { 0 } }

pub fn go_shl_u8(a: u8, n: u64) -> (r: u8) ensures r == (if n < 8 { a << (n as u8) } else { 0u8 })
{ if n < 8 { a << (n as u8) } else { 0 } }
pub fn go_shr_u8(a: u8, n: u64) -> (r: u8) ensures r == (if n < 8 { a >> (n as u8) } else { 0u8 })
{ if n < 8 { a >> (n as u8) } else { 0 } }
pub fn go_shl_u32(a: u32, n: u64) -> (r: u32) ensures r == (if n < 32 { a << (n as u32) } else { 0u32 })
{ if n < 32 { a << (n as u32) } else { 0 } }
pub fn go_shr_u32(a: u32, n: u64) -> (r: u32) ensures r == (if n < 32 { a >> (n as u32) } else { 0u32 })
{ if n < 32 { a >> (n as u32) } else { 0 } }
pub fn go_shl_u64(a: u64, n: u64) -> (r: u64) ensures r == (if n < 64 { a << n } else { 0u64 })
{ if n < 64 { a << n } else { 0 } }
pub fn go_shr_u64(a: u64, n: u64) -> (r: u64) ensures r == (if n < 64 { a >> n } else { 0u64 })
{ if n < 64 { a >> n } else { 0 } }
#[verifier::external_body]
pub fn go_shl_i64(a: i64, n: u64) -> (r: i64) ensures n < 64 && a >= 0 ==> r == ((a as u64) << n) as i64
{ if n < 64 { ((a as u64) << n) as i64 } else { 0 } }
#[verifier::external_body]
pub fn go_shr_i64(a: i64, n: u64) -> (r: i64) ensures n < 64 && a >= 0 ==> r == ((a as u64) >> n) as i64
{ if n < 64 { a >> n } else if a < 0 { -1 } else { 0 } }

// ---- errors and streams
#[derive(Clone, Copy)]
pub struct GoError { pub e: bool }
impl GoError {
  pub fn is_some(&self) -> (r: bool) ensures r == self.e { self.e }
  pub fn is_none(&self) -> (r: bool) ensures r == !self.e { !self.e }
}

} // verus!
