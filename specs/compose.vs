@raw
// ---------------------------------------------------------------- from insertions to completions
// C04 over histories: what a completer reports are the insertions below p
pub proof fn prop_complete_history(st: Seq<DawgBuilder>, h: Seq<(Seq<u8>, i32, bool)>, d: Dawg, dict: Dictionary, p: Seq<u8>, i: u32, pre: Seq<u8>, s: Seq<KV>)
  requires history(st, h), finished(st.last(), d), lays(dgd(d), dict.units@), walk(dict.units@, 0, p) == Some(i), lists(dict.units@, i, pre, s)
  ensures increasing(s),
    forall|k: Seq<u8>, v: i32| #[trigger] s.contains((pre + k, v)) == (given(h, p + k) == Some(v)),
{
  prop_complete(dict.units@, p, i, pre, s);
  assert forall|k: Seq<u8>, v: i32| #[trigger] s.contains((pre + k, v)) == (given(h, p + k) == Some(v)) by { prop_lookup(st, h, d, dict, p + k); }
}
@end
@raw
// C06 over histories: the numbered keys are the inserted ones, with their values
pub proof fn prop_index_history(st: Seq<DawgBuilder>, h: Seq<(Seq<u8>, i32, bool)>, d: Dawg, dict: Dictionary, guide: Guide, k: Seq<u8>, v: i32)
  requires history(st, h), finished(st.last(), d), lays(dgd(d), dict.units@), fits(dict, guide)
  ensures increasing(keys(dict.units@)), keys(dict.units@).contains((k, v)) == (given(h, k) == Some(v))
{
  fitting_lists(dict, guide);
  let e = Seq::<u8>::empty(); assert(e + k =~= k);
  assert(keys(dict.units@).contains((e + k, v)) == (val_at(dict.units@, 0, k) == Some(v)));
  prop_lookup(st, h, d, dict, k);
}
@end
