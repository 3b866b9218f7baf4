@raw
// C05 over histories: what a ranked completer has reported when it says that there is no more are the insertions below p
pub proof fn prop_ranked_history(st: Seq<DawgBuilder>, h: Seq<(Seq<u8>, i32, bool)>, d: Dawg, dict: Dictionary, cs: Seq<RankedCompleter>, rs: Seq<bool>, p: Seq<u8>, i: u32, pre: Seq<u8>, s: Seq<KV>, m: int, n: int, k: Seq<u8>, v: i32)
  requires history(st, h), finished(st.last(), d), lays(dgd(d), dict.units@), walk(dict.units@, 0, p) == Some(i), rrun(cs, rs), cs[0].dict == dict, rstarted(cs[0], i, pre), lists(dict.units@, i, pre, s), 0 <= n < rs.len()
  ensures
    rs[n] ==> prefixed(told(cs[n + 1]).0, pre) && given(h, p + told(cs[n + 1]).0.skip(pre.len() as int)) == Some(told(cs[n + 1]).1),
    rs[n] && 0 <= m < n ==> rs[m] && told(cs[m + 1]).0 != told(cs[n + 1]).0 && told(cs[m + 1]).1 >= told(cs[n + 1]).1,
    !rs[n] && given(h, p + k) == Some(v) ==> exists|j: int| 0 <= j < n && rs[j] && told(#[trigger] cs[j + 1]) == (pre + k, v),
{
  prop_ranked(cs, rs, dict.units@, p, i, pre, s, m, n, k, v);
  prop_lookup(st, h, d, dict, p + k);
  prop_lookup(st, h, d, dict, p + told(cs[n + 1]).0.skip(pre.len() as int));
}
@end
