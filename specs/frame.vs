@iface interface{} = RankedCompleterCandidate
@std container/heap Push Pop up down: Interface = *RankedCompleterCandidateQueue
@frame Dictionary Guide RankedGuide Index Indexer
@frameskip Guide.Clear RankedGuide.Clear Index.Clear Dictionary.Clear Dictionary.Read Guide.Read RankedGuide.Read Index.Read Dictionary.Write Guide.Write RankedGuide.Write Index.Write
@frameskip DictionaryBuilder.* GuideBuilder.* RankedGuideBuilder.* IndexBuilder.*
@frameroot NewCompleter NewRankedCompleter NewIndexer
@share RankedCompleterCandidateQueue.Pop: old[0:n-1] -- the shortened slice replaces the queue
@share RankedCompleterCandidateQueue.Pop: item -- candidates are not written after they are made
// The functions under contract take their results from their receiver and arguments alone (the extraction refuses
// package variables that are written, and everything outside the package but container/heap as read), and leave the
// structures they share as they were.  One call by reader i is then a step of the reader's own state o[i] with the
// shared structures s fixed; whatever the schedule, a reader ends where it ends when its calls are made alone.
@raw
pub open spec fn run_all<S, O>(s: S, o: Seq<O>, calls: Seq<(int, spec_fn(S, O) -> (S, O))>) -> (S, Seq<O>)
  decreases calls.len()
{
  if calls.len() == 0 { (s, o) } else {
    let (s1, o1) = run_all(s, o, calls.drop_last());
    let (i, f) = calls.last();
    if 0 <= i < o1.len() { let (s2, x) = f(s1, o1[i]); (s2, o1.update(i, x)) } else { (s1, o1) }
  }
}
pub open spec fn run_one<S, O>(s: S, x: O, calls: Seq<(int, spec_fn(S, O) -> (S, O))>, i: int) -> O
  decreases calls.len()
{
  if calls.len() == 0 { x } else {
    let y = run_one(s, x, calls.drop_last(), i);
    if calls.last().0 == i { (calls.last().1)(s, y).1 } else { y }
  }
}
pub open spec fn frames<S, O>(calls: Seq<(int, spec_fn(S, O) -> (S, O))>) -> bool {
  forall|k: int, s: S, x: O| 0 <= k < calls.len() ==> (#[trigger] (calls[k].1)(s, x)).0 == s
}
pub proof fn prop_interleaving<S, O>(s: S, o: Seq<O>, calls: Seq<(int, spec_fn(S, O) -> (S, O))>, i: int)
  requires frames(calls), 0 <= i < o.len()
  ensures run_all(s, o, calls).0 == s, run_all(s, o, calls).1.len() == o.len(), run_all(s, o, calls).1[i] == run_one(s, o[i], calls, i)
  decreases calls.len()
{
  if calls.len() > 0 {
    let c = calls.drop_last();
    assert forall|k: int, t: S, x: O| 0 <= k < c.len() implies (#[trigger] (c[k].1)(t, x)).0 == t by { assert(c[k] == calls[k]); assert((calls[k].1)(t, x).0 == t); }
    prop_interleaving(s, o, c, i);
    let (s1, o1) = run_all(s, o, c);
    let (j, f) = calls.last();
    if 0 <= j < o1.len() { assert(calls[calls.len() - 1] == calls.last()); assert((calls[calls.len() - 1].1)(s1, o1[j]).0 == s1); }
  }
}
@end
