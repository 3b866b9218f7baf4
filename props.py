# What decides each property. specs: contract files verified for it; the other fields describe the check.
ASSUMPTIONS = [
  'RESOURCE: no slice or string reaches 2^29 elements (go_len, go_push, go_extend in specs/prelude.rs)',
  'the extraction (go2verus) maps Go to Verus faithfully: slices and pointers get value semantics, with every kept second reference rejected or listed under shared_references',
  'Verus and Z3 are sound; the Go compiler and runtime implement the language',
  'machine integers are exact: Verus checks every + - * for overflow except in functions marked @wrapping, where they wrap as in Go',
]
DED = 'contracts on the extracted Go functions, discharged by Verus'
PROPS = {
  'C08': dict(specs=['utfc'], level='proof', technique=DED, theorems=['prop_utfc_round_trip', 'UtfcEncode (enc_all_nonzero)'],
    note='Unbounded: every UTF-C function is under contract; round trip and absence of zero bytes are a lemma over the contracts. Trusted: Go rune decoding (go_runes, go_rune_string).'),
  'C09': dict(specs=['utfc'], level='proof', technique=DED, theorems=['UtfcState.Follow', 'UtfcFollow', 'UtfcEncode'],
    note='Unbounded: postconditions over the ghost sequence of bytes offered to an arbitrary consumer. Trusted: Go rune decoding.'),
}
PROPS['C07'] = dict(specs=['dict', 'persist'], level='proof', technique=DED, theorems=['prop_read_back32', 'prop_read_backg', 'prop_truncated32', 'prop_truncatedg'],
  note='Unbounded: Read and Write of all four structures are under contract over the bytes of the stream; round trip and refusal of truncated images are lemmas. Trusted: encoding/binary reads and writes little-endian images whole or fails.')
PROPS['C02'] = dict(specs=['auto', 'dawgbuild'], level='proof', technique=DED, theorems=['DawgBuilder.InsertKeyValue', 'DawgBuilder.Finish'],
  note='Unbounded: every DawgBuilder function is under contract; the content of a builder is a ghost map, insertion accepts exactly and stores exactly, Finish hands it to the automaton.')
PROPS['C10'] = dict(specs=['auto', 'dawgbuild'], level='proof', technique=DED, theorems=['DawgBuilder.Finish', 'DawgBuilder.InsertKeyValue', 'DawgBuilder.fixUnits'],
  note='Unbounded: Finish leaves the builder in the state of a new one whatever the target held; independence of what was finished before is the value semantics of the extraction, which rejects shared slices.')
LAY = ['auto', 'dict', 'layout', 'dawgbuild', 'dictbuild']
PROPS['C01'] = dict(specs=LAY, level='proof', technique=DED, theorems=['prop_history', 'prop_lookup', 'DawgBuilder.InsertKeyValue', 'DawgBuilder.Finish', 'Dawg.Build', 'Dictionary.FindStringLenValue'], quick_s=40, quick_rounds=4,
  note='Unbounded: every function from insertion to lookup is under contract; prop_lookup: for every history of insertions the built dictionary finds exactly what the history gave. Length arguments range over 0..len(key).')
PROPS['C03'] = dict(specs=LAY, level='proof', technique=DED, theorems=['prop_prefix', 'Dictionary.Follow', 'Dictionary.FollowStringLenCount', 'Dictionary.HasValue', 'Dictionary.Value', 'Dawg.Build'], quick_s=40, quick_rounds=4,
  note='Unbounded: prop_prefix: for every history, walking the built dictionary succeeds exactly on prefixes of keys, for all 256 labels at every reached position; the Follow variants are proved to do that walk and to count its steps.')
PROPS['C04'] = dict(specs=['auto', 'dict', 'layout', 'guide', 'complete'], whole=LAY + ['guide', 'complete', 'index', 'compose'], level='proof', technique=DED, theorems=['prop_complete', 'prop_run', 'BuildGuide', 'Completer.StartStringLen', 'Completer.Next'], quick_s=40, quick_rounds=4,
  note='Unbounded: guide builder and completer are under contract; what remains to be reported is a ghost list, Start makes it the sorted list of the keys below the position, Next takes its first entry or reports the end. Prefix length arguments range over 0..len(prefix).')
PROPS['C06'] = dict(specs=['auto', 'dict', 'layout', 'guide', 'complete', 'index'], whole=LAY + ['guide', 'complete', 'index', 'compose'], level='proof', technique=DED, theorems=['prop_index', 'fitting_lists', 'BuildIndex', 'IndexBuilder.buildIndices', 'Indexer.BytesToIndex', 'Indexer.IndexToBytes'], quick_s=40, quick_rounds=4,
  assumptions=['RESOURCE: fewer than 2^32-2 keys (countable), so that counts fit their 32-bit units', 'the guide behind the SomeGuide interface is a *Guide (@iface); ranked guides are outside the property'],
  note='Unbounded: index builder and indexer are under contract over the sorted list of all keys: every reached unit holds the number of keys below it, StringToIndex and IndexToString are proved inverse and order-preserving.')
PROPS['C05'] = dict(specs=['auto', 'dict', 'layout', 'guide', 'complete', 'ranked', 'rcomplete'], whole=LAY + ['guide', 'complete', 'ranked', 'rcomplete', 'rcompose'], level='proof', technique=DED, theorems=['prop_ranked', 'BuildRankedGuide', 'RankedCompleter.StartStringLen', 'RankedCompleter.Next', 'RankedCompleter.findTerminal', 'RankedCompleter.findSibling', 'heap_Push', 'heap_Pop'], quick_s=40, quick_rounds=4,
  assumptions=['sort.SliceStable sorts by the given order and keeps the elements (go_sort in specs/prelude.rs)', 'the functions of container/heap are verified as read from GOROOT, with heap.Interface instantiated at *RankedCompleterCandidateQueue (@std)'],
  note='Unbounded: ranked guide builder, ranked completer, its queue and container/heap are under contract; the nodes are a tree of transitions in rank order, every unreported key is below a waiting sibling or is a candidate, so the front candidate has the greatest remaining value. Default value order; prefix length arguments range over 0..len(prefix).')
PROPS['C12'] = dict(specs=['frame'], level='proof', technique=DED, theorems=['prop_interleaving', 'every function reachable from the exported queries (generated frame contract)'], quick_s=40, quick_rounds=4, race=True,
  assumptions=['partial correctness: a call that panics or does not end is not covered (positions outside a slice go through go_inside, which then does not return)', 'the functions of container/heap are read from GOROOT (@std)', 'the guide behind the SomeGuide interface is a *Guide (@iface)', 'memory that is only read is race free, so calls may overlap at any granularity'],
  note='Unbounded: every query function, and every function it reaches, has a generated contract: the dictionary, guide and index it was given are what they were; no package variable that is written may be touched. prop_interleaving: whatever the schedule, a reader ends where its calls alone end.')
PROPS['C11'] = dict(specs=['auto', 'dawgbuild', 'dawgmin'], level='proof', technique=DED, theorems=['DawgBuilder.Finish (minimal)', 'lang_uniq', 'min_rests', 'min_outs', 'tree_add', 'DawgBuilder.findUnit', 'DawgBuilder.expandHashTable', 'DawgBuilder.fixUnits', 'DawgBuilder.InsertKeyValue'], quick_s=40, quick_rounds=4,
  assumptions=['RESOURCE: fewer than 2^62 transitions in the prefix tree, so that the count of merged transitions does not wrap'],
  note='Unbounded: the hash table is proved to hold every group where a search finds it (also after expansion), so no two groups have the same contents, hence (lang_uniq) no two the same language, and each is reached; Finish reports the number of distinct non-empty rests, of the ways out of them, and what merging saved of the prefix tree, whose transitions are a ghost list kept by InsertKeyValue.')
NOT_APPLICABLE = {
  'C13': 'The command-line tool (cmd/dawgtool) is files, flags and standard streams around the library; no contract within reach of the extraction expresses what a process prints for a file system state.',
}
