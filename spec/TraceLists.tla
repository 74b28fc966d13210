------------------------------- MODULE TraceLists -------------------------------
EXTENDS Lists, Trace
R == T[i]
Fails(f, want) == f = <<>> \/ f[1] # want
Pairs == <<
  <<"exception in a list utility", R.exc # <<>> >>,
  <<"arguments were altered", R.after # <<R.xs, R.ys>> >>,
  <<"unique is not the first occurrences in order", Fails(R.unique, Unique(R.xs))>>,
  <<"diff is not the multiset difference in order", Fails(R.diff, Diff(R.xs, R.ys))>>,
  <<"eq_elems is not equality up to order", Fails(R.eq_elems, SameElems(R.xs, R.ys))>>,
  <<"hashable versions disagree with sets", R.sets = <<>> \/ Range(R.sets[1][1]) # Range(R.xs) \/ R.sets[1][2] # (Range(R.xs) = Range(R.ys)) \/ Range(R.sets[1][3]) # Range(R.xs) \ Range(R.ys)>>,
  <<"partition is wrong", Fails(R.partition, <<Evens(R.xs), Odds(R.xs)>>)>>,
  <<"group_by is wrong", R.group_by = <<>> \/ Range(R.group_by[1]) # Groups(R.xs) \/ Len(R.group_by[1]) # Cardinality(Groups(R.xs))>>,
  <<"first is wrong", Fails(R.first, <<FirstOver(R.xs, 0, 77), FirstOver(R.xs, 1, 77)>>)>>,
  <<"chunk is wrong", Fails(R.chunk, [n \in 1..3 |-> Chunks(R.xs, n)])>>,
  <<"flatten is wrong", Fails(R.flatten, R.xs \o R.ys \o R.xs)>>,
  <<"unzip is wrong", Fails(R.unzip, Unzip(<<R.xs, R.ys>>)) \/ Fails(R.unzip_lazy, Unzip(<<R.xs, R.ys>>))>>,
  <<"foldq does not consume as documented", \E f \in Range(R.foldq) : f.res = <<>> \/ f.res[1] # FoldQ(f.c, f.g, R.xs, <<>>)>>,
  <<"foldq_ does not raise exactly on leftovers", \E f \in Range(R.foldq) : LET w == FoldQ(f.c, f.g, R.xs, <<>>) IN f.strict # (IF w[2] = <<>> THEN <<w[1]>> ELSE <<>>) \/ f.error # (IF w[2] = <<>> THEN "" ELSE "ValueError")>>,
  <<"zip_maps is not over the common keys", R.zip_maps = <<>> \/ Len(R.zip_maps[1]) # Cardinality(Range(R.xs) \cap Range(R.ys))
        \/ Range(R.zip_maps[1]) # {<<k, <<k + 10, k + 20>> >> : k \in Range(R.xs) \cap Range(R.ys)}>>,
  <<"update_dict_with does not combine as documented", R.update = <<>> \/ Len(R.update[1]) # Cardinality(Range(R.xs) \cup Range(R.ys))
        \/ Range(R.update[1]) # {<<k, IF k \notin Range(R.ys) THEN <<k>> ELSE IF k \notin Range(R.xs) THEN <<-k>> ELSE <<k, -k>> >> : k \in Range(R.xs) \cup Range(R.ys)}
        \/ ~ R.updsame>>,
  <<"on, on_m or on_a does not apply to all in order", Fails(R.on, [j \in DOMAIN R.xs |-> R.xs[j] + 5]) \/ Fails(R.on_m, [j \in DOMAIN R.xs |-> R.xs[j] + 7]) \/ Fails(R.on_a, R.xs)>>
>>
Graphs == LET t == Topo(R.es, <<>>) IN <<
  <<"nodes are not sorted after what they depend on", ~ t[2] /\ (R.res = <<>> \/ ~ Sorted(R.res[1], R.es) \/ SetToSeq(Range(R.res[1])) # SetToSeq({e[1] : e \in Range(R.es)}) \/ Len(R.res[1]) # Len(R.es))>>,
  <<"unsortable nodes are not refused", t[2] /\ R.error # "ValueError">>,
  <<"arguments were altered", R.after # R.es>>
>>
Verdict == Report(CASE R.kind = "pair" -> Pairs [] R.kind = "graph" -> Graphs
                    [] OTHER -> << <<"overlap of intervals is wrong", Fails(R.res, Overlap(R.q[1], R.q[2], R.q[3], R.q[4]))>> >>)
=============================================================================
