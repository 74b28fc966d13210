----------------------------- MODULE TracePiecewise -----------------------------
EXTENDS Piecewise, Trace
R == T[i]
Want(w) == [j \in DOMAIN R.xs |-> w * Value(R.p, R.xs[j])]
Differs(f, w) == f = <<>> \/ f[1] # Want(w)
Verdict == Report(<<
  <<"exception while generating", R.exc # <<>> >>,
  <<"the piecewise function has other values", R.p.kind # "one" /\ Differs(R.maker, 1)>>,
  <<"the generated data are not the function, weighted, plus the weighted noise", Differs(R.data, R.weight)>>,
  <<"the values depend on the order or number of the points", Differs(R.shuffled, R.weight)>>,
  <<"the points are not returned as given, in a column", R.x = <<>> \/ R.x[1] # [j \in DOMAIN R.xs |-> <<R.xs[j]>>]>>
>>)
=============================================================================
