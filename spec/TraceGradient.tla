---------------------------- MODULE TraceGradient ----------------------------
(* Judges recorded gradients: at every node (by path) for every free         *)
(* parameter and pair of points, the gradient which fitting would follow.    *)
EXTENDS Gradient, Trace

R == T[i]
(* an entry: [path, f, at |-> <<x, y, eq, of two sets>>, ok |-> whether a moderate number, v |-> 10^5 times it]; pairs off the diagonal count twice *)
Off(a, b) == a - b > 1 \/ b - a > 1
Twice(at, q) == IF at[3] \/ at[4] THEN q ELSE QAdd(q, q)
Clauses == <<
  <<"exception while computing gradients", R.exc # "">>,
  <<"not every free parameter has a gradient",
     R.g # <<>> /\ R.exact /\ {<<e.path, e.f>> : e \in Range(R.grads)} # UNION {{<<p, f>> : f \in Free(At(R.g[1], p))} : p \in Paths(R.g[1])}>>,
  <<"a gradient is not the derivative of the covariance",
     R.exact /\ \E e \in Range(R.grads) : ~ e.ok \/ Off(e.v, Scaled(Twice(e.at, D(R.g[1], e.path, e.f, e.at[1], e.at[2], e.at[3]))))>>,
  <<"a gradient is not the limit of differences of the covariance", R.off # <<>> >>,
  <<"a gradient depends on what was computed before", ~ R.again>>
>>
Verdict == Report(Clauses)
=============================================================================
