--------------------------- MODULE TracePosterior ---------------------------
(* Judges recorded predictions of fitted models: values are integers, 10^5   *)
(* times what was predicted.                                                 *)
EXTENDS Posterior, Trace
R == T[i]
Obs(c) == [j \in DOMAIN R.x |-> [x |-> R.x[j], id |-> j, new |-> FALSE, y |-> R.y[j][c]]]
New(j) == [x |-> R.at[j], id |-> 100 + j, new |-> TRUE]
Near(a, b, t) == a - b <= t /\ b - a <= t
H(q) == IF q.part = 0 THEN R.g[1] ELSE R.g[1].c[q.part]
S == QI(R.noise)
Noise(q, on) == QI(IF on THEN (IF q.noise = 0 THEN R.noise ELSE q.noise) ELSE 0)
Qs == Range(R.asked)
CovOf(q, a, b) == Cov(R.g[1], H(q), S, Obs(1), New(a), New(b))
Clauses == <<
  <<"exception while predicting", R.exc # "">>,
  <<"the predicted mean is not that of the posterior", \E q \in Qs : \E a \in DOMAIN R.at : \E c \in DOMAIN q.mean[a] :
       ~ Near(q.mean[a][c], Scaled(Mean(R.g[1], H(q), S, Obs(c), New(a))), 2)>>,
  <<"the predicted covariance is not that of the posterior", \E q \in Qs : \E a \in DOMAIN R.at : \E b \in DOMAIN R.at :
       /\ b = a \/ q.full
       /\ ~ Near(q.cov[a][IF q.full THEN b ELSE 1], Scaled(QAdd(CovOf(q, a, b), IF a = b THEN Noise(q, q.noisy) ELSE QI(0))), 2)>>,
  (* the square of a quantile's distance from the mean, over that of the standard normal distribution *)
  <<"a predicted quantile is not that of the posterior with its noise", \E q \in Qs : \E a \in DOMAIN R.at : \E v \in Range(q.quantiles[a]) :
       ~ Near(v, Scaled(QAdd(CovOf(q, a, a), Noise(q, TRUE))), 20)>>,
  <<"a quantile is on the wrong side of the mean, or the quantiles are exchanged", \E q \in Qs : ~ q.sides>>,
  <<"the predictions have the wrong shape", \E q \in Qs : ~ q.shape>>,
  <<"predicting changed the model, its data or what it is asked about", ~ R.kept>>,
  <<"predictions at generic points are not those of the posterior", R.off # <<>> >>
>>
Verdict == Report(IF R.exc # "" THEN SubSeq(Clauses, 1, 1) ELSE Clauses)
=============================================================================
