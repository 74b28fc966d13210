---------------------------- MODULE TraceReport ----------------------------
(* Judges recorded reports; numbers are integers, 10^5 times what was said.  *)
EXTENDS Report, Trace
R == T[i]
Near(a, b) == a - b <= 2 /\ b - a <= 2
Says(row, q) == /\ Near(row.mean, Scaled(q.mean)) /\ Near(row.mean1, Scaled(q.mean1))
Compares(row, q) == /\ Near(row.best, Scaled(q.best)) /\ Near(row.best1, Scaled(q.best1))
                    /\ Near(row.next, Scaled(q.next)) /\ Near(row.next1, Scaled(q.next1))
Order(t) == [j \in DOMAIN t |-> t[j].f]
Bench == <<
  <<"exception while benchmarking", R.exc # "">>,
  <<"the durations are not those of the runs", R.exc = "" /\ R.timed # R.fs[1]>>,
  <<"a function was not run as often as asked, with the arguments given", R.exc = "" /\ ~ R.called>>,
  <<"the table has not one row per function, by increasing mean duration", R.exc = "" /\ \E t \in Range(R.tables) : ~ IsTableOrder(Order(t), R.fs)>>,
  <<"a mean in the table is not that of the durations", R.exc = "" /\ \E t \in Range(R.tables) : IsTableOrder(Order(t), R.fs) /\ \E j \in DOMAIN t : ~ Says(t[j], TableRow(Order(t), R.fs, j))>>,
  <<"a ratio in the table is not that of the means", R.exc = "" /\ \E t \in Range(R.tables) : IsTableOrder(Order(t), R.fs) /\ \E j \in DOMAIN t : ~ Compares(t[j], TableRow(Order(t), R.fs, j))>>,
  <<"the first durations in the table are not those of the runs", R.exc = "" /\ \E t \in Range(R.tables) : \E j \in DOMAIN t : t[j].t # SubSeq(R.fs[t[j].f], 1, 3)>>
>>
(* The curves' own parameters can be told for some kernels only (else R.vs is empty): random ones might be close, hence the majority *)
Curves == <<
  <<"exception while sampling curves", R.exc # "">>,
  <<"there are not as many curves as asked for", R.exc = "" /\ R.lines # R.n>>,
  <<"the curves are not over evenly spaced points in the limits given", R.exc = "" /\ ~ R.points>>,
  <<"curves which should be of one kernel are not", R.exc = "" /\ R.same /\ R.vs # <<>> /\ ~ CurvesOk(R.vs, R.lines, TRUE)>>,
  <<"curves which should each be of another kernel are not", R.exc = "" /\ ~ R.same /\ R.vs # <<>> /\ 2 * Cardinality(Range(R.vs)) <= R.n /\ R.n > 1>>,
  <<"a curve is not one of the kernel's process", R.exc = "" /\ ~ R.within>>,
  <<"the curves are not distributed around zero with the kernel's covariance", R.exc = "" /\ ~ R.spread>>
>>
Saved == <<
  <<"exception while saving sample curves", R.exc # "">>,
  <<"there is not one file per kernel, named and placed as asked", R.exc = "" /\ R.files # R.names>>,
  <<"a file was written elsewhere", R.exc = "" /\ R.strays # 0>>,
  <<"a saved plot is not that of the sample curves asked for", R.exc = "" /\ ~ R.images>>
>>
Printed == <<
  <<"exception while reporting", R.exc # "">>,
  <<"the report does not show the model's expression and kernel", R.exc = "" /\ ~ (R.said.expression /\ R.said.kernel)>>,
  <<"the log-likelihood reported is not the model's", R.exc = "" /\ ~ (R.said.ll # <<>> /\ Near(R.said.ll[1], R.true.ll))>>,
  <<"the score reported is not the model's", R.exc = "" /\ ~ (R.said.score # <<>> /\ R.said.score[1] = R.true.name /\ Near(R.said.score[2], R.true.score))>>,
  <<"the description reported is not the model's", R.exc = "" /\ ~ R.said.text>>,
  <<"the model was not plotted", R.exc = "" /\ ~ R.plotted>>,
  <<"the model reported was not fitted to the data and with the options given", R.exc = "" /\ ~ R.options>>,
  <<"reporting changed the model", R.exc = "" /\ ~ R.kept>>
>>
Verdict == Report(CASE R.kind = "bench" -> Bench [] R.kind = "curves" -> Curves [] R.kind = "saved" -> Saved [] OTHER -> Printed)
=============================================================================
