------------------------------- MODULE Report -------------------------------
(* What reports tell: tables of benchmarks, and sample curves of kernels.    *)
EXTENDS Rat, Bag

(* ---- Benchmarks: each function with the durations of its runs.  The table *)
(* has a row per function, by increasing mean duration, and compares it with *)
(* the best one (the first) and with the one before it.                      *)
RECURSIVE Total(_)
Total(t) == IF t = <<>> THEN 0 ELSE t[1] + Total(Tail(t))
Mean(t) == Q(Total(t), Len(t))
Mean1(t) == Q(Total(Tail(t)), Len(t) - 1)             \* without the first run, which may include a compilation
IsTableOrder(rows, fs) == /\ Range(rows) = DOMAIN fs /\ Len(rows) = Len(fs)
                          /\ \A j \in 1..(Len(rows) - 1) : ~ QLess(Mean(fs[rows[j + 1]]), Mean(fs[rows[j]]))
TableRow(rows, fs, j) == LET t == fs[rows[j]]  first == fs[rows[1]]  prev == fs[rows[IF j = 1 THEN 1 ELSE j - 1]]
                    IN  [mean |-> Mean(t), mean1 |-> Mean1(t), best |-> QDiv(Mean(t), Mean(first)), best1 |-> QDiv(Mean1(t), Mean1(first)),
                         next |-> QDiv(Mean(t), Mean(prev)), next1 |-> QDiv(Mean1(t), Mean1(prev))]

(* ---- Sample curves: n of them, either all drawn from one kernel with      *)
(* random parameters, or each from a kernel with parameters of its own.  The *)
(* curves are known by the number of the parameters they are drawn with.     *)
CurvesOk(vs, n, same) == /\ Len(vs) = n
                         /\ IF same THEN Cardinality(Range(vs)) = 1 ELSE Cardinality(Range(vs)) = n
=============================================================================
