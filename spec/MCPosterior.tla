----------------------------- MODULE MCPosterior -----------------------------
(* Design-level model check of Posterior: the order of observations does not *)
(* matter, one at a time is the same as both at once (by Cramer's rule),     *)
(* observing reduces variances and never makes them negative, and the terms  *)
(* of a sum add up to it.                                                    *)
EXTENDS Posterior, MCKernel

Pt(x, id) == [x |-> x, id |-> id, new |-> TRUE]
Obs(x, id, y) == [x |-> x, id |-> id, new |-> FALSE, y |-> y]
O1 == Obs(0, 1, 2)
O2 == Obs(1, 2, -1)
Seqs == {<<O1>>, <<O2>>, <<O1, O2>>, <<O1, Obs(0, 2, 1)>>}
News == {Pt(0, 11), Pt(1, 12)}
S == QI(2)
Reverse2(o) == [j \in DOMAIN o |-> o[Len(o) + 1 - j]]
OrderFree == \A g \in Built : \A o \in Seqs : \A a, b \in News :
   Cov(g, g, S, o, a, b) = Cov(g, g, S, Reverse2(o), a, b) /\ Mean(g, g, S, o, a) = Mean(g, g, S, Reverse2(o), a)
SymmetricP == \A g \in Built : \A o \in Seqs : \A a, b \in News : Cov(g, g, S, o, a, b) = Cov(g, g, S, o, b, a)
NonNeg(q) == q[1] >= 0
Shrinks == \A g \in Built : \A o \in Seqs : \A a \in News : LET v == Cov(g, g, S, o, a, a) IN NonNeg(v) /\ NonNeg(QSub(Prior(g, g, a, a), v))
AtOnce == \A g \in Built : \A a \in News :
  LET k(p, q) == Prior(g, g, p, q)
      A == QAdd(k(O1, O1), S)  B == k(O1, O2)  C == QAdd(k(O2, O2), S)  det == QSub(QMul(A, C), QMul(B, B))
      w1 == QDiv(QSub(QMul(C, k(a, O1)), QMul(B, k(a, O2))), det)
      w2 == QDiv(QSub(QMul(A, k(a, O2)), QMul(B, k(a, O1))), det)
  IN /\ Mean(g, g, S, <<O1, O2>>, a) = QAdd(QMul(w1, QI(O1.y)), QMul(w2, QI(O2.y)))
     /\ \A b \in News : Cov(g, g, S, <<O1, O2>>, a, b) = QSub(k(a, b), QAdd(QMul(w1, k(O1, b)), QMul(w2, k(O2, b))))
TermsAddUp == \A g \in Built : g.k = "S" => \A o \in Seqs : \A a \in News :
   FoldLeft(LAMBDA acc, c : QAdd(acc, Mean(g, c, S, o, a)), QI(0), g.c) = Mean(g, g, S, o, a)
=============================================================================
