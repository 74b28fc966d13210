------------------------------ MODULE Posterior ------------------------------
(* Predictions from observations with independent Gaussian noise: one        *)
(* observation after the other, exactly.  A point is [x, id, new]: its       *)
(* position, its identity (which white noise depends on) and whether it is   *)
(* predicted rather than observed; an observation also has a value y.  The   *)
(* predicted process h is the whole kernel g, or one of the terms of a sum.  *)
EXTENDS Kernel

Prior(g, h, a, b) == Val(IF a.new \/ b.new THEN h ELSE g, a.x, b.x, a.id = b.id)

RECURSIVE Cov(_, _, _, _, _, _)
Gain(g, h, s, obs, a, l) == QDiv(Cov(g, h, s, obs, a, l), QAdd(Cov(g, h, s, obs, l, l), s))
Cov(g, h, s, obs, a, b) ==
  IF obs = <<>> THEN Prior(g, h, a, b)
  ELSE LET f == SubSeq(obs, 1, Len(obs) - 1)  l == obs[Len(obs)]
       IN  QSub(Cov(g, h, s, f, a, b), QMul(Cov(g, h, s, f, l, b), Gain(g, h, s, f, a, l)))
RECURSIVE Mean(_, _, _, _, _)
Mean(g, h, s, obs, a) ==
  IF obs = <<>> THEN QI(0)
  ELSE LET f == SubSeq(obs, 1, Len(obs) - 1)  l == obs[Len(obs)]
       IN  QAdd(Mean(g, h, s, f, a), QMul(Gain(g, h, s, f, a, l), QSub(QI(l.y), Mean(g, h, s, f, l))))
=============================================================================
