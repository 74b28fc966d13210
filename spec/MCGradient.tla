----------------------------- MODULE MCGradient -----------------------------
(* Design-level model check of Gradient: wherever a covariance is a          *)
(* polynomial of degree at most two in a parameter (variances, offsets), its *)
(* central difference is exactly the derivative; the sigmoids' derivatives   *)
(* lie between the difference quotients on either side where they are        *)
(* monotone; derivatives are symmetric in the points.                        *)
EXTENDS Gradient, MCKernel

RECURSIVE SetAt(_, _, _, _)
SetAt(g, path, f, v) ==
  IF path = <<>> THEN [g EXCEPT !.p[f] = v]
  ELSE CASE g.k \in Commutative -> [g EXCEPT !.c[path[1]] = SetAt(@, Tail(path), f, v)]
         [] path[1] = 1 -> [g EXCEPT !.l = SetAt(@, Tail(path), f, v)]
         [] OTHER -> [g EXCEPT !.r = SetAt(@, Tail(path), f, v)]
Central(g, path, f, p) == LET v == At(g, path).p[f]
  IN  QMul(QSub(Val(SetAt(g, path, f, v + 1), p[1], p[2], p[3]), Val(SetAt(g, path, f, v - 1), p[1], p[2], p[3])), Q(1, 2))
(* PER of the periods for which derivatives are given *)
RECURSIVE Usable(_)
Usable(g) == CASE g.k = "B" -> g.n # "PER" \/ g.p.period \in {2, 4}
               [] OTHER -> \A j \in DOMAIN KidsOf(g) : Usable(KidsOf(g)[j])
Differences == \A g \in Built : \A path \in Paths(g) : \A f \in Free(At(g, path)) : \A p \in Points :
   (f \in {"variance", "offset", "shift_variance"} /\ Usable(g)) => D(g, path, f, p[1], p[2], p[3]) = Central(g, path, f, p)
SymmetricD == \A g \in Built : Usable(g) => \A path \in Paths(g) : \A f \in Free(At(g, path)) : D(g, path, f, 0, 1, FALSE) = D(g, path, f, 1, 0, FALSE)
(* each sigmoid's derivative is between its difference quotients: S is convex before its location and concave after it *)
Between(a, b, c) == (~ QLess(b, a) /\ ~ QLess(c, b)) \/ (~ QLess(a, b) /\ ~ QLess(b, c))
Sigmoids == \A n \in -6..6 : \A sl \in 1..3 :
   /\ n # 0 => Between(QSub(Sig(n, sl), Sig(n - 1, sl)), DSig(n, sl), QSub(Sig(n + 1, sl), Sig(n, sl)))
   /\ (sl > 1 /\ n # 0) => Between(QSub(Sig(n, sl), Sig(n, sl - 1)), DSigSlope(n, sl), QSub(Sig(n, sl + 1), Sig(n, sl)))
=============================================================================
