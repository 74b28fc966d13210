------------------------------ MODULE Gradient ------------------------------
(* Derivatives of covariances by their parameters, exactly, at points of the *)
(* half lattice; each in the units of the parameter's code (for the          *)
(* lengthscale of SE divided by ln 2, for the period of PER by pi).          *)
EXTENDS Kernel

(* The sigmoids by their own parameters *)
DSig(n, sl) == Q(sl, 2 * (sl + Abs(n)) * (sl + Abs(n)))               \* by n
DSigSlope(n, sl) == Q(-n, 2 * (sl + Abs(n)) * (sl + Abs(n)))
HatTop(x, p) == QSub(QAdd(Sig(x - p.location, Slope(p)), Sig(p.location + p.width - x, Slope(p))), QI(1))
HatScale(p) == Q(p.width + 2 * Slope(p), p.width)                     \* the inverse height
DHat(x, p, f) ==
  LET sl == Slope(p)  a == x - p.location  b == p.location + p.width - x
  IN CASE f = "location" -> QMul(QSub(DSig(b, sl), DSig(a, sl)), HatScale(p))
       [] f = "width" -> QAdd(QMul(DSig(b, sl), HatScale(p)), QMul(HatTop(x, p), Q(-2 * sl, p.width * p.width)))
       [] f = "slope" -> QAdd(QMul(QAdd(DSigSlope(a, sl), DSigSlope(b, sl)), HatScale(p)), QMul(HatTop(x, p), Q(2, p.width)))
RECURSIVE DPhi(_, _, _, _)
DPhi(s, p, f, x) ==
  CASE s = "S" -> IF f = "location" THEN QNeg(DSig(x - p.location, Slope(p))) ELSE DSigSlope(x - p.location, Slope(p))
    [] s = "SI" -> DHat(x, p, f)
    [] s = "Sr" -> QNeg(DPhi("S", p, f, x))
    [] s = "SIr" -> QNeg(DHat(x, p, f))
DSigVal(s, p, f, x, y) == QAdd(QMul(DPhi(s, p, f, x), Phi(s, p, y)), QMul(Phi(s, p, x), DPhi(s, p, f, y)))

(* One base kernel; PER with infinite lengthscale and a period of 2 or 4 *)
Sin(d, P) ==      \* sin(2 pi d / P)
  LET m == d % P
  IN  IF P = 2 \/ m \in {0, 2} THEN 0 ELSE IF m = 1 THEN 1 ELSE -1
DBase(n, p, f, x, y, eq) ==
  CASE f = "variance" -> BaseVal(n, NoVar(p), x, y, eq)
    [] n = "LIN" /\ f = "offset" -> Q(V(p) * (2 * p.offset - x - y), 4)
    [] n = "SE" /\ f = "lengthscale" -> QMul(BaseVal(n, p, x, y, eq), QI(-((x - y) * (x - y))))
    [] n = "PER" /\ f = "period" -> Q(V(p) * 2 * (x - y) * Sin(x - y, p.period), p.period * p.period)
    [] n = "PER" /\ f = "lengthscale" -> QI(0)      \* in the limit
    [] n \in SigNames -> QMul(QI(V(p)), DSigVal(n, p, f, x, y))

(* The derivative by parameter f of the node at a path (a sequence of child  *)
(* numbers) of a kernel.  Changes follow the share of their second branch    *)
(* only ("one of the sigmoidal kernels", see NOTE ON OPTIMISATION there).    *)
KidsOf(g) == CASE g.k = "B" -> <<>> [] g.k \in Changes -> <<g.l, g.r>> [] OTHER -> g.c
RECURSIVE D(_, _, _, _, _, _)
D(g, path, f, x, y, eq) ==
  IF path = <<>> THEN
    IF g.k = "B" THEN DBase(g.n, g.p, f, x, y, eq)
    ELSE IF f = "shift_variance" THEN SigVal("S", Past(g.p), x, y)
    ELSE QMul(Val(g.r, x, y, eq), DSigVal(SigOf(g.k, "r"), g.p, f, x, y))
  ELSE LET inner == D(KidsOf(g)[path[1]], Tail(path), f, x, y, eq)
       IN CASE g.k = "S" -> inner
            [] g.k = "P" -> FoldLeft(LAMBDA a, j : IF j = path[1] THEN a ELSE QMul(a, Val(g.c[j], x, y, eq)), inner, [j \in DOMAIN g.c |-> j])
            [] IsShifted(g) /\ path[1] = 1 -> QMul(inner, QAdd(SigVal("Sr", g.p, x, y), SigVal("S", Past(g.p), x, y)))
            [] OTHER -> QMul(inner, SigVal(SigOf(g.k, IF path[1] = 1 THEN "l" ELSE "r"), g.p, x, y))

RECURSIVE Paths(_)
Paths(g) == {<<>>} \cup UNION {{<<j>> \o p : p \in Paths(KidsOf(g)[j])} : j \in DOMAIN KidsOf(g)}
RECURSIVE At(_, _)
At(g, path) == IF path = <<>> THEN g ELSE At(KidsOf(g)[path[1]], Tail(path))
Free(g) == IF "p" \in DOMAIN g THEN DOMAIN g.p ELSE {}
=============================================================================
