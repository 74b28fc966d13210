------------------------------- MODULE Kernel -------------------------------
(* Covariance kernels with parameters: what an expression turns into, what   *)
(* it evaluates to, its sum-of-products form and where parameters belong.    *)
(*                                                                           *)
(* Recorded kernel: [k |-> "B", n, p |-> parameters] | [k |-> "S"/"P", c |-> *)
(* <<kernels>>] | [k |-> "CP"/"CW", l, r, p].  Parameters are integers, in   *)
(* half units for positions (offset, location, width, period, slope) and     *)
(* with lengthscale code q standing for an inverse square lengthscale of     *)
(* 8 ln 2 times q, which makes SE an exact power of two on the half lattice. *)
(* A lengthscale of PER is either that, or 0 for "practically infinite".     *)
EXTENDS Kex, Rat

CONSTANTS FixedSlope, StdPer, ShiftedSides

BaseParams(n) == CASE n \in {"WN", "C"} -> {"variance"}
                   [] n = "LIN" -> IF UseOffset THEN {"variance", "offset"} ELSE {"variance"}
                   [] n = "SE" -> {"variance", "lengthscale"}
                   [] n = "PER" -> {"variance", "period", "lengthscale"}
SigParams(n) == (IF n \in {"S", "Sr"} THEN {"location"} ELSE {"location", "width"}) \cup (IF FixedSlope THEN {} ELSE {"slope"})    \* besides the variance
ChangeParams(kind) == SigParams(IF kind = "CP" THEN "S" ELSE "SI") \cup (IF ShiftedSides /\ kind = "CW" THEN {"shift_variance"} ELSE {})

----------------------------------------------------------------------------
(* Structure: the expression a recorded kernel is a kernel of *)

RECURSIVE GExpr(_)
GExpr(g) ==
  CASE g.k = "B" -> Leaf(g.n)
    [] g.k \in Changes -> Chg(g.k, GExpr(g.l), GExpr(g.r))
    [] OTHER -> LET add(acc, x) == IF x.k = "B" THEN [acc EXCEPT !.b[x.n] = @ + 1] ELSE [acc EXCEPT !.c = BAdd(@, GExpr(x))]
                IN  FoldLeft(add, Node(g.k, ZeroB, EmptyBag), g.c)
(* a sum or product of one term has the kernel of that term *)
KernelOf(t) == Extract(t)

(* Free parameters: everything, except that the base factors of a product    *)
(* share one variance                                                        *)
IsBase(g) == g.k = "B"
RECURSIVE ParamsOk(_)
ParamsOk(g) ==
  CASE g.k = "B" -> DOMAIN g.p = BaseParams(g.n)
    [] g.k \in Changes -> DOMAIN g.p = ChangeParams(g.k) /\ ParamsOk(g.l) /\ ParamsOk(g.r)
    [] g.k = "S" -> \A x \in Range(g.c) : ParamsOk(x)
    [] OTHER -> /\ \A x \in Range(g.c) : IF IsBase(x) THEN DOMAIN x.p \cup {"variance"} = BaseParams(x.n) ELSE ParamsOk(x)
                /\ LET bs == SelectSeq(g.c, IsBase)
                   IN  bs # <<>> => Cardinality({j \in DOMAIN bs : "variance" \in DOMAIN bs[j].p}) = 1

(* the unrefined kernel keeps the variances of all base factors *)
RECURSIVE AllParams(_)
AllParams(g) ==
  CASE g.k = "B" -> DOMAIN g.p = BaseParams(g.n)
    [] g.k \in Changes -> DOMAIN g.p = ChangeParams(g.k) /\ AllParams(g.l) /\ AllParams(g.r)
    [] OTHER -> \A x \in Range(g.c) : AllParams(x)

NBase(n) == Cardinality(BaseParams(n))
SumOver(F(_), b) == b["WN"] * F("WN") + b["C"] * F("C") + b["LIN"] * F("LIN") + b["SE"] * F("SE") + b["PER"] * F("PER")
RECURSIVE NParams(_)
NParams(t) ==
  CASE t.k = "B" -> NBase(t.n)
    [] t.k \in Changes -> Cardinality(ChangeParams(t.k)) + NParams(t.l) + NParams(t.r)
    [] t.k = "S" -> SumOver(NBase, t.b) + MapThenSumSet(LAMBDA c : t.c[c] * NParams(c), DOMAIN t.c)
    [] OTHER -> SumOver(LAMBDA n : NBase(n) - 1, t.b) + (IF BCount(t.b) > 0 THEN 1 ELSE 0)
                + MapThenSumSet(LAMBDA c : t.c[c] * NParams(c), DOMAIN t.c)

----------------------------------------------------------------------------
(* Values, at points of the half lattice; i = j in the same set matters to   *)
(* white noise only                                                          *)

V(p) == IF "variance" \in DOMAIN p THEN p.variance ELSE 1
Pow2(n) == 2 ^ n
Cos(d, P) ==      \* cos(2 pi d / P) for the periods used
  LET m == Abs(d) % P
  IN CASE P = 2 -> IF m = 0 THEN QI(1) ELSE QI(-1)
       [] P = 3 -> IF m = 0 THEN QI(1) ELSE Q(-1, 2)
       [] P = 4 -> IF m = 0 THEN QI(1) ELSE IF m = 2 THEN QI(-1) ELSE QI(0)
       [] P = 6 -> IF m = 0 THEN QI(1) ELSE IF m = 3 THEN QI(-1) ELSE IF m \in {1, 5} THEN Q(1, 2) ELSE Q(-1, 2)
Slope(p) == IF FixedSlope THEN 1 ELSE p.slope
Sig(n, sl) == Q(sl + Abs(n) + n, 2 * (sl + Abs(n)))
Hat(x, p) == LET sl == Slope(p)  w == p.width
             IN  QDiv(QSub(QAdd(Sig(x - p.location, sl), Sig(p.location + w - x, sl)), QI(1)), Q(w, w + 2 * sl))
Phi(s, p, x) ==
  CASE s = "S" -> Sig(x - p.location, Slope(p))
    [] s = "Sr" -> QSub(QI(1), Sig(x - p.location, Slope(p)))
    [] s = "SI" -> Hat(x, p)
    [] s = "SIr" -> QSub(QI(1), Hat(x, p))
SigVal(s, p, x, y) == QMul(Phi(s, p, x), Phi(s, p, y))

BaseVal(n, p, x, y, eq) ==
  CASE n = "WN" -> IF eq THEN QI(V(p)) ELSE QI(0)
    [] n = "C" -> QI(V(p))
    [] n = "LIN" -> LET o == IF UseOffset THEN p.offset ELSE 0 IN Q(V(p) * (x - o) * (y - o), 4)
    [] n = "SE" -> Q(V(p), Pow2(p.lengthscale * (x - y) * (x - y)))
    [] n = "PER" -> IF StdPer THEN Q(V(p), Pow2(p.lengthscale * (LET m == Abs(x - y) % 4 IN IF m = 3 THEN 1 ELSE m)))   \* period 4 half units
                             ELSE QMul(QI(V(p)), Cos(x - y, p.period))
    [] n \in SigNames -> QMul(QI(V(p)), SigVal(n, p, x, y))

(* with shifted sides a window's sides are the first branch before, and the  *)
(* first branch shifted by a constant after it                               *)
Past(p) == [p EXCEPT !.location = @ + p.width]
IsShifted(g) == ShiftedSides /\ g.k = "CW"

RECURSIVE Val(_, _, _, _)
Val(g, x, y, eq) ==
  CASE g.k = "B" -> BaseVal(g.n, g.p, x, y, eq)
    [] IsShifted(g) -> QAdd(QAdd(QMul(Val(g.l, x, y, eq), SigVal("Sr", g.p, x, y)), QMul(Val(g.r, x, y, eq), SigVal("SI", g.p, x, y))),
                            QMul(QAdd(Val(g.l, x, y, eq), QI(g.p.shift_variance)), SigVal("S", Past(g.p), x, y)))
    [] g.k \in Changes -> QAdd(QMul(Val(g.l, x, y, eq), SigVal(SigOf(g.k, "l"), g.p, x, y)),
                               QMul(Val(g.r, x, y, eq), SigVal(SigOf(g.k, "r"), g.p, x, y)))
    [] g.k = "S" -> FoldLeft(LAMBDA a, c : QAdd(a, Val(c, x, y, eq)), QI(0), g.c)
    [] OTHER -> FoldLeft(LAMBDA a, c : QMul(a, Val(c, x, y, eq)), QI(1), g.c)

----------------------------------------------------------------------------
(* Expressions with parameters: canonical, so that equality is attribution   *)
(* up to the order of terms (the shift of a window's sides has no place in   *)
(* an expression)                                                            *)

NoVar(p) == [f \in DOMAIN p \ {"variance"} |-> p[f]]
Annot(g0) ==
  LET RECURSIVE A(_)
      A(g) == CASE g.k = "B" -> [k |-> "B", n |-> g.n, p |-> g.p]
                [] g.k \in Changes -> [k |-> g.k, p |-> [f \in DOMAIN g.p \ {"shift_variance"} |-> g.p[f]], l |-> A(g.l), r |-> A(g.r)]
                [] g.k = "S" -> [k |-> "S", c |-> BagOfSeq([j \in DOMAIN g.c |-> A(g.c[j])])]
                [] OTHER -> LET bs == SelectSeq(g.c, IsBase)
                                vs == SelectSeq(bs, LAMBDA x : "variance" \in DOMAIN x.p)
                            IN  [k |-> "P", v |-> [j \in DOMAIN vs |-> vs[j].p.variance],
                                 c |-> BagOfSeq([j \in DOMAIN g.c |-> IF IsBase(g.c[j]) THEN [k |-> "B", n |-> g.c[j].n, p |-> NoVar(g.c[j].p)] ELSE A(g.c[j])])]
  IN IF g0.k = "B" THEN [k |-> "S", c |-> A(g0) :> 1] ELSE A(g0)

----------------------------------------------------------------------------
(* Sum-of-products form: a sequence of [v |-> variance, f |-> bag of factors *)
(* [n, p]] where a factor is a base kernel without variance or a sigmoid     *)

Factor(n, p) == [n |-> n, p |-> p]
One == [v |-> 1, f |-> EmptyBag]
BaseTerm(g) == [v |-> V(g.p), f |-> Factor(g.n, NoVar(g.p)) :> 1]
MulTerm(a, b) == [v |-> a.v * b.v, f |-> BPlus(a.f, b.f)]
TimesTerms(A, B) == LET row(a) == [j \in DOMAIN B |-> MulTerm(a, B[j])]
                    IN  FoldLeft(LAMBDA acc, a : acc \o row(a), <<>>, A)
WithSigmoid(A, s, p) == [j \in DOMAIN A |-> [A[j] EXCEPT !.f = BAdd(@, Factor(s, p))]]

RECURSIVE Expanded(_)
Expanded(g) ==
  CASE g.k = "B" -> <<BaseTerm(g)>>
    [] g.k \in Changes -> WithSigmoid(Expanded(g.l), SigOf(g.k, "l"), g.p) \o WithSigmoid(Expanded(g.r), SigOf(g.k, "r"), g.p)
    [] g.k = "S" -> FoldLeft(LAMBDA a, c : a \o Expanded(c), <<>>, g.c)
    [] OTHER -> FoldLeft(LAMBDA a, c : TimesTerms(a, Expanded(c)), <<One>>, g.c)

(* products are simplified as documented, keeping the parameters: the        *)
(* lengthscales of SE factors combine (inverse squares add)                  *)
IsF(n, f) == f.n = n
NumF(n, t) == MapThenSumSet(LAMBDA f : IF f.n = n THEN t.f[f] ELSE 0, DOMAIN t.f)
NumBase(t) == MapThenSumSet(LAMBDA f : IF f.n \in Bases THEN t.f[f] ELSE 0, DOMAIN t.f)
OnlyF(t, S) == [t EXCEPT !.f = [f \in {x \in DOMAIN t.f : x.n \in S} |-> t.f[f]]]
EmptyP == [x \in {} |-> 0]
SimplifyTerm(t) ==
  IF NumF("WN", t) > 0
    THEN [OnlyF(t, {"LIN"} \cup SigNames) EXCEPT !.f = BAdd(@, Factor("WN", EmptyP))]
    ELSE LET noC == IF NumF("C", t) = 0 THEN t
                    ELSE LET rest == OnlyF(t, (Bases \ {"C"}) \cup SigNames)
                         IN  IF NumBase(rest) = 0 THEN [rest EXCEPT !.f = BAdd(@, Factor("C", EmptyP))] ELSE rest
         IN  IF NumF("SE", noC) <= 1 THEN noC
             ELSE LET ses == {f \in DOMAIN noC.f : f.n = "SE"}
                      total == MapThenSumSet(LAMBDA f : noC.f[f] * f.p.lengthscale, ses)
                      rest == OnlyF(noC, (Bases \ {"SE"}) \cup SigNames)
                  IN  [rest EXCEPT !.f = BAdd(@, Factor("SE", [lengthscale |-> total]))]
Sop(g) == LET e == Expanded(g) IN [j \in DOMAIN e |-> SimplifyTerm(e[j])]

TermVal(t, x, y, eq) ==
  LET FV(f) == IF f.n \in SigNames THEN SigVal(f.n, f.p, x, y) ELSE BaseVal(f.n, f.p, x, y, eq)
      pow(f, acc) == FoldLeft(LAMBDA a, j : QMul(a, FV(f)), acc, [j \in 1..t.f[f] |-> j])
  IN  FoldSet(pow, QI(t.v), DOMAIN t.f)
SopVal(s, x, y, eq) == FoldLeft(LAMBDA a, t : QAdd(a, TermVal(t, x, y, eq)), QI(0), s)
=============================================================================
