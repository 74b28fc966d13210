------------------------------ MODULE MCKernel ------------------------------
(* Design-level model check of Kernel: for every kernel built from up to     *)
(* MaxLeaves base kernels with parameters, the sum-of-products form has the  *)
(* same value everywhere on the lattice, and parameters are counted right.   *)
EXTENDS Kernel

CONSTANTS MaxLeaves, LeafNames

VARIABLE stack

Init == stack = <<>>

RECURSIVE GLeaves(_)
GLeaves(g) == CASE g.k = "B" -> 1
                [] g.k \in Changes -> GLeaves(g.l) + GLeaves(g.r)
                [] OTHER -> FoldLeft(LAMBDA a, x : a + GLeaves(x), 0, g.c)
Total == FoldLeft(LAMBDA acc, t : acc + GLeaves(t), 0, stack)
Drop(n) == SubSeq(stack, 1, Len(stack) - n)
A1 == stack[Len(stack) - 1]
A2 == stack[Len(stack)]

Params(n, j) == LET v == 2 + j
                IN CASE n \in {"WN", "C"} -> [variance |-> v]
                     [] n = "LIN" -> IF UseOffset THEN [variance |-> v, offset |-> j] ELSE [variance |-> v]
                     [] n = "SE" -> [variance |-> v, lengthscale |-> j]
                     [] n = "PER" -> [variance |-> v, period |-> 2 + j, lengthscale |-> 0]
Base(n, j) == [k |-> "B", n |-> n, p |-> Params(n, j)]
(* what a product does to the variances of its base factors: the first keeps its own *)
OneVariance(c) == LET first == CHOOSE j \in 1..(Len(c) + 1) : (j = Len(c) + 1 \/ IsBase(c[j])) /\ \A m \in 1..(j - 1) : ~ IsBase(c[m])
                  IN  [j \in DOMAIN c |-> IF IsBase(c[j]) /\ j > first THEN [c[j] EXCEPT !.p = NoVar(@)] ELSE c[j]]
PartsOf(kind, g) == IF g.k = kind THEN g.c ELSE <<g>>
Combined(kind) == LET c == PartsOf(kind, A1) \o PartsOf(kind, A2) IN [k |-> kind, c |-> IF kind = "P" THEN OneVariance(c) ELSE c]

Push == Total < MaxLeaves /\ Len(stack) < 2 /\ \E n \in LeafNames : stack' = Append(stack, Base(n, Total % 2))
Combine == Len(stack) >= 2 /\ \E kind \in Commutative : stack' = Append(Drop(2), Combined(kind))
Change == Len(stack) >= 2 /\ \E kind \in Changes : \E loc \in {0, 1} :
  stack' = Append(Drop(2), [k |-> kind, l |-> A1, r |-> A2, p |-> IF kind = "CP" THEN [location |-> loc] ELSE IF ShiftedSides THEN [location |-> loc, width |-> 1 + loc, shift_variance |-> 2] ELSE [location |-> loc, width |-> 1 + loc]])
Next == Push \/ Combine \/ Change
Spec == Init /\ [][Next]_stack

Points == {<<0, 0, TRUE>>, <<1, 1, TRUE>>, <<0, 1, FALSE>>, <<1, 0, FALSE>>, <<0, 0, FALSE>>}
Built == {stack[j] : j \in DOMAIN stack}
SopSame == \A g \in Built : LET s == Sop(g) IN \A p \in Points : ~ (p[1] = p[2] /\ ~ p[3] /\ "WN" \in BasesIn(GExpr(g))) => SopVal(s, p[1], p[2], p[3]) = Val(g, p[1], p[2], p[3])
Symmetric == \A g \in Built : Val(g, 0, 1, FALSE) = Val(g, 1, 0, FALSE)
RECURSIVE Count(_)
Count(g) == CASE g.k = "B" -> Cardinality(DOMAIN g.p)
              [] g.k \in Changes -> Cardinality(DOMAIN g.p) + Count(g.l) + Count(g.r)
              [] OTHER -> FoldLeft(LAMBDA a, x : a + Count(x), 0, g.c)
Counted == \A g \in Built : ParamsOk(g) /\ Count(g) = NParams(GExpr(g))
(* the sum-of-products form has as many products as the fully distributed expression, each of base factors and sigmoids only *)
SopProducts == \A g \in Built : \A j \in DOMAIN Sop(g) : LET t == Sop(g)[j]
  IN  NumF("WN", t) <= 1 /\ NumF("SE", t) <= 1 /\ NumBase(t) >= 1 /\ (NumF("C", t) > 0 => NumBase(t) = 1)
=============================================================================
