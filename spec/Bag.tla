-------------------------------- MODULE Bag --------------------------------
(* Finite bags as functions from a finite set to positive naturals; sums and *)
(* other folds used by every module of this specification.                   *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, FiniteSetsExt, SequencesExt

Cnt(B, x) == IF x \in DOMAIN B THEN B[x] ELSE 0
BPlus(A, B) == [x \in DOMAIN A \cup DOMAIN B |-> Cnt(A, x) + Cnt(B, x)]
BTimes(n, A) == IF n = 0 THEN EmptyBag ELSE [x \in DOMAIN A |-> n * A[x]]
BAdd(A, x) == BPlus(A, x :> 1)
BDel(A, x) == IF Cnt(A, x) <= 1 THEN [y \in DOMAIN A \ {x} |-> A[y]]
                                ELSE [A EXCEPT ![x] = @ - 1]
BSize(B) == MapThenSumSet(LAMBDA x : B[x], DOMAIN B)
BagOfSeq(s) == [x \in {s[i] : i \in DOMAIN s} |-> Cardinality({i \in DOMAIN s : s[i] = x})]
BSub(A, B) == \A x \in DOMAIN A : A[x] <= Cnt(B, x)
(* bag image: merges the counts of elements with the same image *)
BMap(F(_), B) == LET im == {F(x) : x \in DOMAIN B}
                 IN  [y \in im |-> MapThenSumSet(LAMBDA x : IF F(x) = y THEN B[x] ELSE 0, DOMAIN B)]
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
=============================================================================
