------------------------------- MODULE MCScore -------------------------------
(* The scores' own properties, on a grid: better fit is better, more         *)
(* parameters are worse, AICc tends to AIC from above, and scores are        *)
(* comparable between spellings.                                             *)
EXTENDS Score, Json
CONSTANTS MaxK, MaxLL
Ns == {1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 20, 24, 30, 64, 100, 1000, 2310}
VARIABLES ll, n, k
Init == ll \in -MaxLL..MaxLL /\ n \in Ns /\ k \in 1..MaxK
Spec == Init /\ [][UNCHANGED <<ll, n, k>>]_<<ll, n, k>>
Monotone == /\ AICOf(ll + 1, k)[1] < AICOf(ll, k)[1] /\ AICOf(ll, k)[1] < AICOf(ll, k + 1)[1]
            /\ BICOf(ll + 1, n, k) < BICOf(ll, n, k) /\ (n > 1 => BICOf(ll, n, k) < BICOf(ll, n, k + 1))
            /\ n > k + 2 => QLess(AICOf(ll, k), AICcOf(ll, n, k)) /\ QLess(AICcOf(ll, n, k), AICcOf(ll, n, k + 1))
Harsher == n > 7 => BICOf(0, n, k) > 2000000 * k
Emit == PrintT(ToJson([ll |-> ll, n |-> n, k |-> k]))
=============================================================================
