-------------------------------- MODULE Score --------------------------------
(* The scores of a fitted model with log-likelihood ll, n data points and k  *)
(* free parameters; lower is better.  Logarithms in millionths.              *)
EXTENDS Kernel

LnPrime(p) == CASE p = 2 -> 693147 [] p = 3 -> 1098612 [] p = 5 -> 1609438 [] p = 7 -> 1945910 [] p = 11 -> 2397895 [] p = 13 -> 2564949
RECURSIVE Ln(_)
Ln(n) == IF n = 1 THEN 0 ELSE LET p == CHOOSE p \in {2, 3, 5, 7, 11, 13} : n % p = 0 IN LnPrime(p) + Ln(n \div p)
Smooth(n) == IF n = 1 THEN TRUE ELSE \E p \in {2, 3, 5, 7, 11, 13} : n % p = 0

AICOf(ll, k) == QI(2 * (k - ll))
AICcOf(ll, n, k) == QAdd(AICOf(ll, k), Q(2 * (k * k + k), n - k - 1))      \* for n > k + 1
BICOf(ll, n, k) == k * Ln(n) - 2000000 * ll                                 \* in millionths
(* everything a kernel has free, and the noise of the observations *)
KOf(t) == NParams(t) + 1
=============================================================================
