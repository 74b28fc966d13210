-------------------------------- MODULE Rat --------------------------------
(* Exact rationals <<numerator, denominator>>, reduced, denominator > 0      *)
EXTENDS Integers, Sequences

RECURSIVE GCD(_, _)
GCD(a, b) == IF b = 0 THEN a ELSE GCD(b, a % b)
Abs(n) == IF n < 0 THEN -n ELSE n
Q(n, d) == LET g == GCD(Abs(n), Abs(d))  s == IF d < 0 THEN -1 ELSE 1
           IN  IF n = 0 THEN <<0, 1>> ELSE <<(s * n) \div g, (s * d) \div g>>
QAdd(a, b) == LET g == GCD(a[2], b[2]) IN Q(a[1] * (b[2] \div g) + b[1] * (a[2] \div g), (a[2] \div g) * b[2])
QMul(a, b) == LET g == GCD(Abs(a[1]), b[2])  h == GCD(Abs(b[1]), a[2])    \* cross-reduced first, to stay small
              IN  IF a[1] = 0 \/ b[1] = 0 THEN <<0, 1>>
                  ELSE <<(a[1] \div g) * (b[1] \div h), (a[2] \div h) * (b[2] \div g)>>
QNeg(a) == <<-a[1], a[2]>>
QSub(a, b) == QAdd(a, QNeg(b))
QDiv(a, b) == QMul(a, IF b[1] < 0 THEN <<-b[2], -b[1]>> ELSE <<b[2], b[1]>>)
QI(n) == <<n, 1>>
(* the integer nearest below 10^5 times a rational, by long division *)
RECURSIVE Digits(_, _, _, _)
Digits(acc, r, d, k) == IF k = 0 THEN acc ELSE Digits(10 * acc + (10 * r) \div d, (10 * r) % d, d, k - 1)
Scaled(q) == Digits(q[1] \div q[2], q[1] % q[2], q[2], 5)
QLess(a, b) == a[1] * b[2] < b[1] * a[2]
=============================================================================
