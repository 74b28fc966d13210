------------------------------- MODULE Piecewise -------------------------------
(* Synthetic data with a change point or a change window.  Abscissae are in  *)
(* halves and ordinates in quarters, so that everything is an integer:       *)
(* x stands for x/2; a function is <<a, b, c>>, i.e. a + b x + c x^2.        *)
EXTENDS Naturals, Integers, Sequences, TLC

F(f, x) == 4 * f[1] + 2 * f[2] * x + f[3] * x * x

CPv(f1, f2, cp, lined, x) == IF x < cp THEN F(f1, x)
                             ELSE F(f2, x) + (IF lined THEN F(f1, cp) - F(f2, cp) ELSE 0)

(* inside the window (ends included) the second function; when lined up,     *)
(* each piece starts from where the previous one ends                        *)
Inside(f1, f2, s, lined, x) == F(f2, x) + (IF lined THEN F(f1, s) - F(f2, s) ELSE 0)
CWv(f1, f2, s, e, lined, x) == CASE x < s -> F(f1, x)
                                 [] x > e -> F(f1, x) + (IF lined THEN Inside(f1, f2, s, lined, e) - F(f1, e) ELSE 0)
                                 [] OTHER -> Inside(f1, f2, s, lined, x)
Value(p, x) == CASE p.kind = "CP" -> CPv(p.f1, p.f2, p.s, p.lined, x)
                 [] p.kind = "CW" -> CWv(p.f1, p.f2, p.s, p.e, p.lined, x)
                 [] OTHER -> F(p.f1, x)
=============================================================================
