-------------------------------- MODULE Text --------------------------------
(* The sentences which describe the terms of a sum-of-products form.         *)
(* Positions and periods are in half units; SE lengthscales are 60 / sqrt(q) *)
(* for code q, so that inverse squares still add up under multiplication;    *)
(* PER lengthscales are in half units; variances are integers.               *)
EXTENDS Kernel, Interval

Perms(S) == {p \in [1..Cardinality(S) -> S] : \A a, b \in DOMAIN p : a # b => p[a] # p[b]}
Orders(s) == {[j \in DOMAIN s |-> s[p[j]]] : p \in Perms(DOMAIN s)}
Join(s, sep) == FoldLeft(LAMBDA a, j : IF j = 1 THEN s[1] ELSE a \o sep \o s[j], "", [j \in DOMAIN s |-> j])
(* "x", "x, and y", "x, y, and z" *)
AndLast(s) == Join([j \in DOMAIN s |-> IF j = Len(s) /\ j > 1 THEN "and " \o s[j] ELSE s[j]], ", ")

Digits2(n) == IF n < 10 THEN "0" \o ToString(n) ELSE ToString(n)
Hundredths(n) == ToString(n \div 100) \o "." \o Digits2(n % 100)
Half(c) == (IF c < 0 THEN "-" ELSE "") \o ToString(Abs(c) \div 2) \o (IF Abs(c) % 2 = 1 THEN ".50" ELSE ".00")
Whole(n) == ToString(n) \o ".00"
(* hundredths of 60 / sqrt(q): the n with (n - 1/2)^2 q < 6000^2 < (n + 1/2)^2 q *)
SELen(q) == Hundredths(CHOOSE n \in 1..6000 : (2 * n - 1) * (2 * n - 1) <= 144000000 \div q /\ (2 * n + 1) * (2 * n + 1) > 144000000 \div q)

FactorSeq(t, n) == FoldSet(LAMBDA f, acc : IF f.n = n THEN acc \o Times(t.f[f], f.p) ELSE acc, <<>>, DOMAIN t.f)

----------------------------------------------------------------------------
PerText(p) == "period " \o Half(p.period) \o " and lengthscale " \o Half(p.lengthscale)
PerFirst(ps) ==
  IF Len(ps) = 1 THEN {"A periodic function with " \o PerText(ps[1])}
  ELSE LET sorted == {o \in Orders(ps) : \A a \in 1..(Len(o) - 1) : o[a].period >= o[a + 1].period}
           rest(o) == [j \in 1..(Len(o) - 1) |-> PerText(o[j + 1])]
       IN  {"A periodic function with main " \o PerText(o[1]) \o ", then " \o
            (IF Len(o) = 2 THEN "modulated by another periodic function of " \o rest(o)[1]
             ELSE "repeatedly modulated by " \o ToString(Len(o) - 1) \o " more periodic functions (by decreasing period) of " \o AndLast(rest(o))) : o \in sorted}

Roots(ps) == {AndLast([j \in DOMAIN o |-> Half(o[j].offset)]) : o \in Orders(ps)}
LinText(one, many, ps) ==
  IF Len(ps) = 1 THEN {one \o (IF UseOffset THEN " with horizontal offset " \o Half(ps[1].offset) ELSE "")}
  ELSE IF UseOffset THEN {many \o " of order " \o ToString(Len(ps)) \o " with roots " \o r : r \in Roots(ps)}
  ELSE {many \o " of order " \o ToString(Len(ps))}

First(n, ps) == CASE n = "PER" -> PerFirst(ps)
                  [] n = "SE" -> {"A smooth function with lengthscale " \o SELen(ps[1].lengthscale)}
                  [] n = "C" -> {"A constant"}
                  [] n = "WN" -> {"Uncorrelated noise"}
                  [] n = "LIN" -> LinText("A linear function", "A polynomial function", ps)
Later(n, ps) == CASE n = "SE" -> {"whose shape changes smoothly with lengthscale " \o SELen(ps[1].lengthscale)}
                  [] n = "LIN" -> LinText("with linearly varying amplitude", "with polynomially varying amplitude", ps)
                  [] OTHER -> {"?"}

SlopeText(v, fs) ==
  IF FixedSlope THEN {""}
  ELSE IF v.s = <<>> THEN {" (with change slope " \o Half(e) \o ")" : e \in EndSlopes(fs, v.e[1])}
  ELSE IF v.e = <<>> THEN {" (with change slope " \o Half(s) \o ")" : s \in StartSlopes(fs, v.s[1])}
  ELSE {IF s = e THEN " (with same change slopes " \o Half(s) \o ")"
        ELSE " (with change slopes " \o Half(s) \o " and " \o Half(e) \o ")" : s \in StartSlopes(fs, v.s[1]), e \in EndSlopes(fs, v.e[1])}
IntervalText(v, fs) ==
  LET where == IF v.s = <<>> THEN "until " \o Half(v.e[1])
               ELSE IF v.e = <<>> THEN "from " \o Half(v.s[1])
               ELSE "between " \o Half(v.s[1]) \o " and " \o Half(v.e[1])
  IN  {where \o x : x \in SlopeText(v, fs)}
RECURSIVE PickEach(_)
PickEach(ss) == IF ss = <<>> THEN {<<>>} ELSE {<<x>> \o r : x \in ss[1], r \in PickEach(Tail(ss))}
WhereText(fs) ==
  LET I == Intervals(fs)
  IN  IF I = {} THEN {"nowhere"}
      ELSE UNION {{AndLast(c) : c \in PickEach([j \in DOMAIN o |-> IntervalText(o[j], fs)])} : o \in Perms(I)}

(* The acceptable sentences of a term: the kinds of factors in a fixed order, *)
(* roots and intervals in any order                                           *)
Order == <<"PER", "SE", "C", "WN", "LIN">>
Sentences(t) ==
  LET present == SelectSeq(Order, LAMBDA n : NumF(n, t) > 0)
      fs == {f \in DOMAIN t.f : f.n \in SigNames}
      first == First(present[1], FactorSeq(t, present[1]))
      step(acc, n) == {a \o ", " \o x : a \in acc, x \in Later(n, FactorSeq(t, n))}
      body == FoldLeft(step, first, Tail(present))
      v == "has overall variance " \o Whole(t.v)
  IN  IF fs = {} THEN {b \o "; this component " \o v : b \in body}
      ELSE {b \o "; this component applies " \o w \o ", and it " \o v : b \in body, w \in WhereText(fs)}
Header(n) == "The fit kernel consists of " \o ToString(n) \o " components:"
=============================================================================
