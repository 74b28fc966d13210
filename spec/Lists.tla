-------------------------------- MODULE Lists --------------------------------
(* The list and dictionary utilities the search, equality and description    *)
(* code is built from, on sequences compared with plain equality.            *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt

RECURSIVE Unique(_), Diff(_, _), SameElems(_, _)
DelFirst(s, x) ==   \* without the first occurrence of x, if any
  IF \E j \in DOMAIN s : s[j] = x
    THEN LET j == Min({k \in DOMAIN s : s[k] = x}) IN SubSeq(s, 1, j - 1) \o SubSeq(s, j + 1, Len(s))
    ELSE s
In(x, s) == \E j \in DOMAIN s : s[j] = x
Unique(s) == IF s = <<>> THEN <<>>
             ELSE LET u == Unique(Front(s)) IN IF In(Last(s), u) THEN u ELSE Append(u, Last(s))
Diff(xs, ys) == IF ys = <<>> THEN xs ELSE Diff(DelFirst(xs, Head(ys)), Tail(ys))
SameElems(xs, ys) == IF xs = <<>> THEN ys = <<>>
                     ELSE In(Head(xs), ys) /\ SameElems(Tail(xs), DelFirst(ys, Head(xs)))

Evens(s) == SelectSeq(s, LAMBDA x : x % 2 = 0)
Odds(s) == SelectSeq(s, LAMBDA x : x % 2 # 0)
Groups(s) == {<<x % 3, SelectSeq(s, LAMBDA y : y % 3 = x % 3)>> : x \in Range(s)}
FirstOver(s, t, default) == LET js == {j \in DOMAIN s : s[j] > t} IN IF js = {} THEN default ELSE s[Min(js)]
Chunks(s, n) == [k \in 1..((Len(s) + n - 1) \div n) |-> SubSeq(s, (k - 1) * n + 1, IF k * n < Len(s) THEN k * n ELSE Len(s))]
MinOf(S) == IF S = {} THEN 0 ELSE Min(S)
Unzip(s) == LET n == MinOf({Len(s[j]) : j \in DOMAIN s}) IN [k \in 1..n |-> [j \in DOMAIN s |-> s[j][k]]]
Flat(s) == FoldLeft(LAMBDA acc, x : acc \o x, <<>>, s)
Overlap(a, b, c, d) == LET lo == IF a > c THEN a ELSE c  hi == IF b < d THEN b ELSE d IN IF hi > lo THEN hi - lo ELSE 0

(* Consumption: the first remaining element meeting the condition is folded  *)
(* in, and the remaining ones are updated                                    *)
Cond(kind, x) == CASE kind = "all" -> TRUE [] kind = "even" -> x % 2 = 0 [] kind = "small" -> x <= 1 [] kind = "none" -> FALSE
Upd(kind, x, xs) == CASE kind = "same" -> xs
                      [] kind = "less" -> [j \in DOMAIN xs |-> xs[j] - 1]
                      [] kind = "drop" -> SelectSeq(xs, LAMBDA y : y # x)
RECURSIVE FoldQ(_, _, _, _)
FoldQ(ck, gk, xs, acc) ==
  LET js == {j \in DOMAIN xs : Cond(ck, xs[j])}
  IN  IF js = {} THEN <<acc, xs>>
      ELSE LET j == Min(js) IN FoldQ(ck, gk, Upd(gk, xs[j], SubSeq(xs, 1, j - 1) \o SubSeq(xs, j + 1, Len(xs))), Append(acc, xs[j]))

(* A node comes after all it depends on: edges is a sequence of <<node, deps>> *)
RECURSIVE Topo(_, _)
Topo(es, acc) == LET js == {j \in DOMAIN es : es[j][2] = <<>>}
                 IN  IF js = {} THEN <<acc, es # <<>> >>
                     ELSE LET j == Min(js)  n == es[j][1]  rest == SubSeq(es, 1, j - 1) \o SubSeq(es, j + 1, Len(es))
                          IN  Topo([k \in DOMAIN rest |-> <<rest[k][1], SelectSeq(rest[k][2], LAMBDA d : d # n)>>], Append(acc, n))
Sorted(order, es) == \A j \in DOMAIN order : \A k \in DOMAIN es : es[k][1] = order[j] => \A d \in Range(es[k][2]) : \E m \in 1..(j - 1) : order[m] = d
=============================================================================
