------------------------------- MODULE GenNear -------------------------------
(* Pairs of expressions which are nearly the same: a built expression, then  *)
(* one edit of it somewhere.  Also pairs differing in multiplicities only.   *)
EXTENDS GenKex

VARIABLE pair
nvars == <<stack, done, pair>>

Put1(s, j, x) == [s EXCEPT ![j] = x]
Without(s, j) == SubSeq(s, 1, j - 1) \o SubSeq(s, j + 1, Len(s))
Other(n) == CHOOSE m \in LeafNames : m # n

RECURSIVE Pairs(_)
Pairs(t) ==
  CASE t.k = "B" -> {<<t, B(m)>> : m \in LeafNames \ {t.n}}
    [] t.k \in {"CP", "CW"} ->
         {<<t, [t EXCEPT !.l = t.r, !.r = t.l]>>, <<t, [t EXCEPT !.k = IF @ = "CP" THEN "CW" ELSE "CP"]>>, <<t, [t EXCEPT !.r = t.l]>>, <<t, [t EXCEPT !.l = t.r]>>}
         \cup {<<[t EXCEPT !.l = p[1]], [t EXCEPT !.l = p[2]]>> : p \in Pairs(t.l)}
         \cup {<<[t EXCEPT !.r = p[1]], [t EXCEPT !.r = p[2]]>> : p \in Pairs(t.r)}
    [] OTHER ->
         {<<t, [t EXCEPT !.k = IF @ = "S" THEN "P" ELSE "S"]>>}
         \cup {<<t, [t EXCEPT !.b = Put1(@, j, m)]>> : j \in DOMAIN t.b, m \in LeafNames}
         \cup {<<t, [t EXCEPT !.b = Append(@, m)]>> : m \in LeafNames}
         \cup {<<t, [t EXCEPT !.b = Without(@, j)]>> : j \in DOMAIN t.b}
         \cup {<<t, [t EXCEPT !.c = Without(@, j)]>> : j \in DOMAIN t.c}
         \cup {<<t, [t EXCEPT !.c = Append(@, t.c[j])]>> : j \in DOMAIN t.c}
         \cup {<<[t EXCEPT !.c = Append(@, t.c[j])], [t EXCEPT !.c = Append(@, t.c[m])]>> : j, m \in DOMAIN t.c}
         \cup {<<[t EXCEPT !.b = Append(@, t.b[j])], [t EXCEPT !.b = Append(@, t.b[m])]>> : j, m \in DOMAIN t.b}
         \cup UNION {{<<[t EXCEPT !.c = Put1(@, j, p[1])], [t EXCEPT !.c = Put1(@, j, p[2])]>> : p \in Pairs(t.c[j])} : j \in DOMAIN t.c}

NInit == Init /\ pair = <<>>
NNext == \/ ~ done /\ Next /\ UNCHANGED pair
         \/ done /\ pair = <<>> /\ UNCHANGED <<stack, done>> /\ \E p \in Pairs(A2) : p[1] # p[2] /\ p[2].k # "B" /\ pair' = p
NSpec == NInit /\ [][NNext]_nvars
NEmit == pair = <<>> \/ PrintT(ToJson([x |-> pair[1], y |-> pair[2]]))
=============================================================================
