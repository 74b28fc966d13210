-------------------------------- MODULE MCLists --------------------------------
(* All small inputs of the utilities, and laws which must hold of their      *)
(* definitions; every input is printed for the conformance driver.           *)
EXTENDS Lists, Json
CONSTANTS MaxLen, MaxVal, MaxNodes
Seqs == UNION {[1..n -> 0..MaxVal] : n \in 0..MaxLen}
VARIABLE x
SeqsUp == UNION {[1..n -> 0..MaxNodes] : n \in 0..2}
PairsI == {[kind |-> "pair", xs |-> a, ys |-> b] : a \in Seqs, b \in Seqs}
GraphsI == UNION {{[kind |-> "graph", es |-> [j \in 1..n |-> <<j, d[j]>>]] : d \in [1..n -> {s \in SeqsUp : Range(s) \subseteq (1..(n+1))}]} : n \in 0..MaxNodes}
IntervalsI == {[kind |-> "interval", q |-> q] : q \in [1..4 -> -1..2]}
Init == x \in PairsI \cup GraphsI \cup IntervalsI
Spec == Init /\ [][UNCHANGED x]_x
Laws == CASE x.kind = "pair" ->
              /\ Range(Unique(x.xs)) = Range(x.xs) /\ Len(Unique(x.xs)) = Cardinality(Range(x.xs))
              /\ SameElems(x.xs, x.ys) = SameElems(x.ys, x.xs)
              /\ SameElems(x.xs, x.ys) = (\A v \in 0..MaxVal : Cardinality({j \in DOMAIN x.xs : x.xs[j] = v}) = Cardinality({j \in DOMAIN x.ys : x.ys[j] = v}))
              /\ \A v \in 0..MaxVal : LET n(s) == Cardinality({j \in DOMAIN s : s[j] = v}) IN n(Diff(x.xs, x.ys)) = IF n(x.xs) > n(x.ys) THEN n(x.xs) - n(x.ys) ELSE 0
              /\ \A n \in 1..3 : Flat(Chunks(x.xs, n)) = x.xs
              /\ FoldQ("all", "same", x.xs, <<>>) = <<x.xs, <<>> >>
         [] x.kind = "graph" -> LET t == Topo(x.es, <<>>) IN Sorted(t[1], x.es) /\ (~ t[2] => Len(t[1]) = Len(x.es))
         [] OTHER -> Overlap(x.q[1], x.q[2], x.q[3], x.q[4]) = Overlap(x.q[3], x.q[4], x.q[1], x.q[2])
Emit == PrintT(ToJson(x))
=============================================================================
