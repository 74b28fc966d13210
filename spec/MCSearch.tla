------------------------------ MODULE MCSearch ------------------------------
(* Design-level model check: every graph on N expressions, every scoring,    *)
(* every start, every sequence of beams.                                     *)
EXTENDS Search

CONSTANTS N, Levels, MaxRounds, MaxBeam

VARIABLES g, sc, tested, expanded
vars == <<g, sc, tested, expanded>>
Nodes == 1..N

Init == /\ g \in [Nodes -> SUBSET Nodes] /\ sc \in [Nodes -> 1..Levels]
        /\ \E S \in (SUBSET Nodes) \ {{}} : tested = <<S>>
        /\ expanded = <<>>
All == UNION Range(tested)
Done == UNION Range(expanded)
Score(m) == sc[m]
Id(m) == m
Succ(n) == g[n]
Round(b) == \E C \in SUBSET (All \ Done) :
              /\ Best(C, All \ Done, b, Score)
              /\ expanded' = Append(expanded, C)
              /\ tested' = Append(tested, NewNodes(C, All, Id, Succ))
              /\ UNCHANGED <<g, sc>>
Next == Len(expanded) < MaxRounds /\ \E b \in 0..MaxBeam : Round(b)
Spec == Init /\ [][Next]_vars

(* nothing is fitted twice, nothing expanded twice *)
OnceOnly == /\ \A r, s \in DOMAIN tested : r # s => tested[r] \cap tested[s] = {}
            /\ \A r, s \in DOMAIN expanded : r # s => expanded[r] \cap expanded[s] = {}
(* whatever was expanded was fitted before, and everything it leads to was fitted *)
Complete == \A r \in DOMAIN expanded : /\ expanded[r] \subseteq UNION {tested[s] : s \in 1..r}
                                       /\ \A m \in expanded[r] : g[m] \subseteq UNION {tested[s] : s \in 1..(r + 1)}
(* and everything fitted is a start or comes from something expanded just before *)
Justified == \A r \in 2..Len(tested) : \A m \in tested[r] : \E p \in expanded[r - 1] : m \in g[p]
(* greediness: what is left unexpanded is never better than what was expanded once it was known *)
Greedy == \A r \in DOMAIN expanded : \A p \in expanded[r] : \A m \in UNION {tested[s] : s \in 1..r} \ UNION {expanded[s] : s \in 1..r} : sc[p] <= sc[m]
(* without any beam nothing happens; with one as wide as the space the search is exhaustive *)
RECURSIVE Closure(_)
Closure(S) == LET T == S \cup UNION {g[m] : m \in S} IN IF T = S THEN S ELSE Closure(T)
Reachable == All \subseteq Closure(tested[1]) /\ (Done = All => All = Closure(tested[1]))
=============================================================================
