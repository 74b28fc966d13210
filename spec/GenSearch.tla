------------------------------ MODULE GenSearch ------------------------------
(* Builds search problems step by step: a graph of N expressions, scores,    *)
(* start, rounds, beams, where the search is split into two, and at which    *)
(* call the fitting of models fails.  Run with -simulate.                    *)
EXTENDS Bag, Json

CONSTANTS N, Levels, MaxRounds, MaxBeam

VARIABLES succ, score, start, rest
vars == <<succ, score, start, rest>>
Nodes == 1..N

Init == succ = <<>> /\ score = <<>> /\ start = <<>> /\ rest = <<>>
AddNode == Len(succ) < N /\ \E S \in SUBSET Nodes : Cardinality(S) <= 3 /\ succ' = Append(succ, S) /\ UNCHANGED <<score, start, rest>>
AddScore == Len(succ) = N /\ Len(score) < N /\ \E x \in 1..Levels : score' = Append(score, x) /\ UNCHANGED <<succ, start, rest>>
AddStart == Len(score) = N /\ start = <<>> /\ \E S \in SUBSET Nodes : S # {} /\ Cardinality(S) <= 3 /\ start' = SetToSeq(S) /\ UNCHANGED <<succ, score, rest>>
Beams == UNION {[1..n -> 0..MaxBeam] : n \in 1..3}
AddRest == start # <<>> /\ rest = <<>> /\ \E r \in 0..MaxRounds : \E isInt \in BOOLEAN : \E b \in Beams : \E split \in 0..r : \E fail \in 0..(r + 1) :
             /\ isInt => Len(b) = 1
             /\ rest' = <<[rounds |-> r, isInt |-> isInt, beam |-> b, split |-> split, fail |-> fail]>>
             /\ UNCHANGED <<succ, score, start>>
Next == AddNode \/ AddScore \/ AddStart \/ AddRest
Spec == Init /\ [][Next]_vars
Emit == rest # <<>> => PrintT(ToJson([n |-> N, succ |-> [j \in Nodes |-> SetToSeq(succ[j])], score |-> score, start |-> start, rest |-> rest[1]]))
=============================================================================
