----------------------------- MODULE MCInterval -----------------------------
(* All sequences of sigmoidal factors on a small grid: checks Interval's     *)
(* decomposition, and generates the factors to describe.                     *)
EXTENDS Interval, Json

CONSTANTS MaxFactors, Size, Slopes, Kinds

VARIABLE fs

Sl == IF Slopes THEN {1, 2} ELSE {0}
P(loc, sl) == IF Slopes THEN [location |-> loc, slope |-> sl] ELSE [location |-> loc]
PW(loc, w, sl) == IF Slopes THEN [location |-> loc, width |-> w, slope |-> sl] ELSE [location |-> loc, width |-> w]
Factors == {[n |-> n, p |-> P(loc, sl)] : n \in {"S", "Sr"} \cap Kinds, loc \in 0..Size, sl \in Sl} \cup
           {[n |-> n, p |-> PW(loc, w, sl)] : n \in {"SI", "SIr"} \cap Kinds, loc \in 0..(Size - 1), w \in 1..Size, sl \in Sl}
Init == fs = <<>>
Next == Len(fs) < MaxFactors /\ \E f \in Factors : (IF f.n \in {"S", "Sr"} THEN TRUE ELSE f.p.location + f.p.width <= Size) /\ fs' = Append(fs, f)
Spec == Init /\ [][Next]_fs

Set == Range(fs)
(* the intervals are exactly the active region, separated from each other *)
Exact == fs # <<>> => LET I == Intervals(Set) IN
           /\ \A c \in -2..(Size + 2) : Active(Set, c) <=> \E v \in I : InInterval(v, c)
           /\ \A v, w \in I : v # w => \A c \in -2..(Size + 2) : ~ (InInterval(v, c) /\ (InInterval(w, c) \/ InInterval(w, c + 1)))
           /\ \A v \in I : \A s \in Range(v.s) : Slopes => StartSlopes(Set, s) # {}
Emit == fs = <<>> \/ PrintT(ToJson(fs))
=============================================================================
