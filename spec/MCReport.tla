------------------------------ MODULE MCReport ------------------------------
(* Reports' own properties, over all small benchmarks and all ways to sample *)
(* curves: parameters are drawn anew and curves are drawn, one at a time or  *)
(* all at once; only complete and correct ones may be shown.                 *)
EXTENDS Report, Json, TLC
CONSTANTS Durations, Runs, MaxFunctions, MaxCurves

VARIABLES fs, n, same, version, curves
vars == <<fs, n, same, version, curves>>
Init == fs = <<>> /\ n \in 1..MaxCurves /\ same \in BOOLEAN /\ version = 0 /\ curves = <<>>
Time == /\ Len(fs) < MaxFunctions /\ n = 1 /\ same /\ version = 0
        /\ \E t \in [1..Runs -> Durations] : fs' = Append(fs, t)
        /\ UNCHANGED <<n, same, version, curves>>
Randomise == /\ fs = <<>> /\ Len(curves) < n /\ IF same THEN version = 0 ELSE version = Len(curves)
             /\ version' = version + 1 /\ UNCHANGED <<fs, n, same, curves>>
Draw == /\ fs = <<>> /\ version > 0 /\ Len(curves) < n /\ (~ same => Len(curves) < version)
        /\ curves' = Append(curves, version) /\ UNCHANGED <<fs, n, same, version>>
DrawAll == /\ fs = <<>> /\ same /\ version > 0 /\ curves = <<>>
           /\ curves' = [j \in 1..n |-> version] /\ UNCHANGED <<fs, n, same, version>>
Next == Time \/ Randomise \/ Draw \/ DrawAll
Spec == Init /\ [][Next]_vars

Shown == Len(curves) = n => CurvesOk(curves, n, same)
Never == Len(curves) <= n /\ \A j \in DOMAIN curves : curves[j] \in 1..version

Orders == {o \in [1..Len(fs) -> 1..Len(fs)] : IsTableOrder(o, fs)}
RECURSIVE Product(_)
Product(qs) == IF qs = <<>> THEN QI(1) ELSE QMul(Product(Tail(qs)), qs[1])
Tables == fs # <<>> => /\ Orders # {}
                       /\ \A o \in Orders : \A j \in 1..Len(fs) :
                            LET r == TableRow(o, fs, j)
                            IN  /\ ~ QLess(r.next, QI(1)) /\ ~ QLess(r.best, r.next)
                                /\ r.best = Product([k \in 1..j |-> TableRow(o, fs, k).next]) /\ r.best1 = Product([k \in 1..j |-> TableRow(o, fs, k).next1])
                                /\ j = 1 => r.best = QI(1) /\ r.best1 = QI(1)
Emit == /\ (fs # <<>> => PrintT(ToJson([kind |-> "bench", fs |-> fs])))
        /\ ((fs = <<>> /\ version = 0) => PrintT(ToJson([kind |-> "curves", n |-> n, same |-> same])))
=============================================================================
