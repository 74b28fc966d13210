---------------------------- MODULE MCLifecycle ----------------------------
EXTENDS Lifecycle, Json

CONSTANTS Steps, Models

VARIABLES s, hist, answers
vars == <<s, hist, answers>>
Init == s = Fresh /\ hist = <<>> /\ answers = <<>>
Next == Len(hist) < Steps /\ \E p \in Actions(s, Models) :
          s' = Do(s, p[1], p[2]) /\ hist' = Append(hist, [on |-> p[1], act |-> p[2]]) /\ answers' = Append(answers, Answer(s, p[1], p[2]))
Spec == Init /\ [][Next]_vars

(* the steps which made model m what it is before step j: its own, and those of the model it was copied from until then *)
CopyStep(m) == LET ks == {k \in DOMAIN hist : hist[k].act.a = "copy" /\ Cardinality({l \in 1..k : hist[l].act.a = "copy"}) = m - 1} IN CHOOSE k \in ks : TRUE
RECURSIVE Past(_, _)
Past(m, j) == IF m = 1 THEN {k \in 1..j : hist[k].on = 1}
              ELSE LET c == CopyStep(m) IN {k \in c..j : hist[k].on = m} \cup Past(hist[c].on, c - 1)
(* an answer is about the last successful fit in that past, whatever failed or was asked in between, and whatever was done to others *)
LastOk(m, j) == LET ks == {k \in Past(m, j) : hist[k].act.a = "fit" /\ ~ answers[k].error} IN IF ks = {} THEN 0 ELSE answers[Max(ks)].of
Current == \A j \in DOMAIN hist : hist[j].act.a \notin {"fit", "copy"} =>
             LET k == LastOk(hist[j].on, j) IN IF k = 0 THEN answers[j].error ELSE answers[j] = [error |-> FALSE, of |-> k]
Consistent == \A j \in DOMAIN s.ms : LET m == s.ms[j] IN m.fitted <= s.tries /\ (m.score # <<>> => m.score[2] = m.fitted)
(* an action changes only its model *)
Separate == [][\A j \in DOMAIN s.ms : s'.ms[j] # s.ms[j] => hist'[Len(hist')].on = j]_vars
Emit == Len(hist) = Steps => PrintT(ToJson(hist))
=============================================================================
