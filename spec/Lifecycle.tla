----------------------------- MODULE Lifecycle -----------------------------
(* The lives of a model and its copies.  Actions a user takes on one of them:*)
(*   fit      with restarts (0: not given), which succeeds or fails          *)
(*   sop, interpret, predict, print                                          *)
(*   score    with one of two utility functions                              *)
(*   copy     also as done by sending the model to another process           *)
(* Every attempt to fit has a number; a model's answers are those of its     *)
(* last successful fit, or of that of the model it was copied from; nothing  *)
(* done to one model matters to another.                                     *)
EXTENDS Bag

NoModel == 0
NewModel == [restarts |-> 0, fitted |-> NoModel, score |-> <<>>]
Fresh == [tries |-> 0, ms |-> <<NewModel>>]

Fits == {[a |-> "fit", restarts |-> r, ok |-> ok] : r \in {0, 1, 3}, ok \in BOOLEAN}
Asks == {[a |-> x] : x \in {"sop", "interpret", "predict", "print"}} \cup {[a |-> "score", f |-> f] : f \in {"f1", "f2"}}
Copies == {[a |-> "copy", how |-> h] : h \in {"deepcopy", "pickle"}}
(* what can be done on one of at most max models: <<number of the model, action>> *)
Actions(s, max) == {<<j, act>> : j \in DOMAIN s.ms, act \in Fits \cup Asks \cup (IF Len(s.ms) < max THEN Copies ELSE {})}

CanFit(m, act) == act.restarts # 0 \/ m.restarts # 0
(* the state after an action, and what the action answers: an error, or the  *)
(* fit it speaks of                                                          *)
Do(s, j, act) ==
  LET m == s.ms[j] IN
  CASE act.a = "fit" ->
         IF ~ CanFit(m, act) THEN s
         ELSE LET r == IF act.restarts = 0 THEN m.restarts ELSE act.restarts
                  n == s.tries + 1
              IN  [tries |-> n,
                   ms |-> [s.ms EXCEPT ![j] = IF act.ok THEN [restarts |-> r, fitted |-> n, score |-> <<>>] ELSE [m EXCEPT !.restarts = r]]]
    [] act.a = "score" -> IF m.fitted = NoModel THEN s ELSE [s EXCEPT !.ms[j].score = <<act.f, m.fitted>>]
    [] act.a = "copy" -> [s EXCEPT !.ms = Append(@, m)]
    [] OTHER -> s
Error == [error |-> TRUE, of |-> 0]
Answer(s, j, act) ==
  LET m == s.ms[j] IN
  CASE act.a = "fit" -> IF CanFit(m, act) /\ act.ok THEN [error |-> FALSE, of |-> s.tries + 1] ELSE Error
    [] act.a = "copy" -> [error |-> FALSE, of |-> m.fitted]
    [] OTHER -> IF m.fitted = NoModel THEN Error ELSE [error |-> FALSE, of |-> m.fitted]
=============================================================================
