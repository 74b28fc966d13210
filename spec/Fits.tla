-------------------------------- MODULE Fits --------------------------------
(* Fitting models with retries.  A script says what happens in the attempts  *)
(* to fit one kernel: "ok", "fail" (a numerical error) or "stop" (the user   *)
(* interrupts); after its end everything succeeds.                           *)
EXTENDS Bag

Step(script, a) == IF a <= Len(script) THEN script[a] ELSE "ok"

(* one fit: [attempts, end], where end is the outcome of the last attempt    *)
RECURSIVE FitFrom(_, _, _)
FitFrom(script, a, retries) ==
  IF Step(script, a) = "fail" /\ a <= retries THEN FitFrom(script, a + 1, retries) ELSE [attempts |-> a, end |-> Step(script, a)]
FitOne(script, retries) == FitFrom(script, 1, retries)

(* a list of fits one after the other: stops at the first that does not succeed *)
RECURSIVE FitList(_, _)
FitList(scripts, retries) ==
  IF scripts = <<>> THEN <<>>
  ELSE LET f == FitOne(scripts[1], retries) IN <<f>> \o (IF f.end = "ok" THEN FitList(Tail(scripts), retries) ELSE <<>>)
AllOk(scripts, retries) == \A j \in DOMAIN scripts : FitOne(scripts[j], retries).end = "ok"
=============================================================================
