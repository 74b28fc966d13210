------------------------------ MODULE TraceFits ------------------------------
(* Judges recorded fits under injected failures.                             *)
EXTENDS Fits, Trace

R == T[i]
N == Len(R.scripts)
Expected == FitList(R.scripts, R.retries)
Ok == AllOk(R.scripts, R.retries)
FirstBad == Expected[Len(Expected)].end
Err(x) == IF x = "fail" THEN "error" ELSE "interrupt"
Parallel == R.mode = "parallel"

C17 == <<
  <<"fitting failed though enough attempts succeed", Ok /\ R.exc # "">>,
  <<"fitting did not fail though a fit used up its attempts", ~ Ok /\ R.exc = "">>,
  <<"another error was raised than that of the last attempt", ~ Ok /\ R.exc # "" /\ (IF Parallel THEN R.exc # "error" ELSE R.exc # Err(FirstBad) \/ (FirstBad = "fail" /\ R.raised # <<Len(Expected), Expected[Len(Expected)].attempts>>))>>,
  <<"the number of attempts is wrong", ~ Parallel /\ R.attempts # [j \in 1..N |-> IF j <= Len(Expected) THEN Expected[j].attempts ELSE 0]>>,
  <<"the number of attempts is wrong", Parallel /\ (\E j \in 1..N : LET a == FitOne(R.scripts[j], R.retries).attempts IN R.attempts[j] # a /\ (Ok \/ R.attempts[j] # 0))>>,
  <<"the fitted models are not those of the given kernels, in order", R.exc = "" /\ R.models # [j \in 1..N |-> j]>>,
  <<"a model is not the result of its last attempt", R.exc = "" /\ \E j \in 1..N : R.version[j] # FitOne(R.scripts[j], R.retries).attempts>>,
  <<"a retry was not announced", ~ Parallel /\ R.warnings # FoldLeft(LAMBDA a, f : a + f.attempts - 1, 0, Expected)>>,
  <<"the attempts were not made with the given options", ~ R.options>>,
  <<"fitting changed the given kernel expressions", ~ R.untouched>>,
  <<"a fitted model does not work as one fitted directly does", R.exc = "" /\ ~ R.alive>>
>>
Verdict == Report(C17)
=============================================================================
