--------------------------- MODULE TraceLifecycle ---------------------------
(* Judges recorded lives of models.                                          *)
EXTENDS Lifecycle, Trace

R == T[i]
States == FoldLeft(LAMBDA acc, h : Append(acc, Do(acc[Len(acc)], h.on, h.act)), <<Fresh>>, R.hist)    \* before each action, and at the end
Wants(j) == Answer(States[j], R.hist[j].on, R.hist[j].act)
Said(j) == R.said[j]
Act(j) == R.hist[j].act
After(j) == States[j + 1].ms[R.hist[j].on]

C18 == <<
  <<"exception outside the model's own errors", R.exc # "">>,
  <<"an action did not fail though it has no answer, or failed though it has", \E j \in DOMAIN R.said : Said(j).error # Wants(j).error>>,
  <<"an answer is not about the last successful fit", \E j \in DOMAIN R.said : Act(j).a # "copy" /\ ~ Said(j).error /\ ~ Wants(j).error /\ Said(j).of # Wants(j).of>>,
  <<"the answers of one fit contradict each other", \E j \in DOMAIN R.said : ~ Said(j).agree>>,
  <<"fitting was not done with the restarts last given", \E j \in DOMAIN R.said : Act(j).a = "fit" /\ CanFit(States[j].ms[R.hist[j].on], Act(j)) /\ Said(j).restarts # After(j).restarts>>,
  <<"a score is remembered which is not the last one computed for the last fit",
       \E j \in DOMAIN R.said : Said(j).scores # [k \in DOMAIN States[j + 1].ms |-> States[j + 1].ms[k].score]>>,
  <<"the model's expression or data changed", ~ R.unchanged>>
>>
Verdict == Report(C18)
=============================================================================
