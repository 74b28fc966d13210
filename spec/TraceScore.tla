------------------------------ MODULE TraceScore ------------------------------
EXTENDS Score, Trace
R == T[i]
Near(a, b, tol) == a - b <= tol /\ b - a <= tol
C19 == IF R.kind = "formula" THEN <<
  <<"exception while scoring", R.exc # "">>,
  <<"AIC is wrong", R.exc = "" /\ Q(R.aic, R.den) # AICOf(R.ll, R.k)>>,
  <<"AICc is wrong", R.exc = "" /\ R.aicc # <<>> /\ R.n > R.k + 1 /\ Q(R.aicc[1], R.den) # AICcOf(R.ll, R.n, R.k)>>,
  <<"BIC is wrong", R.exc = "" /\ ~ Near(R.bic, BICOf(R.ll, R.n, R.k), R.k * 4 + 4)>>
>> ELSE <<
  <<"exception while scoring a model", R.exc # "">>,
  <<"the number of free parameters scored is not that of the kernel and the noise", R.exc = "" /\ R.k # KOf(Canon(R.t))>>,
  <<"the number of data points scored is wrong", R.exc = "" /\ R.n # R.points>>,
  <<"the likelihood scored is not that of the data under the fitted model", R.exc = "" /\ ~ R.ll>>,
  <<"the score function was not given the fitted model, or its value not kept", R.exc = "" /\ ~ (R.kept /\ R.given)>>,
  <<"fitting a kernel directly differs from fitting its model", R.exc = "" /\ ~ R.fit>>,
  <<"the leave-one-out score is not the mean of minus the log predictive density of each point", R.exc = "" /\ ~ R.loo>>
>>
Verdict == Report(C19)
=============================================================================
