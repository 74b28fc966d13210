----------------------------- MODULE TraceKernel -----------------------------
(* Judges recorded kernels against Kernel.                                   *)
EXTENDS Kernel, Trace

R == T[i]

KernelClauses ==
  IF R.exc # "" \/ R.g = <<>> THEN << <<"exception while building or evaluating the kernel", TRUE>> >> ELSE
  LET g == R.g[1]  e == Canon(R.t)  Fact(f) == f \in DOMAIN R.facts => R.facts[f] IN <<
  <<"the kernel has another structure than the expression", GExpr(g) # KernelOf(e)>>,
  <<"the free parameters are not one variance per product of base factors and every other parameter", ~ ParamsOk(g)>>,
  <<"the number of free parameters is wrong", R.size # NParams(e) \/ R.transformed # R.size>>,
  <<"a covariance value is not that of the expression", ParamsOk(g) /\ \E v \in Range(R.vals) : ~ v[6] \/ Q(v[4], v[5]) # Val(g, v[1], v[2], v[3])>>,
  <<"the covariance is not symmetric", ~ R.facts.symmetric \/ ~ R.facts.cross>>,
  <<"the variances are not the diagonal of the covariance", ~ R.facts.diagonal>>,
  <<"the covariance is not positive semi-definite", ~ R.facts.psd>>,
  <<"cross-covariances differ from the joint covariance", ~ R.facts.cross_part>>,
  <<"a copy of the kernel evaluates differently", ~ R.facts.copy>>,
  <<"two kernels of the same expression share parameters", ~ R.facts.independent>>,
  <<"building a kernel changed the expression", ~ R.facts.unchanged>>,
  <<"evaluation depends on earlier parameter values", ~ R.facts.restored>>,
  <<"a stationary expression has a kernel which is not", Stationary(e) /\ ~ R.facts.shifts>>,
  <<"a parameter of a new kernel is where an optimiser cannot start", ~ R.facts.startable>>,
  <<"a free parameter has no effect on the covariance", "WN" \notin BasesIn(e) /\ R.dead # <<>> >>
>>
SigClauses == IF R.exc # "" THEN << <<"exception while evaluating a sigmoidal kernel", TRUE>> >> ELSE <<
  <<"a sigmoidal kernel has other parameters than its own", DOMAIN R.g[1].p # {"variance"} \cup SigParams(R.g[1].n)>>,
  <<"a value of a sigmoidal kernel is not that of its definition",
       DOMAIN R.g[1].p = {"variance"} \cup SigParams(R.g[1].n) /\ \E v \in Range(R.vals) : LET x == v[4] - Scaled(Val(R.g[1], v[1], v[2], v[3])) IN x > 1 \/ x < -1>>,
  <<"the variances of a sigmoidal kernel are not the diagonal of its covariance", ~ R.diagonal>>
>>
UnrefinedClauses == IF R.exc # "" THEN << <<"exception while building or evaluating the unrefined kernel", TRUE>> >> ELSE <<
  <<"the unrefined kernel has another structure than the expression", GExpr(R.g[1]) # KernelOf(Canon(R.t))>>,
  <<"the unrefined kernel does not have every parameter free", ~ AllParams(R.g[1])>>,
  <<"a covariance value of the unrefined kernel is not that of the expression", AllParams(R.g[1]) /\ \E v \in Range(R.vals) : ~ v[6] \/ Q(v[4], v[5]) # Val(R.g[1], v[1], v[2], v[3])>>
>>
PerClauses == <<
  <<"the periodic kernel does not have the shape of an exponentiated cosine", ~ R.exact \/ R.ratio # Pow2(R.code) + 1>>,
  <<"the periodic kernel is not scaled to its variance", ~ R.one>>,
  <<"the periodic kernel is not purely periodic", ~ R.zero_mean \/ ~ R.even \/ ~ R.periodic>>
>>

Verdict == Report(IF R.kind = "per" THEN PerClauses ELSE IF R.kind = "unrefined" THEN UnrefinedClauses ELSE IF R.kind = "sig" THEN SigClauses ELSE KernelClauses)
=============================================================================
