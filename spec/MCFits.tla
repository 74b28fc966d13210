------------------------------- MODULE MCFits -------------------------------
(* The retry loop as a machine, for every script: it does what Fits says.    *)
EXTENDS Fits, Json

CONSTANTS MaxKernels, MaxScript, MaxRetries, Outcomes

VARIABLES scripts, retries, at, attempt, log, over
vars == <<scripts, retries, at, attempt, log, over>>

Scripts == UNION {[1..n -> Outcomes] : n \in 0..MaxScript}
Init == /\ scripts \in UNION {[1..n -> Scripts] : n \in 0..MaxKernels} /\ retries \in 0..MaxRetries
        /\ at = 1 /\ attempt = 1 /\ log = <<>> /\ over = FALSE
Now == Step(scripts[at], attempt)
Try == /\ ~ over /\ at <= Len(scripts)
       /\ CASE Now = "ok" -> /\ log' = Append(log, [attempts |-> attempt, end |-> "ok"]) /\ at' = at + 1 /\ attempt' = 1 /\ over' = FALSE
            [] Now = "fail" /\ attempt <= retries -> /\ attempt' = attempt + 1 /\ UNCHANGED <<log, at, over>>
            [] OTHER -> /\ log' = Append(log, [attempts |-> attempt, end |-> Now]) /\ over' = TRUE /\ UNCHANGED <<at, attempt>>
       /\ UNCHANGED <<scripts, retries>>
Spec == Init /\ [][Try]_vars
Final == over \/ at > Len(scripts)

AsSpecified == Final => log = FitList(scripts, retries)
NeverTooMany == attempt <= retries + 1
SuccessUnless == Final /\ (\A j \in DOMAIN scripts : \A k \in DOMAIN scripts[j] : scripts[j][k] # "stop") =>
                   (over <=> \E j \in DOMAIN scripts : Len(scripts[j]) > retries /\ \A k \in 1..(retries + 1) : scripts[j][k] = "fail")
Emit == (at = 1 /\ attempt = 1 /\ log = <<>>) => PrintT(ToJson([scripts |-> scripts, retries |-> retries]))
=============================================================================
