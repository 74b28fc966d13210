-------------------------------- MODULE Trace --------------------------------
(* Common to the modules that judge recorded observations: every line of the *)
(* trace file is visited by exactly one state; a clause is a pair <<what is  *)
(* wrong, whether it is>>, and the violated ones are printed.                *)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils

T == ndJsonDeserialize(IOEnv.TRACE)
Check == IOEnv.CHECK
W == 64

VARIABLE i
TInit == i \in 1..(IF Len(T) < W THEN Len(T) ELSE W)
TNext == i + W <= Len(T) /\ i' = i + W
TSpec == TInit /\ [][TNext]_i

Report(clauses) == LET bad == SelectSeq(clauses, LAMBDA c : c[2])
                   IN  bad = <<>> \/ PrintT("BAD " \o ToJson([i |-> i, what |-> [j \in DOMAIN bad |-> bad[j][1]]]))
=============================================================================
