------------------------------ MODULE GenExpand ------------------------------
(* Histories of expansions; run with -simulate.                              *)
EXTENDS MCExpand, Json

CONSTANT MaxSteps
VARIABLES start, hist
gvars == <<t, start, hist>>

GInit == t \in StartSet /\ start = t /\ hist = <<>>
GNext == /\ Len(hist) < MaxSteps
         /\ \E rule \in RuleSet : \E e \in Expand(t, rule) :
               /\ Leaves(e) <= MaxLeaves
               /\ t' = e
               /\ hist' = Append(hist, [rule |-> rule, to |-> Raw(e)])
         /\ UNCHANGED start
GSpec == GInit /\ [][GNext]_gvars
Emit == Len(hist) = MaxSteps => PrintT(ToJson([start |-> Raw(start), path |-> hist]))
=============================================================================
