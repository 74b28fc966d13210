------------------------------ MODULE MCExpand ------------------------------
(* Design-level model check of the grammar: every expression reachable from  *)
(* the start kernels by any sequence of expansions (within a size bound) is  *)
(* normal, non-empty and built from the configured bases only; and no rule   *)
(* leaves the language.                                                      *)
EXTENDS Expand

CONSTANTS MaxLeaves, Rules, Starts

VARIABLE t

StartSet == StartGroup(Starts)
RuleSet == CASE Rules = "All" -> RuleNames
             [] Rules = "Original_ABCD" -> {"plus_base", "times_base", "replace_base", "change_same", "change_window_constant",
                                            "times_shifted_base", "replace_with_singleton", "remove_some_term"}
             [] Rules = "Minimal" -> {"plus_base", "times_base", "replace_base", "change_same"}
             [] Rules = "Default" -> {"plus_base", "times_base", "replace_base", "change_point_linear", "change_window_linear",
                                      "times_shifted_base", "replace_with_singleton", "remove_some_term"}
Init == t \in StartSet
Next == \E rule \in RuleSet : \E e \in Expand(t, rule) : Leaves(e) <= MaxLeaves /\ t' = e
Spec == Init /\ [][Next]_t

ReachableNormal == NormalBelow(t) /\ StandardRoot(t) /\ NonEmpty(t)
ReachableBases == BasesIn(t) \subseteq GrammarBases
ReachableFix == RootNF(t) = t
(* an expansion can always be undone or simplified: every expression can be expanded further *)
NeverStuck == \A rule \in RuleSet \cap {"plus_base", "times_base"} : Expand(t, rule) # {}
(* one edit adds at most one term per node, or doubles a node *)
Bounded == \A rule \in RuleSet : \A e \in Expand(t, rule) : Leaves(e) <= 2 * Leaves(t) + 3
(* without the removing rules no base disappears except by the documented laws on products with WN, C and LIN *)
Monotone == \A e \in Expand(t, "plus_base") : t.k = "S" => Leaves(e) >= Leaves(t) - 1
=============================================================================
