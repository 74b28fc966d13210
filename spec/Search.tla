------------------------------- MODULE Search -------------------------------
(* The model search.  A model is known by its number (in the order of        *)
(* fitting); Score and Node give its score (lower is better) and the         *)
(* expression it is a model of, Succ the expressions a node expands to.      *)
(*                                                                           *)
(* One round: the best b models which have not been expanded yet are         *)
(* expanded; every expression thus obtained which has not been tested before *)
(* is fitted, once.  Ties between scores may be broken either way.           *)
EXTENDS Bag

Sorted(s, Score(_)) == \A j \in 1..(Len(s) - 1) : Score(s[j]) <= Score(s[j + 1])
NoRepeats(s) == Cardinality(Range(s)) = Len(s)

(* C is a choice of the best b among S *)
Best(C, S, b, Score(_)) == /\ C \subseteq S
                           /\ Cardinality(C) = Min2(b, Cardinality(S))
                           /\ \A c \in C, s \in S \ C : Score(c) <= Score(s)

(* What the expressions of the models C lead to that is new *)
NewNodes(C, known, Node(_), Succ(_)) == UNION {Succ(Node(m)) : m \in C} \ known

(* The beams of the rounds: an integer, or a list of which the last element  *)
(* is repeated as needed                                                     *)
BeamOf(list, isInt, r) == IF isInt THEN list[1] ELSE list[Min2(r, Len(list))]
=============================================================================
