-------------------------------- MODULE MCKex --------------------------------
(* Design-level model check of Kex: the normal form is reached, idempotent,  *)
(* preserves the denotation, is independent of how an expression is nested,  *)
(* and normality is exactly being a fixed point - for every tree reachable   *)
(* by the builder below (all trees up to the given number of leaves).        *)
EXTENDS Kex

CONSTANTS MaxLeaves, LeafNames

VARIABLES stack    \* the forest built so far (canonical, not simplified)

Init == stack = <<>>

Total == FoldLeft(LAMBDA acc, t : acc + Leaves(t), 0, stack)
Front2 == SubSeq(stack, 1, Len(stack) - 2)
A1 == stack[Len(stack) - 1]
A2 == stack[Len(stack)]

Push(n) == Total < MaxLeaves /\ Len(stack) < 2 /\ stack' = Append(stack, Leaf(n))
AsTerm(kind, acc, x) == IF x.k = "B" THEN [acc EXCEPT !.b[x.n] = @ + 1] ELSE [acc EXCEPT !.c = BAdd(@, x)]
Combine(kind) == Len(stack) >= 2 /\
    stack' = Append(Front2, AsTerm(kind, AsTerm(kind, Node(kind, ZeroB, EmptyBag), A1), A2))
(* one more term into an existing node, as the mutating methods of the code do *)
Extend(kind) == Len(stack) >= 2 /\ A1.k = kind /\ stack' = Append(Front2, AsTerm(kind, A1, A2))
Wrap(kind) == Len(stack) >= 1 /\ Depth(A2) < 3 /\ A2.k # kind /\
    stack' = Append(SubSeq(stack, 1, Len(stack) - 1), AsTerm(kind, Node(kind, ZeroB, EmptyBag), A2))
Change(kind) == Len(stack) >= 2 /\ stack' = Append(Front2, Chg(kind, A1, A2))

Next == \/ \E n \in LeafNames : Push(n)
        \/ \E kind \in Commutative : Combine(kind) \/ Extend(kind) \/ Wrap(kind)
        \/ \E kind \in Changes : Change(kind)
Spec == Init /\ [][Next]_stack

Trees == {stack[i] : i \in DOMAIN stack}
NFNormal     == \A t \in Trees : t.k # "B" => NormalBelow(NF(t)) /\ NonEmpty(NF(t))
NFIdempotent == \A t \in Trees : NF(NF(t)) = NF(t) /\ RootNF(RootNF(t)) = RootNF(t)
NFDen        == \A t \in Trees : Den(NF(t)) = Den(t) /\ Den(RootNF(t)) = Den(t)
NFFix        == \A t \in Trees : t.k # "B" => (NormalBelow(t) <=> NF(t) = t)
RootStd      == \A t \in Trees : StandardRoot(RootNF(t))
NFSmaller    == \A t \in Trees : Leaves(NF(t)) <= Leaves(t) /\ BasesIn(NF(t)) \subseteq BasesIn(t)
(* simplifying a part first changes nothing (confluence) *)
NFConfluent  == \A t \in Trees : t.k \in Commutative =>
    NF(Node(t.k, t.b, BMap(NFX, t.c))) = NF(FoldSet(LAMBDA c, acc : FoldLeft(LAMBDA a, i : AsTerm(t.k, a, NFX(c)), acc, [i \in 1..t.c[c] |-> i]),
                                                       Node(t.k, t.b, EmptyBag), DOMAIN t.c))
=============================================================================
