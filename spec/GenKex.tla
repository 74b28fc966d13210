-------------------------------- MODULE GenKex --------------------------------
(* Behaviours that build raw kernel expressions step by step (ordered, any   *)
(* nesting, redundancies and singleton wrappers included).  Run with         *)
(* -simulate; every finished behaviour prints the built expression as JSON.  *)
EXTENDS Bag, Json, IOUtils

CONSTANTS MaxLeaves, LeafNames, MaxDepth

VARIABLES stack, done
vars == <<stack, done>>

B(n) == [k |-> "B", n |-> n]
N(kind, b, c) == [k |-> kind, b |-> b, c |-> c]

RECURSIVE RLeaves(_), RDepth(_)
RLeaves(t) == CASE t.k = "B" -> 1
                [] t.k \in {"CP", "CW"} -> RLeaves(t.l) + RLeaves(t.r)
                [] OTHER -> Len(t.b) + FoldLeft(LAMBDA a, x : a + RLeaves(x), 0, t.c)
RDepth(t) == CASE t.k = "B" -> 0
               [] t.k \in {"CP", "CW"} -> 1 + Max2(RDepth(t.l), RDepth(t.r))
               [] OTHER -> 1 + FoldLeft(LAMBDA a, x : Max2(a, RDepth(x)), 0, t.c)

Total == FoldLeft(LAMBDA a, t : a + RLeaves(t), 0, stack)
Len0 == Len(stack)
Put(n, x) == SubSeq(stack, 1, Len0 - n) \o <<x>>
A1 == stack[Len0 - 1]
A2 == stack[Len0]
AsTerm(acc, x) == IF x.k = "B" THEN [acc EXCEPT !.b = Append(@, x.n)] ELSE [acc EXCEPT !.c = Append(@, x)]

Init == stack = <<>> /\ done = FALSE
Push(n) == Total < MaxLeaves /\ Len0 < 3 /\ stack' = Append(stack, B(n))
Combine(kind) == Len0 >= 2 /\ RDepth(A1) < MaxDepth /\ RDepth(A2) < MaxDepth
                 /\ stack' = Put(2, AsTerm(AsTerm(N(kind, <<>>, <<>>), A1), A2))
Extend(kind) == Len0 >= 2 /\ A1.k = kind /\ RDepth(A2) < MaxDepth /\ stack' = Put(2, AsTerm(A1, A2))
Merge(kind) == Len0 >= 2 /\ A1.k = kind /\ A2.k = kind
               /\ stack' = Put(2, N(kind, A1.b \o A2.b, A1.c \o A2.c))
Wrap(kind) == Len0 >= 1 /\ A2.k \notin {"CP", "CW"} /\ RDepth(A2) < MaxDepth /\ stack' = Put(1, AsTerm(N(kind, <<>>, <<>>), A2))
Twice(kind) == Len0 >= 1 /\ A2.k # "B" /\ Total + RLeaves(A2) <= MaxLeaves /\ RDepth(A2) < MaxDepth
               /\ stack' = Put(1, N(kind, <<>>, <<A2, A2>>))
Change(kind) == Len0 >= 2 /\ RDepth(A1) < MaxDepth /\ RDepth(A2) < MaxDepth
                /\ stack' = Put(2, [k |-> kind, l |-> A1, r |-> A2])
Finish == Len0 = 1 /\ A2.k # "B" /\ (RLeaves(A2) > MaxLeaves \div 2 \/ Total >= MaxLeaves) /\ done' = TRUE /\ UNCHANGED stack

Next == ~ done /\ (\/ /\ UNCHANGED done
                      /\ \/ \E n \in LeafNames : Push(n)
                         \/ \E kind \in {"S", "P"} : Combine(kind) \/ Extend(kind) \/ Merge(kind) \/ Wrap(kind) \/ Twice(kind)
                         \/ \E kind \in {"CP", "CW"} : Change(kind)
                   \/ Finish)
Spec == Init /\ [][Next]_vars
Emit == done => PrintT(ToJson(A2))
=============================================================================
