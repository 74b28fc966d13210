------------------------------- MODULE Expand -------------------------------
(* The expression operations and the grammar: what one expansion of an       *)
(* expression by a production rule produces.                                 *)
EXTENDS Kex

RuleNames == {"plus_base", "times_base", "replace_base",
              "change_new_base", "change_same", "change_point_linear", "change_window_constant", "change_window_linear",
              "times_shifted_base", "replace_with_singleton", "remove_some_term", "try_higher_curves"}
NotC == GrammarBases \ {"C"}

(* ---- Operations on two operands (expressions or base kernels), unsimplified *)
AsTermOf(kind, acc, x) == CASE x.k = "B" -> [acc EXCEPT !.b[x.n] = @ + 1]
                            [] x.k = kind -> Node(kind, BSum(acc.b, x.b), BPlus(acc.c, x.c))
                            [] OTHER -> [acc EXCEPT !.c = BAdd(@, x)]
Both(kind, x, y) == AsTermOf(kind, AsTermOf(kind, Node(kind, ZeroB, EmptyBag), x), y)
AddOp(x, y) == Both("S", x, y)
MulOp(x, y) == Both("P", x, y)
Present(b) == {n \in Bases : b[n] > 0}
Less(b, n) == [b EXCEPT ![n] = @ - 1]
More(b, n, j) == [b EXCEPT ![n] = @ + j]
NoSE(b) == [b EXCEPT !["SE"] = 0]
Pair(kind, x, y) == Node(kind, BSum(BB(x), BB(y)), EmptyBag)
LinPow(j) == Node("P", More(ZeroB, "LIN", j), EmptyBag)

(* a base kernel also joins every base term of a node of the other kind separately *)
Nested(other, n, B) == {Node(n.k, Less(n.b, bt), BAdd(n.c, Pair(other, B, bt))) : bt \in Present(n.b)}
AddBase(n, B) == {AddOp(n, Leaf(B))} \cup (IF n.k = "P" THEN Nested("S", n, B) ELSE {})
MulBase(n, B) == {MulOp(n, Leaf(B))} \cup (IF n.k = "S" THEN Nested("P", n, B) ELSE {})

Swap(n, B) ==
  IF n.k \in Changes
    THEN (IF n.l.k = "B" /\ n.l.n # B THEN {Chg(n.k, Leaf(B), n.r)} ELSE {}) \cup
         (IF n.r.k = "B" /\ n.r.n # B THEN {Chg(n.k, n.l, Leaf(B))} ELSE {})
    ELSE {Node(n.k, More(Less(n.b, bt), B, 1), n.c) : bt \in Present(n.b) \ {B}}

ChangesOf(kinds, x, y) == UNION {{Chg(kind, x, y), Chg(kind, y, x)} : kind \in kinds}

AsNode(x) == IF x.k = "B" THEN SumB(x.n) ELSE x
RemoveTerm(n) ==
  IF n.k \in Changes THEN {AsNode(n.l), AsNode(n.r)}
  ELSE IF TermCount(n) > 1 THEN {Node(n.k, Less(n.b, bt), n.c) : bt \in Present(n.b)} \cup
                                {Node(n.k, n.b, BDel(n.c, c)) : c \in DOMAIN n.c}
  ELSE {}

Higher(n) ==
  CASE n.k = "S" -> {Node("S", NoSE(n.b), BAdd(n.c, LinPow(j))) : j \in {2, 3}}
    [] n.k = "P" -> {Node("P", More(NoSE(n.b), "LIN", j), n.c) : j \in {2, 3}} \cup
                    {Node("P", More(NoSE(n.b), "PER", IF n.b["PER"] > 0 THEN 1 ELSE 2), n.c)}
    [] OTHER -> (IF n.l.k = "B" THEN {Chg(n.k, LinPow(j), n.r) : j \in {2, 3}} ELSE {}) \cup
                (IF n.r.k = "B" THEN {Chg(n.k, n.l, LinPow(j)) : j \in {2, 3}} ELSE {})

(* ---- What a rule makes of one node *)
NodeEdits(n, rule) ==
  CASE rule = "plus_base"              -> UNION {AddBase(n, B) : B \in GrammarBases}
    [] rule = "times_base"             -> UNION {MulBase(n, B) : B \in NotC}
    [] rule = "replace_base"           -> UNION {Swap(n, B) : B \in GrammarBases}
    [] rule = "change_new_base"        -> UNION {ChangesOf(Changes, n, Leaf(B)) : B \in NotC}
    [] rule = "change_same"            -> ChangesOf(Changes, n, n)
    [] rule = "change_point_linear"    -> ChangesOf({"CP"}, n, Leaf("LIN"))
    [] rule = "change_window_constant" -> ChangesOf({"CW"}, n, Leaf("C"))
    [] rule = "change_window_linear"   -> ChangesOf({"CW"}, n, Leaf("LIN"))
    [] rule = "times_shifted_base"     -> {MulOp(n, Pair("S", B, "C")) : B \in NotC}
    [] rule = "replace_with_singleton" -> {SumB(B) : B \in GrammarBases}
    [] rule = "remove_some_term"       -> RemoveTerm(n)
    [] rule = "try_higher_curves"      -> Higher(n)

(* ---- ... and of a tree: exactly one node is edited, anywhere; a bare      *)
(* branch of a change is a node too                                          *)
RECURSIVE Edits(_, _)
Edits(t, rule) ==
  CASE t.k = "B" -> NodeEdits(SumB(t.n), rule)
    [] t.k \in Changes -> NodeEdits(t, rule) \cup {Chg(t.k, e, t.r) : e \in Edits(t.l, rule)}
                                             \cup {Chg(t.k, t.l, e) : e \in Edits(t.r, rule)}
    [] OTHER -> NodeEdits(t, rule) \cup
                UNION {{Node(t.k, t.b, BAdd(BDel(t.c, c), e)) : e \in Edits(c, rule)} : c \in DOMAIN t.c}

(* ---- Where searches start from; a LIN without an offset is also offered with a constant *)
LinChange(kind) == Chg(kind, Leaf("LIN"), Leaf("LIN"))
CommonStarts == {SumB(n) : n \in Bases \ {"SE"}} \cup {LinPow(2), LinPow(3), Pair("S", "PER", "C")}
StartGroup(group) ==
  (CASE group = "Default" -> CommonStarts \cup {LinChange("CP"), LinChange("CW")}
     [] group = "Extended" -> CommonStarts \cup {Node("S", BB("C"), LinChange(kind) :> 1) : kind \in Changes}
     [] group = "Original_ABCD" -> {SumB("WN")})
  \cup (IF UseOffset THEN {} ELSE {Pair("S", "LIN", "C")})

Expand(t, rule) == {RootNF(e) : e \in Edits(t, rule)}
ExpandAll(t, rules) == UNION {Expand(t, r) : r \in rules}
=============================================================================
