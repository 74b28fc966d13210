-------------------------------- MODULE Kex --------------------------------
(* Kernel expressions: the abstract values manipulated by the system.        *)
(*                                                                           *)
(* Raw form (as recorded or generated, ordered, any nesting):                *)
(*   [k |-> "B", n |-> name]                              a base kernel      *)
(*   [k |-> "S" | "P", b |-> <<names>>, c |-> <<raw>>]    sum / product      *)
(*   [k |-> "CP" | "CW", l |-> raw, r |-> raw]            change             *)
(* Canonical form: b is a function Bases -> Nat and c a bag of canonical     *)
(* trees, so that equality of values IS equality up to commutativity.        *)
EXTENDS Bag

CONSTANTS UseOffset,   \* LIN carries a horizontal offset (so LIN + C = LIN)
          IncludeSE    \* SE takes part in the grammar

Bases == {"WN", "C", "LIN", "SE", "PER"}
GrammarBases == IF IncludeSE THEN Bases ELSE Bases \ {"SE"}
Changes == {"CP", "CW"}
Commutative == {"S", "P"}
NonStationary == {"LIN"}

ZeroB == [n \in Bases |-> 0]
BB(n) == [ZeroB EXCEPT ![n] = 1]
BCount(b) == b["WN"] + b["C"] + b["LIN"] + b["SE"] + b["PER"]
BSum(a, b) == [n \in Bases |-> a[n] + b[n]]
BaseNamesToB(s) == [n \in Bases |-> Cardinality({i \in DOMAIN s : s[i] = n})]

Leaf(n) == [k |-> "B", n |-> n]
Node(kind, b, c) == [k |-> kind, b |-> b, c |-> c]
SumB(n) == Node("S", BB(n), EmptyBag)
Chg(kind, l, r) == [k |-> kind, l |-> l, r |-> r]

RECURSIVE Canon(_)
Canon(t) ==
  CASE t.k = "B" -> t
    [] t.k \in Changes -> Chg(t.k, Canon(t.l), Canon(t.r))
    [] OTHER -> Node(t.k, BaseNamesToB(t.b), BagOfSeq([i \in DOMAIN t.c |-> Canon(t.c[i])]))

TermCount(t) == BCount(t.b) + BSize(t.c)

(* Back to (one of) the raw forms *)
Times(n, x) == [j \in 1..n |-> x]
NamesOf(b) == Times(b["WN"], "WN") \o Times(b["C"], "C") \o Times(b["LIN"], "LIN") \o Times(b["SE"], "SE") \o Times(b["PER"], "PER")
RECURSIVE Raw(_)
Raw(t) ==
  CASE t.k = "B" -> t
    [] t.k \in Changes -> Chg(t.k, Raw(t.l), Raw(t.r))
    [] OTHER -> [k |-> t.k, b |-> NamesOf(t.b), c |-> FoldSet(LAMBDA c, acc : acc \o Times(t.c[c], Raw(c)), <<>>, DOMAIN t.c)]

----------------------------------------------------------------------------
(* The documented simplification laws *)

(* WN and C are addition-idempotent; an offset LIN absorbs C *)
SumLaw(b) == [b EXCEPT !["WN"] = Min2(@, 1),
                       !["C"]  = IF UseOffset /\ b["LIN"] > 0 THEN 0 ELSE Min2(@, 1)]

(* WN is idempotent and absorbs stationary factors; otherwise C is the       *)
(* identity unless alone and SE is idempotent.  nc: other factors present    *)
ProdLaw(b, nc) ==
  IF b["WN"] > 0
    THEN [n \in Bases |-> CASE n = "WN" -> 1 [] n = "LIN" -> b["LIN"] [] OTHER -> 0]
    ELSE [b EXCEPT !["C"]  = IF @ = 0 \/ BCount(b) + nc # @ THEN 0 ELSE 1,
                   !["SE"] = Min2(@, 1)]

Law(kind, b, nc) == IF kind = "S" THEN SumLaw(b) ELSE ProdLaw(b, nc)

Extract(n) ==    \* a sum/product of one term is that term
  IF n.k \in Commutative /\ TermCount(n) = 1
    THEN IF BCount(n.b) = 1 THEN Leaf(CHOOSE x \in Bases : n.b[x] = 1)
                            ELSE CHOOSE x \in DOMAIN n.c : TRUE
    ELSE n

(* Absorb m copies of the (already normal, extracted) term kid into node acc *)
Absorb(acc, kid, m) ==
  CASE kid.k = "B"   -> [acc EXCEPT !.b[kid.n] = @ + m]
    [] kid.k = acc.k -> Node(acc.k, [n \in Bases |-> acc.b[n] + m * kid.b[n]], BPlus(acc.c, BTimes(m, kid.c)))
    [] OTHER         -> Node(acc.k, acc.b, BPlus(acc.c, kid :> m))

RECURSIVE NF(_), NFX(_)
NFX(t) == Extract(NF(t))
NF(t) ==
  CASE t.k = "B" -> t
    [] t.k \in Changes -> Chg(t.k, NFX(t.l), NFX(t.r))
    [] OTHER -> LET flat == FoldSet(LAMBDA c, acc : Absorb(acc, NFX(c), t.c[c]), Node(t.k, t.b, EmptyBag), DOMAIN t.c)
                IN  Node(flat.k, Law(flat.k, flat.b, BSize(flat.c)), flat.c)

(* Standard form of a whole expression: a lone base kernel is a sum of one *)
RootNF(t) == LET x == NFX(t) IN IF x.k = "B" THEN SumB(x.n) ELSE x

----------------------------------------------------------------------------
(* Normality stated directly (not through NF) *)

RECURSIVE NormalBelow(_)
NormalBelow(t) ==     \* everything strictly below the root is normal
  CASE t.k = "B" -> TRUE
    [] t.k \in Changes -> \A x \in {t.l, t.r} :
          /\ x.k \in Commutative => TermCount(x) >= 2
          /\ NormalBelow(x)
    [] OTHER ->
          /\ TermCount(t) >= 1
          /\ t.b = Law(t.k, t.b, BSize(t.c))
          /\ \A c \in DOMAIN t.c :
                /\ c.k # t.k /\ c.k # "B"
                /\ c.k \in Commutative => TermCount(c) >= 2
                /\ NormalBelow(c)

StandardRoot(t) == /\ t.k # "B"
                   /\ t.k = "S" /\ TermCount(t) = 1 => BSize(t.c) = 0
                   /\ t.k = "P" => TermCount(t) >= 2

RECURSIVE NonEmpty(_)
NonEmpty(t) ==
  CASE t.k = "B" -> TRUE
    [] t.k \in Changes -> NonEmpty(t.l) /\ NonEmpty(t.r)
    [] OTHER -> TermCount(t) >= 1 /\ \A c \in DOMAIN t.c : NonEmpty(c)

----------------------------------------------------------------------------
(* What an expression denotes: a set of monomials (base factors and sigmoid  *)
(* factors), modulo exactly the documented laws.                             *)

SigNames == {"S", "Sr", "SI", "SIr"}
ZeroS == [n \in SigNames |-> 0]
Mono(b, s) == [b |-> ProdLaw(b, 0), s |-> s]
MonoMul(m, n) == Mono(BSum(m.b, n.b), [x \in SigNames |-> m.s[x] + n.s[x]])
WithSig(m, x) == [m EXCEPT !.s[x] = @ + 1]
SigOf(kind, side) == IF kind = "CP" THEN (IF side = "l" THEN "Sr" ELSE "S")
                                    ELSE (IF side = "l" THEN "SIr" ELSE "SI")

RECURSIVE DenRaw(_)
DenRaw(t) ==
  CASE t.k = "B" -> {Mono(BB(t.n), ZeroS)}
    [] t.k \in Changes -> {WithSig(m, SigOf(t.k, "l")) : m \in DenRaw(t.l)} \cup
                          {WithSig(m, SigOf(t.k, "r")) : m \in DenRaw(t.r)}
    [] t.k = "S" -> {Mono(BB(n), ZeroS) : n \in {x \in Bases : t.b[x] > 0}} \cup
                    UNION {DenRaw(c) : c \in DOMAIN t.c}
    [] OTHER -> LET start == {[b |-> t.b, s |-> ZeroS]}
                    TimesD(D, E) == {[b |-> BSum(d.b, e.b), s |-> [x \in SigNames |-> d.s[x] + e.s[x]]] : d \in D, e \in E}
                    Power(c, m, D) == FoldLeft(LAMBDA acc, i : TimesD(acc, DenRaw(c)), D, [i \in 1..m |-> i])
                IN  {Mono(m.b, m.s) : m \in FoldSet(LAMBDA c, D : Power(c, t.c[c], D), start, DOMAIN t.c)}

(* with an offset, a monomial is absorbed by its own product with LINs: the  *)
(* law LIN + C = LIN under any factors (taken transitively, so that the      *)
(* denotation does not depend on the order in which the law is applied)      *)
LinPower(j) == [b |-> [ZeroB EXCEPT !["LIN"] = j], s |-> ZeroS]
AbsorbedBy(m, n) == /\ UseOffset
                    /\ n.b["LIN"] > m.b["LIN"]
                    /\ n = MonoMul(m, LinPower(n.b["LIN"] - m.b["LIN"]))
Den(t) == LET D == DenRaw(t) IN {m \in D : ~ \E n \in D : AbsorbedBy(m, n)}

----------------------------------------------------------------------------
(* Structural queries *)

RECURSIVE BasesIn(_)
BasesIn(t) ==
  CASE t.k = "B" -> {t.n}
    [] t.k \in Changes -> BasesIn(t.l) \cup BasesIn(t.r)
    [] OTHER -> {n \in Bases : t.b[n] > 0} \cup UNION {BasesIn(c) : c \in DOMAIN t.c}

RECURSIVE HasChange(_)
HasChange(t) == CASE t.k = "B" -> FALSE
                  [] t.k \in Changes -> TRUE
                  [] OTHER -> \E c \in DOMAIN t.c : HasChange(c)
Stationary(t) == ~ HasChange(t) /\ BasesIn(t) \cap NonStationary = {}

RECURSIVE Leaves(_)
Leaves(t) == CASE t.k = "B" -> 1
               [] t.k \in Changes -> Leaves(t.l) + Leaves(t.r)
               [] OTHER -> BCount(t.b) + MapThenSumSet(LAMBDA c : t.c[c] * Leaves(c), DOMAIN t.c)

RECURSIVE Depth(_)
Depth(t) == CASE t.k = "B" -> 0
              [] t.k \in Changes -> 1 + Max2(Depth(t.l), Depth(t.r))
              [] OTHER -> 1 + Max({0} \cup {Depth(c) : c \in DOMAIN t.c})
=============================================================================
