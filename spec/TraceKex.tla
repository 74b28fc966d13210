------------------------------- MODULE TraceKex -------------------------------
(* Judges recorded constructions, simplifications, comparisons, printed      *)
(* forms and structural queries of expressions against Kex.                  *)
EXTENDS Kex, Trace

R == T[i]
Given == Canon(R.raw)
Obs(f) == [j \in DOMAIN f |-> Canon(f[j])]     \* an optional observation: a sequence of 0 or 1 trees
Has(f) == f # <<>>
Built == {R.ctor, R.init, R.perm, R.permctor}

(* ---- C01: a normal form is reached, whatever the spelling *)
NormalRoot(t) == t.k = "B" \/ (NormalBelow(t) /\ NonEmpty(t))
C01 == <<
  <<"exception while constructing or simplifying", R.exc # <<>> >>,
  <<"result is not in normal form", \E f \in Built : Has(f) /\ ~ NormalRoot(Obs(f)[1])>>,
  <<"simplifying again changed the result", Has(R.init) /\ Has(R.again) /\ Obs(R.init) # Obs(R.again)>>,
  <<"a reordering of the expression gave a different result",
        (Has(R.init) /\ Has(R.perm) /\ Obs(R.init) # Obs(R.perm)) \/ (Has(R.ctor) /\ Has(R.permctor) /\ Obs(R.ctor) # Obs(R.permctor))>>,
  <<"building bottom-up and simplifying as a whole disagree", Has(R.init) /\ Has(R.ctor) /\ RootNF(Obs(R.init)[1]) # RootNF(Obs(R.ctor)[1])>>,
  <<"different spellings of an expression compare as different", \E e \in Range(R.eq) : e.kind = "perm" /\ ~ (e.eq /\ e.rev)>>
>>

(* ---- C02: exactly the documented laws are applied *)
C02 == <<
  <<"the simplified expression is not the documented normal form of what was written", \E f \in Built : Has(f) /\ NFX(Obs(f)[1]) # NFX(Given)>>,
  <<"the simplified expression denotes something else", \E f \in Built : Has(f) /\ Den(Obs(f)[1]) # Den(Given)>>,
  <<"a term was not simplified as documented", Has(R.init) /\ Obs(R.init)[1] # NF(Given)>>,
  <<"the expression could not be simplified", ~ Has(R.init) \/ ~ Has(R.ctor)>>
>>

(* ---- C03: equality, printed forms and structural queries *)
RECURSIVE Nodes(_)
AsNode(t) == IF t.k = "B" THEN [k |-> "S", b |-> <<t.n>>, c |-> <<>>] ELSE t   \* a bare branch of a change is visited as a sum of one
Kids(t) == CASE t.k = "B" -> <<>>
             [] t.k \in Changes -> <<AsNode(t.l), AsNode(t.r)>>
             [] OTHER -> t.c
Nodes(t) == IF t.k = "B" THEN <<>> ELSE FoldLeft(LAMBDA acc, x : acc \o Nodes(x), <<t>>, Kids(t))
NodeBag(t) == BagOfSeq([j \in DOMAIN Nodes(t) |-> Canon(Nodes(t)[j])])
CanonBag(s) == BagOfSeq([j \in DOMAIN s |-> Canon(s[j])])

C03 == IF ~ Has(R.init) THEN <<>> ELSE
  LET t == Obs(R.init)[1]  s == R.init[1] IN <<
  <<"exception in a comparison, printed form or query", R.exc # <<>> >>,
  <<"equality is not structural equality up to term order",
        \E e \in Range(R.eq) : LET same == Canon(e.x) = Canon(e.y) IN e.eq # same \/ e.rev # same \/ e.ne = same>>,
  <<"the printed representation does not give back the expression", R.repr = <<>> \/ Canon(R.repr[1]) # t>>,
  <<"the infix form does not read as the expression", \E e \in Range(R.str) : e.back = <<>> \/ NFX(Canon(e.back[1])) # NFX(t)>>,
  <<"contains_base is wrong", \E n \in Bases : R.contains[n] # (n \in BasesIn(t))>>,
  <<"contains_base of several is wrong", \E q \in Range(R.contains2) : q.res # (Range(q.ns) \cap BasesIn(t) # {})>>,
  <<"stationarity is wrong", R.stationary # Stationary(t)>>,
  <<"traversal does not visit exactly the nodes", CanonBag(R.traverse) # NodeBag(s)>>,
  <<"reduction does not visit exactly the nodes", CanonBag(R.reduce) # NodeBag(s)>>
>>

(* Pairs of similar expressions *)
Near == <<
  <<"exception in a comparison", R.exc # <<>> >>,
  <<"equality is not structural equality up to term order",
        \E e \in Range(R.eq) : LET same == Canon(e.x) = Canon(e.y) IN e.eq # same \/ e.rev # same \/ e.ne = same \/ e.enr = same>>
>>

Verdict == Report(CASE Check = "Near" -> Near [] Check = "C01" -> C01 [] Check = "C02" -> C02 [] Check = "C03" -> C03)
=============================================================================
