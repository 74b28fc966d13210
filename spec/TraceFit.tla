------------------------------ MODULE TraceFit ------------------------------
(* Judges what a fitted model says about its parameters: the expression with *)
(* parameters (C09), the sum-of-products form (C10), the description (C11).  *)
EXTENDS Text, Trace

R == T[i]
G == R.g[1]

(* ---- C09: recorded expressions with parameters, canonically *)
RECURSIVE E(_)
E(e) == CASE e.k = "B" -> [k |-> "B", n |-> e.n, p |-> e.p]
          [] e.k \in Changes -> [k |-> e.k, p |-> e.p, l |-> E(e.l), r |-> E(e.r)]
          [] e.k = "S" -> [k |-> "S", c |-> BagOfSeq([j \in DOMAIN e.b |-> E(e.b[j])] \o [j \in DOMAIN e.c |-> E(e.c[j])])]
          [] OTHER -> [k |-> "P", v |-> e.v, c |-> BagOfSeq([j \in DOMAIN e.b |-> E(e.b[j])] \o [j \in DOMAIN e.c |-> E(e.c[j])])]
(* a product of one base kernel: its variance is that of the kernel *)
Attributed(e) == LET x == E(e) IN
  IF x.k = "P" /\ BSize(x.c) = 1 /\ Len(x.v) = 1
    THEN LET b == CHOOSE y \in DOMAIN x.c : TRUE IN [k |-> "S", c |-> [b EXCEPT !.p = ("variance" :> x.v[1]) @@ @] :> 1]
  ELSE IF x.k \in Commutative /\ BSize(x.c) = 1 /\ (x.k = "P" => x.v = <<>>)
    THEN LET y == CHOOSE y \in DOMAIN x.c : TRUE IN IF y.k = "B" THEN x ELSE y     \* a sum or product of one composite has its kernel
    ELSE x
RECURSIVE Names(_)
Names(e) == CASE e.k = "B" -> TRUE
              [] e.k \in Changes -> Names(e.l) /\ Names(e.r)
              [] OTHER -> BaseNamesToB([j \in DOMAIN e.b |-> e.b[j].n]) = BaseNamesToB(e.names) /\ \A j \in DOMAIN e.c : Names(e.c[j])
C09 == <<
  <<"exception while fitting or matching the parameters", R.exc # "" \/ R.e = <<>> >>,
  <<"the fitted kernel is not that of the expression", R.g # <<>> /\ GExpr(G) # KernelOf(Canon(R.t))>>,
  <<"a term has not got one set of parameters per base kernel", R.e # <<>> /\ ~ Names(R.e[1])>>,
  <<"fitted parameters are not attributed to the terms of the expression they belong to", R.e # <<>> /\ Attributed(R.e[1]) # Annot(G)>>,
  <<"fitting or describing changed the model's expression", R.exc = "" /\ R.after # R.t>>
>>

(* ---- C10: the sum-of-products form *)
Term(t) == [v |-> t.v, f |-> BagOfSeq([j \in DOMAIN t.f |-> [n |-> t.f[j].n, p |-> t.f[j].p]])]
RecSop == [j \in DOMAIN R.sop[1].terms |-> Term(R.sop[1].terms[j])]
AllNames(s) == [n \in Range(s) |-> Cardinality({j \in DOMAIN s : s[j] = n})]
C10 == <<
  <<"exception while fitting or expanding", R.exc # "" \/ R.sop = <<>> >>,
  <<"the form is not a sum of products of base kernels only", R.sop # <<>> /\ ~ R.sop[1].pure>>,
  <<"the factors of a product and their parameters disagree", R.sop # <<>> /\ \E t \in Range(R.sop[1].terms) : AllNames(t.names) # AllNames([j \in DOMAIN t.f |-> t.f[j].n])>>,
  <<"the sum-of-products form is not the expanded and simplified product of the fitted terms", R.sop # <<>> /\ BagOfSeq(RecSop) # BagOfSeq(Sop(G))>>,
  <<"the sum-of-products form has another covariance than the fitted kernel",
     R.sop # <<>> /\ R.small /\ \E x, y \in {0, 1} : \E eq \in BOOLEAN : eq = (x = y) /\ SopVal(RecSop, x, y, eq) # Val(G, x, y, eq)>>,
  <<"asking again gave another sum-of-products form", R.exc = "" /\ ~ R.stable>>
>>

(* ---- C11: the description *)
C11 == <<
  <<"exception while fitting or describing", R.exc # "" \/ R.text = <<>> >>,
  <<"the description does not announce its number of components", R.text # <<>> /\ R.text[1].header # Header(Len(R.text[1].lines))>>,
  <<"the description has not one sentence per term of the sum-of-products form", R.text # <<>> /\ Len(R.text[1].lines) # Len(Sop(G))>>,
  <<"the sentences are not those of the fitted terms",
     R.text # <<>> /\ LET s == Sop(G)  L == R.text[1].lines  acc == [j \in DOMAIN s |-> Sentences(s[j])]
                      IN  \E j \in DOMAIN s : Cardinality({k \in DOMAIN L : L[k] \in acc[j]}) # Cardinality({m \in DOMAIN s : acc[m] = acc[j]})>>
>>

(* ---- C12: active intervals of products of sigmoidal factors *)
C12 == LET fs == Range(R.fs)  got == R.intervals IN <<
  <<"exception while describing sigmoidal factors", R.exc # "">>,
  <<"the active intervals are not given as such", R.exc = "" /\ R.intervals = <<>> /\ ~ R.nowhere>>,
  <<"an interval is empty", \E v \in Range(got) : v.s # <<>> /\ v.e # <<>> /\ v.s[1] >= v.e[1]>>,
  <<"the intervals are not where the sigmoidal factors are active", R.exc = "" /\ \E c \in Cells(fs) : Active(fs, c) # \E v \in Range(got) : InInterval(v, c)>>,
  <<"intervals overlap or touch", \E a, b \in DOMAIN got : a # b /\ \E c \in Cells(fs) : InInterval(got[a], c) /\ (InInterval(got[b], c) \/ InInterval(got[b], c + 1))>>,
  <<"change slopes are not those of the factors at the interval ends", \E v \in Range(got) :
       IF FixedSlope THEN v.ss # <<>> \/ v.es # <<>>
       ELSE (v.s # <<>> /\ (v.ss = <<>> \/ v.ss[1] \notin StartSlopes(fs, v.s[1]))) \/ (v.e # <<>> /\ (v.es = <<>> \/ v.es[1] \notin EndSlopes(fs, v.e[1])))>>
>>

Verdict == Report(CASE Check = "C09" -> C09 [] Check = "C10" -> C10 [] Check = "C11" -> C11 [] Check = "C12" -> C12)
=============================================================================
