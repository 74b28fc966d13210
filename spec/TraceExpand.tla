----------------------------- MODULE TraceExpand -----------------------------
(* Judges recorded expansions, expression operations and object graphs.      *)
EXTENDS Expand, Trace

R == T[i]
Set(s) == {Canon(s[j]) : j \in DOMAIN s}
Expected == CASE R.kind = "expand" -> Expand(Canon(R.t), R.rule)
              [] R.kind = "group" -> ExpandAll(Canon(R.t), Range(R.names))
              [] OTHER -> {}

(* ---- What the operations on expressions produce *)
OpResult ==
  LET a == [j \in DOMAIN R.args |-> Canon(R.args[j])]
      x == a[1]  y == a[Len(a)]
      nest(F(_, _), G(_, _)) == IF y.k = "B" /\ x.k # "B" THEN G(x, y.n) ELSE IF x.k = "B" /\ y.k # "B" THEN G(y, x.n) ELSE {F(x, y)}
  IN CASE R.sem = "construct" -> {IF R.extra \in Changes THEN Chg(R.extra, x, y) ELSE Both(R.extra, x, y)}
       [] R.sem = "twice" -> {IF R.extra \in Changes THEN Chg(R.extra, x, x) ELSE Node(R.extra, ZeroB, x :> 2)}
       [] R.sem = "add" -> nest(AddOp, AddBase)
       [] R.sem = "add1" -> {AddOp(x, y)}
       [] R.sem = "multiply" -> nest(MulOp, MulBase)
       [] R.sem = "multiply1" -> {MulOp(x, y)}
       [] R.sem = "one_change" -> ChangesOf({R.extra}, x, y)
       [] R.sem = "both_changes" -> ChangesOf(Changes, x, y)
       [] R.sem = "both_changes_alone" -> ChangesOf(Changes, x, x)
       [] R.sem = "swap_base" -> Swap(x, R.extra)
       [] R.sem = "replace_node" -> {SumB(R.extra)}
       [] R.sem = "remove_a_term" -> RemoveTerm(x)
       [] R.sem = "higher_curves" -> Higher(x)
COp == IF R.kind = "start" THEN << <<"a start expression could not be built", TRUE>> >>
       ELSE IF R.sem = "" THEN <<>> ELSE <<
  <<"exception in an operation", R.exc # "">>,
  <<"an operation did not produce exactly its documented results", R.exc = "" /\ {NFX(t) : t \in Set(R.res)} # {NFX(t) : t \in OpResult}>>
>>

(* ---- C06: exactly the single-rule edits *)
C06 == IF R.kind = "starts" THEN <<>> ELSE IF R.kind = "start" THEN << <<"a start expression could not be built", TRUE>> >> ELSE <<
  <<"exception while expanding", R.exc # "">>,
  <<"expansion misses an edit of the production rule", R.exc = "" /\ Expected \ Set(R.res) # {}>>,
  <<"expansion contains something which is not an edit of the production rule", R.exc = "" /\ Set(R.res) \ Expected # {}>>,
  <<"a default group of rules does not consist of its documented rules", R.kind = "group" /\
       Range(R.names) # (CASE R.group = "All" -> RuleNames
                          [] R.group = "Original_ABCD" -> {"plus_base", "times_base", "replace_base", "change_same", "change_window_constant", "times_shifted_base", "replace_with_singleton", "remove_some_term"}
                          [] R.group = "Minimal" -> {"plus_base", "times_base", "replace_base", "change_same"}
                          [] R.group = "Default" -> {"plus_base", "times_base", "replace_base", "change_point_linear", "change_window_linear", "times_shifted_base", "replace_with_singleton", "remove_some_term"}
                          [] OTHER -> Range(R.names))>>
>>

(* ---- C07: whatever is reached is normal, non-empty, distinct and of the configured bases *)
Starts07 == <<
  <<"a default group of start kernels does not consist of its documented expressions", Set(R.res) # StartGroup(R.group)>>,
  <<"a default group of start kernels has duplicates", Cardinality(Set(R.res)) # Len(R.res)>>,
  <<"a start kernel is not a well-formed whole expression", ~ R.formed>>
>>
C07 == IF R.kind = "start" THEN << <<"a start expression could not be built", TRUE>> >> ELSE IF R.kind = "starts" THEN Starts07 ELSE
  LET seen == Set(R.res)  was == BasesIn(Canon(R.t)) IN <<
  <<"exception while expanding", R.exc # "">>,
  <<"an expanded expression is not in normal form", \E t \in seen : ~ (NonEmpty(t) /\ NormalBelow(t))>>,
  <<"an expanded expression is not in the standard form of a whole expression", \E t \in seen : ~ StandardRoot(t)>>,
  <<"an expansion produced duplicates", Cardinality(seen) # Len(R.res)>>,
  <<"an expansion introduced a base kernel which is not configured", \E t \in seen : ~ (BasesIn(t) \subseteq GrammarBases \cup was)>>
>>

(* ---- Object graphs: node lists, the top of the tree first *)
Ids(ns) == {n.id : n \in Range(ns)}
Boxes(ns) == UNION {Range(n.boxes) : n \in Range(ns)}
Everything(ns) == Ids(ns) \cup Boxes(ns)
Parented(ns) ==
  /\ ns[1].parent = 0
  /\ \A n \in Range(ns) : \A kid \in Range(n.kids) : \E m \in Range(ns) : m.id = kid /\ m.parent = n.id
Rooted(ns) == \A n \in Range(ns) : n.root = ns[1].id
Tree(ns) == Len(ns) = 1 + FoldLeft(LAMBDA a, n : a + Len(n.kids), 0, ns)
OwnBoxes(ns) == FoldLeft(LAMBDA a, n : a + Len(n.boxes), 0, ns) = Cardinality(Boxes(ns))

(* ---- C04: links of results *)
C04 == <<
  <<"exception in an operation", R.exc # "">>,
  <<"an expression contains the same node twice", \E ns \in Range(R.results) : ns # <<>> /\ ~ Tree(ns)>>,
  <<"a node's parent is not the node containing it", R.parented /\ \E ns \in Range(R.results) : ns # <<>> /\ ~ Parented(ns)>>,
  <<"a node's root is not the whole expression it is in", R.rooted /\ \E ns \in Range(R.results) : ns # <<>> /\ ~ Rooted(ns)>>
>>

(* ---- C05: arguments are left alone; results share nothing mutable *)
Content(ns) == [j \in DOMAIN ns |-> [ns[j] EXCEPT !.boxes = <<>>]]
C05 == <<
  <<"exception in an operation", R.exc # "">>,
  <<"an operation modified its argument", [j \in DOMAIN R.before |-> Content(R.before[j])] # [j \in DOMAIN R.after |-> Content(R.after[j])]>>,
  <<"a result shares mutable structure with an argument",
       R.fresh /\ \E ns \in Range(R.results) : \E as \in Range(R.before) \cup Range(R.after) : Everything(ns) \cap Everything(as) # {}>>,
  <<"two results share mutable structure",
       R.fresh /\ \E j, k \in DOMAIN R.results : j < k /\ Everything(R.results[j]) \cap Everything(R.results[k]) # {}>>,
  <<"nodes of a result share mutable structure", R.fresh /\ \E ns \in Range(R.results) : ~ OwnBoxes(ns)>>
>>

Verdict == Report(CASE R.kind = "start" -> << <<"a start expression could not be built", TRUE>> >> [] Check = "Op" -> COp [] Check = "C04" -> C04 [] Check = "C05" -> C05 [] Check = "C06" -> C06 [] Check = "C07" -> C07)
=============================================================================
