----------------------------- MODULE TraceSearch -----------------------------
(* Judges recorded searches.  A record: the problem, and for each way of     *)
(* running it (whole, continued from a split, verbose, retried after a       *)
(* failure) the five results in terms of model numbers, and the calls of the *)
(* model fitter.  Expressions are numbers of abstract nodes, or real         *)
(* expressions under real production rules.                                  *)
EXTENDS Expand, Search, Trace

R == T[i]
Abstract == R.kind = "abstract"
NodeVal(j) == IF Abstract THEN j ELSE Canon(R.trees[j])
SuccVal(v) == IF Abstract THEN Range(R.succ[v]) ELSE ExpandAll(v, Range(R.rules))

(* the results of one run: x.models[m] = [node, score], m in order of fitting *)
NodeIn(x, m) == NodeVal(x.models[m].node)
Score(x, m) == x.models[m].score
All(x) == DOMAIN x.models
NodesOf(x, ms) == {NodeIn(x, m) : m \in ms}
Rounds(x) == Len(x.tested) - 1
Beam(r) == BeamOf(R.beam, R.isInt, r)
TestedBy(x, r) == UNION {Range(x.tested[s]) : s \in 1..(r + 1)}          \* after round r
(* how many were expanded in each round follows from the beams; so does which part of the list they are *)
RECURSIVE ExpandedBy(_, _)
ExpandedBy(x, r) == IF r = 0 THEN 0 ELSE LET before == ExpandedBy(x, r - 1) IN before + Min2(Beam(r), Cardinality(TestedBy(x, r - 1)) - before)
Chosen(x, r) == {x.expanded[j] : j \in (ExpandedBy(x, r - 1) + 1)..ExpandedBy(x, r)}
Earlier(x, r) == {x.expanded[j] : j \in 1..ExpandedBy(x, r - 1)}
Sizes(x) == Rounds(x) >= 0 /\ Len(x.expanded) = ExpandedBy(x, Rounds(x)) /\ Rounds(x) = R.rounds
SortedBy(x, s) == \A j \in 1..(Len(s) - 1) : Score(x, s[j]) <= Score(x, s[j + 1])
Runs == Range(R.runs)
Failed(x) == x.exc # ""

C13 == <<
  <<"exception while searching", \E x \in Runs : Failed(x)>>,
  <<"the results do not have one list of models per round", \E x \in Runs : ~ Failed(x) /\ Len(x.tested) # R.rounds + 1>>,
  <<"the sorted models are not all the fitted models, once each", \E x \in Runs : ~ Failed(x) /\ ~ (Range(x.sorted) = All(x) /\ NoRepeats(x.sorted))>>,
  <<"the models per round are not all the fitted models, once each", \E x \in Runs : ~ Failed(x) /\
        LET f == FoldLeft(LAMBDA a, s : a \o s, <<>>, x.tested) IN ~ (Range(f) = All(x) /\ NoRepeats(f))>>,
  <<"models are not sorted by score", \E x \in Runs : ~ Failed(x) /\ ~ (SortedBy(x, x.sorted) /\ SortedBy(x, x.notexp) /\ \A s \in Range(x.tested) : SortedBy(x, s))>>,
  <<"expanded and not expanded models are not a partition of the fitted models",
        \E x \in Runs : ~ Failed(x) /\ ~ (NoRepeats(x.expanded) /\ NoRepeats(x.notexp) /\ Range(x.expanded) \cap Range(x.notexp) = {} /\ Range(x.expanded) \cup Range(x.notexp) = All(x))>>,
  <<"the tested expressions are not those of the fitted models, in order of fitting", \E x \in Runs : ~ Failed(x) /\ [j \in DOMAIN x.kexs |-> NodeVal(x.kexs[j])] # [m \in All(x) |-> NodeIn(x, m)]>>,
  <<"a model carries another score than the utility function gives it", \E x \in Runs : ~ Failed(x) /\ \E m \in All(x) : x.models[m].cached # x.models[m].score>>,
  <<"a model is of another expression than it was fitted for", \E x \in Runs : ~ Failed(x) /\ \E m \in All(x) : x.models[m].asked # x.models[m].node>>
>>

C14 == IF R.kind = "badbeam" THEN << <<"an invalid beam is not refused", R.exc = "" \/ R.fits # 0>> >> ELSE <<
  <<"the number of expanded models does not follow from the beams", \E x \in Runs : ~ Failed(x) /\ ~ Sizes(x)>>,
  <<"the models expanded in a round are not the best ones not expanded before",
        \E x \in Runs : ~ Failed(x) /\ Sizes(x) /\ \E r \in 1..Rounds(x) :
           LET open == TestedBy(x, r - 1) \ Earlier(x, r)  C == Chosen(x, r)
           IN  ~ (C \subseteq open /\ \A c \in C, s \in open \ C : Score(x, c) <= Score(x, s))>>
>>

C15 == <<
  <<"exception while searching", \E x \in Runs : Failed(x)>>,
  <<"an expression was fitted more than once", \E x \in Runs : ~ Failed(x) /\ Cardinality(NodesOf(x, All(x))) # Cardinality(All(x))>>,
  <<"the start expressions were not the first to be fitted", \E x \in Runs : ~ Failed(x) /\ NodesOf(x, Range(x.tested[1])) # {NodeVal(j) : j \in Range(R.start)}>>,
  <<"the expressions fitted in a round are not the new ones which the models expanded in it lead to",
        \E x \in Runs : ~ Failed(x) /\ Sizes(x) /\ \E r \in 1..Rounds(x) :
           NodesOf(x, Range(x.tested[r + 1])) # UNION {SuccVal(NodeIn(x, m)) : m \in Chosen(x, r)} \ NodesOf(x, TestedBy(x, r - 1))>>,
  <<"the models were not fitted to the data and with the options given", \E x \in Runs : ~ Failed(x) /\ ~ x.options>>
>>

Same(x, y) == LET n(s, z) == [j \in DOMAIN s |-> z.models[s[j]].node]
              IN  /\ n(x.sorted, x) = n(y.sorted, y) /\ n(x.expanded, x) = n(y.expanded, y) /\ n(x.notexp, x) = n(y.notexp, y)
                  /\ Len(x.tested) = Len(y.tested) /\ \A r \in DOMAIN x.tested : n(x.tested[r], x) = n(y.tested[r], y)
                  /\ x.kexs = y.kexs
Of(how) == SelectSeq(R.runs, LAMBDA x : x.how = how)
TieFree(x) == \A a, b \in All(x) : a # b => Score(x, a) # Score(x, b)
Differs(how) == LET w == Of("whole")  o == Of(how) IN w # <<>> /\ o # <<>> /\ ~ Failed(w[1]) /\ (Failed(o[1]) \/ (TieFree(w[1]) /\ ~ Same(w[1], o[1])))
C16 == <<
  <<"a search fails", \E x \in Runs : Failed(x)>>,
  <<"continuing a search does not give the results of the longer search", Differs("continued")>>,
  <<"continuing round by round does not give the results of the longer search", Differs("stepwise")>>,
  <<"being verbose changes the results", Differs("verbose")>>,
  <<"continuing again after a failure does not give the results of the longer search", Differs("retried")>>,
  <<"a continued search fits models to other data or with other options", \E x \in Runs : ~ Failed(x) /\ x.how # "whole" /\ ~ x.options>>,
  <<"continuing a search changed the results given to it", \E x \in Runs : ~ x.untouched>>,
  <<"a verbose search printed nothing or a quiet one something", \E x \in Runs : ~ Failed(x) /\ x.printed # (x.how = "verbose")>>
>>

(* ---- C25: what a verbose search says.  A list of the best models of a set *)
(* has as many as it has, but one at least if one was to be expanded.        *)
Lists(x, listed, set, atLeastOne) == /\ NoRepeats(listed) /\ Range(listed) \subseteq set /\ SortedBy(x, listed)
                                     /\ \A m \in Range(listed), o \in set \ Range(listed) : Score(x, m) <= Score(x, o)
                                     /\ atLeastOne /\ set # {} => listed # <<>>
Verbose == Of("verbose")
Told == {x \in Range(Verbose) : ~ Failed(x) /\ Sizes(x)}
L(x) == x.log[1]
Beaming(r) == Beam(IF r = 0 THEN 1 ELSE r) > 0
C25 == <<
  <<"exception while searching", \E x \in Range(Verbose) : Failed(x)>>,
  <<"the log does not tell of every round once, in order", \E x \in Told : [j \in DOMAIN L(x).rounds |-> L(x).rounds[j].r] # [j \in 1..(Rounds(x) + 1) |-> j - 1]>>,
  <<"the log tells of other data or options than those used", \E x \in Told : ~ L(x).settings>>,
  <<"the log tells of other start expressions than those fitted", \E x \in Told : ~ (NoRepeats(L(x).start) /\ Range(L(x).start) = Range(x.tested[1]))>>,
  <<"the log tells another number of new models than were fitted", \E x \in Told : \E l \in Range(L(x).rounds) : l.r <= Rounds(x) /\ l.new # Len(x.tested[l.r + 1])>>,
  <<"the new models listed are not the best new ones", \E x \in Told : \E l \in Range(L(x).rounds) : l.r <= Rounds(x) /\ ~ Lists(x, l.best, Range(x.tested[l.r + 1]), Rounds(x) > 0 /\ Beaming(1))>>,
  <<"the models listed as best so far are not the best so far", \E x \in Told : \E l \in Range(L(x).rounds) : l.r <= Rounds(x) /\ ~ Lists(x, l.sofar, TestedBy(x, l.r), Rounds(x) > 0 /\ Beaming(1))>>,
  <<"the models listed as best not expanded are not these", \E x \in Told : \E l \in Range(L(x).rounds) : l.r <= Rounds(x) /\
        ~ Lists(x, l.open, TestedBy(x, l.r) \ {x.expanded[j] : j \in 1..ExpandedBy(x, l.r)}, Rounds(x) > 0 /\ Beaming(l.r))>>,
  <<"the models listed as best overall are not these", \E x \in Told : ~ Lists(x, L(x).overall, All(x), Rounds(x) = 0 \/ Beaming(1))>>
>>

Verdict == Report(CASE Check = "C13" -> IF R.kind = "badbeam" THEN <<>> ELSE C13 [] Check = "C14" -> C14 [] Check = "C15" -> IF R.kind = "badbeam" THEN <<>> ELSE C15 [] Check = "C16" -> IF R.kind = "badbeam" THEN <<>> ELSE C16 [] Check = "C25" -> C25)
=============================================================================
