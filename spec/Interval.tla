------------------------------ MODULE Interval ------------------------------
(* Where a product of sigmoidal factors is active: the intersection of the   *)
(* half-lines, windows and window complements of its factors.  Positions are *)
(* integers (half units); the cell c is the open interval (c, c + 1).        *)
EXTENDS Bag

(* f: [n |-> "S" | "Sr" | "SI" | "SIr", p |-> [location, (width), (slope)]] *)
InWindow(p, c) == p.location <= c /\ c < p.location + p.width
Covers(f, c) == CASE f.n = "S" -> c >= f.p.location
                  [] f.n = "Sr" -> c < f.p.location
                  [] f.n = "SI" -> InWindow(f.p, c)
                  [] f.n = "SIr" -> ~ InWindow(f.p, c)
Active(fs, c) == \A f \in fs : Covers(f, c)

EdgesOf(f) == IF f.n \in {"S", "Sr"} THEN {f.p.location} ELSE {f.p.location, f.p.location + f.p.width}
Edges(fs) == UNION {EdgesOf(f) : f \in fs}
Cells(fs) == (Min(Edges(fs)) - 1)..Max(Edges(fs))    \* represent everything: activity only changes at edges
Starts(fs) == {e \in Edges(fs) : ~ Active(fs, e - 1) /\ Active(fs, e)}
Ends(fs) == {e \in Edges(fs) : Active(fs, e - 1) /\ ~ Active(fs, e)}

(* The maximal active intervals: s and e are <<position>>, or <<>> if unbounded *)
Intervals(fs) ==
  LET after(s) == {e \in Ends(fs) : e > s}
  IN  {[s |-> <<s>>, e |-> IF after(s) = {} THEN <<>> ELSE <<Min(after(s))>>] : s \in Starts(fs)}
      \cup {[s |-> <<>>, e |-> <<e>>] : e \in {x \in Ends(fs) : \A s \in Starts(fs) : s > x}}

InInterval(v, c) == (v.s = <<>> \/ v.s[1] <= c) /\ (v.e = <<>> \/ c < v.e[1])

(* The slopes an edge may be said to have: those of the factors which have it *)
RisesAt(f, e) == ~ Covers(f, e - 1) /\ Covers(f, e)
FallsAt(f, e) == Covers(f, e - 1) /\ ~ Covers(f, e)
StartSlopes(fs, e) == {f.p.slope : f \in {x \in fs : RisesAt(x, e)}}
EndSlopes(fs, e) == {f.p.slope : f \in {x \in fs : FallsAt(x, e)}}
=============================================================================
