------------------------------- MODULE GenWide -------------------------------
(* Expressions with many terms side by side: a sum or product, all of whose  *)
(* term sequences up to a length are built one by one from small             *)
(* representatives of every kind of term; alone or as a part of another.     *)
EXTENDS Bag, Json

CONSTANTS MaxTerms, Leaves, Inside   \* Leaves: base kernels used; Inside: also put into other expressions

VARIABLES t, out

B(n) == [k |-> "B", n |-> n]
N(kind, b, c) == [k |-> kind, b |-> b, c |-> c]
Ch(kind, l, r) == [k |-> kind, l |-> l, r |-> r]
(* terms of a sum or product: never of its own kind *)
Terms(kind) == LET other == IF kind = "S" THEN "P" ELSE "S" IN
   {N(other, <<"LIN", "PER">>, <<>>), N(other, <<"PER", "PER">>, <<>>), Ch("CP", B("LIN"), B("PER")), Ch("CW", B("PER"), B("LIN"))}

Init == \E kind \in {"S", "P"} : t = N(kind, <<>>, <<>>) /\ out = <<>>
Size == Len(t.b) + Len(t.c)
AddLeaf == Size < MaxTerms /\ t.c = <<>> /\ \E n \in Leaves : t' = [t EXCEPT !.b = Append(@, n)] /\ UNCHANGED out
AddTerm == Size < MaxTerms /\ \E x \in Terms(t.k) : t' = [t EXCEPT !.c = Append(@, x)] /\ UNCHANGED out
Ordered == \A j \in 1..(Len(t.b) - 1) : t.b[j] = t.b[j + 1] \/ t.b[j] = "LIN"   \* base terms are a multiset already
Done == out = <<>> /\ Size > 1 /\ Len(t.c) > 0 /\ UNCHANGED t /\
        (\/ out' = <<t>>
         \/ Inside /\ Size < MaxTerms /\ \E kind \in {"CP", "CW"} : \E leaf \in {B("LIN"), N("P", <<"LIN", "PER">>, <<>>), N("S", <<"LIN", "PER">>, <<>>)} : out' \in {<<Ch(kind, t, leaf)>>, <<Ch(kind, leaf, t)>>}
         \/ Inside /\ Size < MaxTerms /\ out' = <<N(IF t.k = "S" THEN "P" ELSE "S", <<"PER">>, <<t>>)>>)
Next == out = <<>> /\ (AddLeaf \/ AddTerm \/ Done)
Spec == Init /\ [][Next]_<<t, out>>
Emit == out = <<>> \/ ~ Ordered \/ PrintT(ToJson(out[1]))
=============================================================================
