------------------------------ MODULE MCPiecewise ------------------------------
EXTENDS Piecewise, Json
CONSTANTS Size, Coeffs
Fs == {<<a, b, c>> : a \in Coeffs, b \in Coeffs, c \in {0, 1}}
VARIABLE p
Init == p \in {q \in [kind : {"CP", "CW", "one"}, f1 : Fs, f2 : Fs, s : 0..Size, e : 0..Size, lined : BOOLEAN] :
                 /\ q.kind = "CW" => q.s < q.e
                 /\ q.kind # "CW" => q.e = 0
                 /\ q.kind = "one" => q.s = 0 /\ ~ q.lined /\ q.f2 = q.f1}
Spec == Init /\ [][UNCHANGED p]_p
(* Lined-up pieces meet: continuing a piece to the point where the next one starts gives its value there *)
Meets == p.lined => /\ Value(p, p.s) = F(p.f1, p.s)
                    /\ p.kind = "CW" => Value(p, p.e) = Inside(p.f1, p.f2, p.s, TRUE, p.e)
                    /\ p.kind = "CW" => Value(p, p.e + 1) - Value(p, p.e) = F(p.f1, p.e + 1) - F(p.f1, p.e)
Emit == PrintT(ToJson(p))
=============================================================================
