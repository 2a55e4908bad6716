--------------------------------- MODULE MCb ---------------------------------
(* Members join the rain, sleet and temperature ensembles, each with or without them. *)
EXTENDS Core, Json, TLC
CONSTANTS N, Vs
VARIABLES ri, si, ti, r, s, t, n
Vs4 == {0, 5, 8, 16}
Vs3 == {0, 5, 16}
vars == <<ri, si, ti, r, s, t, n>>
Init == ri = <<>> /\ si = <<>> /\ ti = <<>> /\ r = <<>> /\ s = <<>> /\ t = <<>> /\ n = 0
Add(c, q, v) == IF c THEN Append(q, v) ELSE q
Next == n < N /\ n' = n + 1
        /\ \E a \in BOOLEAN : \E b \in BOOLEAN : \E c \in BOOLEAN : \E x \in Vs : \E y \in {v \in Vs : v + x <= 16} : \E z \in Vs :
             /\ (a \/ x = 0) /\ (b \/ y = 0) /\ (c \/ z = 0)
             /\ ri' = Add(a, ri, n) /\ si' = Add(b, si, n) /\ ti' = Add(c, ti, n)
             /\ r' = Add(a, r, x) /\ s' = Add(b, s, y) /\ t' = Add(c, t, z)
Spec == Init /\ [][Next]_vars
C == Common(ri, si, ti)
F == Freezing(ri, si, ti, r, s, t)
Rev(q) == Tup([i \in 1..Len(q) |-> q[Len(q) + 1 - i]])
Mean(q, qi) == LET c == SetToSeq0(C) IN SumTo(Tup([k \in 1..Len(c) |-> q[IndexOf(qi, c[k])]]), Len(c))
IsProb == C # {} => F >= 0 /\ F <= One
ColdOnly == C # {} => Cardinality(C) * (F - 1) <= RoundDiv(One * Mean(t, ti), 16)
WetOnly == C # {} => Cardinality(C) * (F - 1) <= RoundDiv(One * (Mean(r, ri) + Mean(s, si)), 16)
AnyOrder == C # {} => Abs(F - Freezing(Rev(ri), si, ti, Rev(r), s, t)) <= 0
Alike == C # {} => F = Freezing(si, ri, ti, s, r, t)
Emit == n = N => PrintT("CASE " \o ToJson([ri |-> ri, si |-> si, ti |-> ti, fr |-> r, fs |-> s, ft |-> t]))
===============================================================================
