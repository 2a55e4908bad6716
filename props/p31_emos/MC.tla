---------------------------------- MODULE MC ----------------------------------
(* An ensemble gathers its members one at a time; every ensemble is given each set of *)
(* coefficients and must make a distribution that forecasts can be read from.          *)
EXTENDS Core, Json, TLC
CONSTANTS Vals, Most, Coefs
VARIABLES x
SomeVals == {100, 450, 460, 1300}
MoreVals == {0, 100, 450, 460, 900, 1700}
Sets == << [a |-> 0, b |-> 100, g |-> 0, d |-> 10], [a |-> 500, b |-> 90, g |-> 30, d |-> 12], [a |-> -1500, b |-> 130, g |-> 150, d |-> 4], [a |-> 2000, b |-> 0, g |-> 200, d |-> 0] >>
Init == \E v, w \in Vals : x = <<v, w>>
Next == Len(x) < Most /\ \E v \in Vals : x' = Append(x, v)
Spec == Init /\ [][Next]_x
L(c) == FromMean(x, <<>>, c.a, <<c.b>>)
S(c) == Scale(x, c.g, c.d)
Levels == {50000, 250000, 500000, 800000, 975000}
Chosen == {Sets[k] : k \in Coefs}
SpreadFromErrors == \A c \in Chosen : S(c) + 1 >= 10 * c.g /\ (c.d = 0 => Near(S(c), 10 * c.g, 1))
NoChangeByDefault == L(Sets[1]) = RoundDiv(Total(x) * 100, 10 * Len(x)) /\ Near(S(Sets[1]) * S(Sets[1]), 100 * Variance(x), 2 * S(Sets[1]) + 2)
OrderOfMembers == \A c \in Chosen : LET y == [k \in 1..Len(x) |-> x[Len(x) + 1 - k]] IN FromMean(y, <<>>, c.a, <<c.b>>) = L(c) /\ Scale(y, c.g, c.d) = S(c)
ShiftOfMembers == \A c \in Chosen : LET y == [k \in 1..Len(x) |-> x[k] + 700] IN Near(FromMean(y, <<>>, c.a, <<c.b>>), L(c) + 70 * c.b, 1) /\ Scale(y, c.g, c.d) = S(c)
Alike(m) == FromMembers([k \in 1..m |-> 850], 0, [k \in 1..m |-> ISqrt(10000 \div m)])
EvenShares == \A m \in 2..4 : Near(Alike(m), 8500, 300)
Rising == \A c \in Chosen, p, q \in Levels, cut \in BOOLEAN : p <= q => Quantile(p, L(c), S(c), cut) <= Quantile(q, L(c), S(c), cut)
NeverBelowCut == \A c \in Chosen, p \in Levels : S(c) > 0 /\ L(c) > -S(c) => Quantile(p, L(c), S(c), TRUE) >= -1 - S(c) \div 1000
ThereAndBack == \A c \in Chosen, p \in Levels, cut \in BOOLEAN : S(c) > 100 /\ L(c) > -S(c) =>
   Near(Below(Quantile(p, L(c), S(c), cut), L(c), S(c), cut), p, 2000 + 400000 \div S(c))
CutLeavesHigh == \A c \in Chosen : S(c) > 0 /\ L(c) > 5 * S(c) => \A p \in Levels : Near(Quantile(p, L(c), S(c), TRUE), Quantile(p, L(c), S(c), FALSE), 1)
Middle == \A c \in Chosen : Near(Quantile(500000, L(c), S(c), FALSE), L(c), 1 + S(c) \div 5000)
ScorePositive == \A c \in Chosen, t \in Vals : Score(10 * t, L(c), S(c)) >= -2 /\ (S(c) > 50 /\ L(c) >= 0 => CutScore(10 * t, L(c), S(c)) >= -2 - S(c) \div 500)
ScoreLeastAtTruth == \A c \in Chosen, t \in Vals : Score(L(c), L(c), S(c)) <= Score(10 * t, L(c), S(c)) + 1
ScoreAlike == \A c \in Chosen, t \in Vals : S(c) > 0 /\ L(c) > 5 * S(c) => Near(Score(10 * t, L(c), S(c)), CutScore(10 * t, L(c), S(c)), 4 + S(c) \div 300 + (IF Abs(10 * t - L(c)) > 5 * S(c) THEN Abs(10 * t - L(c)) ELSE 0))
Emit == Len(x) = Most => PrintT("CASE " \o ToJson([members |-> x]))
===============================================================================
