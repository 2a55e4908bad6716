---------------------------------- MODULE MC ----------------------------------
(* Pairs of forecast and truth arrive day by day; the bias learnt so far is applied.     *)
EXTENDS Core, Json, TLC
CONSTANTS Vals, Most
VARIABLES f, t
SomeVals == {0, 250, 900, 2000000002}
MoreVals == {0, 250, 260, 900, 2000000002}
Init == f = <<>> /\ t = <<>>
Next == Len(f) < Most /\ \E a, b \in Vals : f' = Append(f, a) /\ t' = Append(t, b)
Spec == Init /\ [][Next]_<<f, t>>
B == Bias(f, t)
Valid == {k \in 1..Len(f) : IsNum(f[k]) /\ IsNum(t[k])}
NothingLearnt == (B = Masked) = (Valid = {})
RemovesMeanError == Valid # {} =>
   Abs(SumOver([k \in 1..Len(f) |-> IF k \in Valid THEN Corrected(f[k], B, FALSE, NaN, NaN) - 10 * t[k] ELSE 0], Valid)) <= Cardinality(Valid)
OrderOfDays == LET n == Len(f) IN Bias([k \in 1..n |-> f[n + 1 - k]], [k \in 1..n |-> t[n + 1 - k]]) = B
BiasWithin == Valid # {} => \A lo, hi \in {-900, -250, 0, 250, 900} : (\A k \in Valid : f[k] - t[k] >= lo /\ f[k] - t[k] <= hi) => B >= 10 * lo /\ B <= 10 * hi
InBounds == \A v \in {0, 250, 900} : LET c == Corrected(v, B, TRUE, 100, 800) IN IsNum(c) /\ c >= 1000 /\ c <= 8000
PerfectLeftAlone == f = t /\ Valid # {} => B = 0
Swapped == Valid # {} => Near(Bias(t, f), -B, 1)
Emit == Len(f) = Most => PrintT("CASE " \o ToJson([f |-> f, t |-> t]))
===============================================================================
