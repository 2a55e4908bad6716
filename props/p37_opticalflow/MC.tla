---------------------------------- MODULE MC ----------------------------------
(* A plane of rain, seen at a growing number of points, moves by (u, v).                  *)
EXTENDS Core, Json, TLC
CONSTANTS Grads, Moves, N
VARIABLES x, y, u, v
SomeGrads == {-2, 0, 1, 3}
SomeMoves == {-2, 0, 1}
MoreGrads == {-3, -1, 0, 1, 2}
MoreMoves == {-3, -1, 0, 2}
Init == x = <<>> /\ y = <<>> /\ u \in Moves /\ v \in Moves
Next == Len(x) < N /\ \E a, b \in Grads : x' = Append(x, a) /\ y' = Append(y, b) /\ UNCHANGED <<u, v>>
Spec == Init /\ [][Next]_<<x, y, u, v>>
T == [k \in 1..Len(x) |-> -(u * x[k] + v * y[k])]
Found == Det(x, y) # 0 => Solved(x, y, T) = <<1000 * u, 1000 * v>>
Swapped == LET a == Solved(x, y, T) b == Solved(y, x, T) IN a[1] = b[2] /\ a[2] = b[1]
Reversed == LET a == Solved(x, y, T) b == Solved(x, y, [k \in 1..Len(T) |-> -T[k]]) IN a = <<-b[1], -b[2]>>
NoGradient == (\A k \in 1..Len(x) : x[k] = 0) => Solved(x, y, T) = <<0, 0>>
Nonnegative == Det(x, y) >= 0
F == IF Len(x) = 0 THEN <<<<1>>>> ELSE <<x, y>>
InRange(g) == \A i \in 1..Len(F) : \A j \in 1..Len(F[1]) : g[i][j] >= SetMin(UNION {Range1(F[k]) : k \in 1..Len(F)}) /\ g[i][j] <= SetMax(UNION {Range1(F[k]) : k \in 1..Len(F)})
Smooth(r) == [i \in 1..Len(F) |-> [j \in 1..Len(F[1]) |-> BoxMean(F, i, j, r)]]
Tented(r) == [i \in 1..Len(F) |-> [j \in 1..Len(F[1]) |-> Tent(F, i, j, r)]]
SmoothsWithin == InRange(Smooth(1)) /\ InRange(Tented(1)) /\ InRange(Tented(2))
TentOfOne == Tented(1) = F
Emit == Len(x) = N => PrintT("CASE " \o ToJson([x |-> x, y |-> y, u |-> u, v |-> v]))
===============================================================================
