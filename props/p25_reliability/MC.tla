--------------------------------- MODULE MC ----------------------------------
(* A table is filled bin by bin, then manipulated and used.                        *)
EXTENDS Core, Json, TLC
CONSTANTS N, Counts, Mins
VARIABLES q, min
Init == q = <<>> /\ min \in Mins
(* forecasts of bin i of N lie between (i-1)/N and i/N: taken at the middle           *)
Bin(i, o, n) == <<o, n * ((64 * (2 * i - 1)) \div (2 * N)), n, i, i>>
Next == Len(q) < N /\ \E n \in Counts : \E o \in {0, n \div 3, n} : q' = Append(q, Bin(Len(q) + 1, o, n)) /\ min' = min
Spec == Init /\ [][Next]_<<q, min>>
Full == Len(q) = N
M == Manip(q, min)
Total(s, k) == SumSeq([i \in 1..Len(s) |-> s[i][k]])
Conserved == Full => \A k \in 1..3 : Total(Combine(q, min), k) = Total(q, k)
Enough == Full => LET c == Combine(q, min) IN Len(c) = 1 \/ Under(c, min) = {}
NeverFalls == Full => \A i \in 1..(Len(M[2]) - 1) : ~Less(M[2][i + 1], M[2][i])
AllBinsKept == Full => M[1][1][4] = 1 /\ M[1][Len(M[1])][5] = N /\ \A i \in 1..(Len(M[1]) - 1) : M[1][i][5] + 1 = M[1][i + 1][4]
OnlyIfNeeded == (Full /\ Under(q, min) = {} /\ Rising(q)) => M[1] = q
Frequency == Full => \A i \in 1..Len(M[2]) : M[2][i][2] = 0 \/ M[2][i][1] \in 0..M[2][i][2]
Cals == [x \in 0..8 |-> Calib(8 * x, M[1])]
Positive == \A i \in 1..Len(M[1]) : M[1][i][3] > 0
InRange == (Full /\ Positive) => \A x \in 0..8 : Cals[x] \in 0..Scale
Increasing == (Full /\ Positive /\ Rising(M[1])) => \A x \in 0..7 : Cals[x] <= Cals[x + 1] + 4
Emit == Full => PrintT("CASE " \o ToJson([tab |-> q, min |-> min]))
===============================================================================
