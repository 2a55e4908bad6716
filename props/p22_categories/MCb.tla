--------------------------------- MODULE MCb ---------------------------------
(* A series of categories grows hour by hour.                                      *)
EXTENDS Core, Json, TLC
CONSTANTS N
VARIABLES s
Codes == {0, 1, 5, 6, 9}
Nights == <<<<1, 0>>>>
Groups == <<<<5, 6>>>>
Init == s = <<>>
Next == Len(s) < N /\ \E c \in Codes : s' = Append(s, c)
Spec == Init /\ [][Next]_s
P == Period(s, Nights, Groups)
Rev == Tup([i \in 1..Len(s) |-> s[Len(s) + 1 - i]])
Day == Len(s) > 0 => P # 0 /\ P \in {DayOf(s[i], Nights) : i \in 1..Len(s)}
Order == Len(s) > 0 => P = Period(Rev, Nights, Groups)
Major == Len(s) > 0 => \A c \in {1, 5, 6, 9} : 2 * Cardinality({i \in 1..Len(s) : DayOf(s[i], Nights) = c}) > Len(s) => P = c
Emit == Len(s) = N => PrintT("CASE " \o ToJson([s |-> s]))
===============================================================================
