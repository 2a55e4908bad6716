-------------------------------- MODULE MCb ---------------------------------
(* The calendar, a day at a time.                                              *)
EXTENDS Core, Json, TLC
CONSTANTS LastYear
VARIABLES y, m, d, n
Leap == (y % 4 = 0 /\ y % 100 # 0) \/ y % 400 = 0
Length == CASE m \in {4, 6, 9, 11} -> 30 [] m = 2 -> (IF Leap THEN 29 ELSE 28) [] OTHER -> 31
Init == y = 1970 /\ m = 1 /\ d = 1 /\ n = 0
Next == /\ y <= LastYear
        /\ n' = n + 1
        /\ IF d < Length THEN d' = d + 1 /\ UNCHANGED <<y, m>>
           ELSE d' = 1 /\ (IF m < 12 THEN m' = m + 1 /\ y' = y ELSE m' = 1 /\ y' = y + 1)
Spec == Init /\ [][Next]_<<y, m, d, n>>
Counts == Days(y, m, d) = n
Emit == d \in {1, 28, 29, 31} => PrintT("CASE " \o ToJson([date |-> <<y, m, d>>]))
=============================================================================
