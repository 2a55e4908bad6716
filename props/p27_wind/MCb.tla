---------------------------------- MODULE MCb ----------------------------------
(* Components and updraughts over their ranges.                                    *)
EXTENDS Core, Json, TLC
CONSTANTS Speeds, Capes, Rains
VARIABLES x
Init == x \in [v : Speeds, d : 0..15, n : {0, 1, 3, 15}, from : BOOLEAN, c : Capes, p : Rains]
Next == UNCHANGED x
Spec == Init /\ [][Next]_x
E(d, f) == East(x.v, d, x.n, f)
N(d, f) == North(x.v, d, x.n, f)
SameSpeed == Abs(((E(x.d, x.from) * E(x.d, x.from)) \div 100) + ((N(x.d, x.from) * N(x.d, x.from)) \div 100) - (100 * x.v * x.v)) <= 60 + ((x.v * x.v) \div 10) + 2 * x.v
FromIsOppositeTo == E(x.d, TRUE) = -E(x.d, FALSE) /\ N(x.d, TRUE) = -N(x.d, FALSE)
Westerly == x.n = 0 => East(x.v, 12, 0, TRUE) = 100 * x.v /\ North(x.v, 12, 0, TRUE) = 0
MoreLift == /\ \A c \in Capes : c >= x.c => Updraught(c, x.p) >= Updraught(x.c, x.p)
            /\ \A p \in Rains : p >= x.p => Updraught(x.c, p) >= Updraught(x.c, x.p)
Thresholds == Updraught(9, 49) = 0 /\ Updraught(10, 0) = 1118 /\ Abs(Updraught(0, 287) - 7330) <= 10 /\ Updraught(0, 50) > 4000
Square1 == Square(5, 3, 3, 1) = 1..9 /\ Square(1, 3, 3, 1) = {1, 2, 4, 5} /\ Square(1, 3, 3, 0) = {1}
Emit == PrintT("CASE " \o ToJson([pt |-> x]))
===============================================================================
