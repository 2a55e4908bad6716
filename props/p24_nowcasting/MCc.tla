--------------------------------- MODULE MCc ---------------------------------
(* A radar picture with holes, cell by cell; a smaller window stands for the       *)
(* nine by nine one.                                                               *)
EXTENDS Core, Json, TLC
CONSTANTS NX, NY, R, RI
VARIABLES d
Vals == {1000, 3000, Dry, Masked}
Init == d = <<>>
Next == Len(d) < NX * NY /\ \E v \in Vals : d' = Append(d, v)
Spec == Init /\ [][Next]_d
Full == Len(d) = NX * NY
Cells == 1..(NX * NY)
Sp(i) == Speckle(d, i, NX, NY, R)
EdgeNeverFilled == Full => \A i \in Cells : (Row(i, NX) = 0 \/ Col(i, NX) = 0) => ~Sp(i)
HasSource == Full => \A i \in Cells : Sp(i) => Around(d, i, NX, NY, R) # {}
WithinRange == Full => \A i \in Cells : Sp(i) => \E g \in {Dry} \cup 1000..3000 : Fills(d, i, NX, NY, R, g, 0)
OnlyWet == Full => \A i \in Cells : (Sp(i) /\ \A j \in Around(d, i, NX, NY, R) : d[j] = 3000) => (Fills(d, i, NX, NY, R, 3000, 0) /\ ~Fills(d, i, NX, NY, R, Dry, 0))
Coverage == \A c \in 0..3 : Extended(5, c) = (IF c \in {1, 2} THEN 5 ELSE Masked)
Emit == Full => PrintT("CASE " \o ToJson([hole |-> d, nx |-> NX]))
===============================================================================
