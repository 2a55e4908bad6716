--------------------------------- MODULE MC ----------------------------------
(* A small field is laid down and moved by one displacement.                      *)
EXTENDS Core, Json, TLC
CONSTANTS NX, NY, Vals, Moves
VARIABLES d, m
SomeVals == {0, 1, 5, Masked}
SomeMoves == {-256, -64, 0, 128, 256}
MoreMoves == {-512, -256, -192, -64, 0, 64, 128, 256, 320}
Init == d = <<>> /\ m \in Moves \X Moves
Next == Len(d) < NX * NY /\ \E v \in Vals : d' = Append(d, v) /\ m' = m
Spec == Init /\ [][Next]_<<d, m>>
Full == Len(d) = NX * NY
Cells == 1..(NX * NY)
A(i) == Adv(d, i, NX, NY, m[1], m[2])
Still == Full /\ m = <<0, 0>> => \A i \in Cells : A(i) = IF IsNum(d[i]) THEN 65536 * d[i] ELSE Masked
Between == Full => \A i \in Cells : IsNum(A(i)) =>
  LET C == Corners(SrcX(i, NX, m[1]), SrcY(i, NX, m[2]), NX, NY)
      v == {d[At(c[1], c[2], NX)] : c \in C}
  IN C # {} /\ A(i) >= 65536 * SetMin(v) /\ A(i) <= 65536 * SetMax(v)
WholeCells == (Full /\ m[1] % U = 0 /\ m[2] % U = 0) => \A i \in Cells :
  LET x == Col(i, NX) - (m[1] \div U)
      y == Row(i, NX) - (m[2] \div U)
  IN A(i) = IF x \in 0..(NX - 1) /\ y \in 0..(NY - 1) /\ IsNum(d[At(x, y, NX)]) THEN 65536 * d[At(x, y, NX)] ELSE Masked
WeightsWhole == Full => \A i \in Cells : LET x == SrcX(i, NX, m[1])
                                             y == SrcY(i, NX, m[2])
                                             C == Corners(x, y, NX, NY)
                                         IN Inside(x, y, NX, NY) => SumOver([c \in C |-> Wgt(c, x, y)], C) = 65536
HiddenIsMissing == Full => \A i \in Cells : (IsNum(A(i)) => Inside(SrcX(i, NX, m[1]), SrcY(i, NX, m[2]), NX, NY))
ThereAndBack == \A i \in 1..Len(d) : \A oe \in 0..3 : IsNum(d[i]) =>
  LET p == Subtract(d[i], oe) IN (p >= 1 <=> d[i] >= 1) /\ (d[i] - oe >= 1 => AddOe(65536 * p, oe) = 65536 * d[i]) /\ AddOe(65536 * p, oe) >= 65536 * d[i]
Emit == Full => PrintT("CASE " \o ToJson([d |-> d, m |-> m, nx |-> NX]))
===============================================================================
