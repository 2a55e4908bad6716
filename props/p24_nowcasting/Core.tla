-------------------------------- MODULE Core --------------------------------
(* Extrapolation of radar fields, what falls over a period, and the radar's own   *)
(* missing data. Fields are given row by row over nx columns.                     *)
EXTENDS Fixed
U == 256
Row(i, nx) == (i - 1) \div nx
Col(i, nx) == (i - 1) % nx
At(x, y, nx) == y * nx + x + 1
(* --- where the field at a cell came from: displacements (dx, dy) of every cell,  *)
(* in 256ths of a cell                                                             *)
SrcX(i, nx, dx) == U * Col(i, nx) - dx
SrcY(i, nx, dy) == U * Row(i, nx) - dy
Inside(x, y, nx, ny) == x >= 0 /\ x <= U * (nx - 1) /\ y >= 0 /\ y <= U * (ny - 1)
Corners(x, y, nx, ny) == {c \in (0..(nx - 1)) \X (0..(ny - 1)) : Abs(U * c[1] - x) < U /\ Abs(U * c[2] - y) < U}
Touched(x, y, nx, ny) == {c \in (0..(nx - 1)) \X (0..(ny - 1)) : c[1] \in {x \div U, (x \div U) + 1} /\ c[2] \in {y \div U, (y \div U) + 1}}
Wgt(c, x, y) == (U - Abs(U * c[1] - x)) * (U - Abs(U * c[2] - y))
Known(d, S, nx) == \A c \in S : IsNum(d[At(c[1], c[2], nx)])
(* the advected value, 65536 times over; or missing                                *)
Adv(d, i, nx, ny, dx, dy) ==
  LET x == SrcX(i, nx, dx)
      y == SrcY(i, nx, dy)
  IN IF ~Inside(x, y, nx, ny) THEN Masked
     ELSE LET C == Corners(x, y, nx, ny) IN
          IF ~Known(d, C, nx) THEN Masked
          ELSE SumOver([c \in C |-> d[At(c[1], c[2], nx)] * Wgt(c, x, y)], C)
(* a missing value next to, but not bearing on, the source may hide it (it is      *)
(* multiplied by nothing)                                                          *)
MayHide(d, i, nx, ny, dx, dy) ==
  LET x == SrcX(i, nx, dx)
      y == SrcY(i, nx, dy)
  IN Inside(x, y, nx, ny) /\ ~Known(d, Touched(x, y, nx, ny), nx)
(* --- rates are 32nds of mm/h: those below one have no orographic part            *)
Subtract(p, oe) == IF ~IsNum(p) THEN Masked ELSE IF p < 1 THEN p ELSE Max2(p - oe, 1)
AddOe(a, oe) == IF ~IsNum(a) THEN Masked ELSE IF a < 65536 THEN a ELSE a + 65536 * oe
(* the orographic part whose time is nearest                                       *)
NearestTo(ts, t) == {k \in 1..Len(ts) : \A j \in 1..Len(ts) : Abs(ts[k] - t) <= Abs(ts[j] - t)}
InTime(ts, t) == \E k \in 1..Len(ts) : Abs(ts[k] - t) <= 1800
(* --- accumulation: rates r at times t, by trapezia over every whole period        *)
Sorted(t) == \A k \in 1..(Len(t) - 1) : t[k] < t[k + 1]
Even(t) == \A k \in 1..(Len(t) - 1) : t[k + 1] - t[k] = t[2] - t[1]
RECURSIVE Trap(_, _, _, _)
Trap(r, i, a, b) ==  (* twice the sum over steps a..b-1 *)
  IF a >= b THEN 0
  ELSE IF ~IsNum(r[a][i]) \/ ~IsNum(r[a + 1][i]) THEN Masked
  ELSE LET rest == Trap(r, i, a + 1, b) IN IF ~IsNum(rest) THEN Masked ELSE r[a][i] + r[a + 1][i] + rest
StepOf(t, x) == {k \in 1..Len(t) : t[k] = x}
Whole(t, end, period) == StepOf(t, end) # {} /\ StepOf(t, end - period) # {}
First(t, x) == CHOOSE k \in StepOf(t, x) : TRUE
(* --- the radar's mask                                                            *)
Seen(c) == c \in {1, 2}
Extended(d, c) == IF Seen(c) THEN d ELSE Masked
(* --- holes: rates as thousandths of log2; Dry where no rate can be logged         *)
Dry == -2000000
Box(i, nx, ny, r) == {j \in 1..(nx * ny) : Abs(Row(i, nx) - Row(j, nx)) <= r /\ Abs(Col(i, nx) - Col(j, nx)) <= r}
Missing(d, B) == Cardinality({j \in B : ~IsNum(d[j])})
Unknown(d, i, nx, ny, r) == Missing(d, Box(i, nx, ny, r)) + (2 * r + 1) * (2 * r + 1) - Cardinality(Box(i, nx, ny, r))
Speckle(d, i, nx, ny, r) == ~IsNum(d[i]) /\ 10 * Unknown(d, i, nx, ny, r) < 3 * (2 * r + 1) * (2 * r + 1)
Around(d, i, nx, ny, r) == {j \in Box(i, nx, ny, r) : IsNum(d[j])}
Mean(d, S) == RoundDiv(SumOver(d, S), Cardinality(S))
Fills(d, i, nx, ny, r, got, tol) ==
  LET S == Around(d, i, nx, ny, r)
      W == {j \in S : d[j] # Dry}
  IN IF W = S THEN Near(got, Mean(d, S), tol)
     ELSE got = Dry \/ (W # {} /\ Near(got, Mean(d, W), tol))
=============================================================================
