-------------------------------- MODULE Core --------------------------------
(* Rain moving over a grid, and the velocities read from two looks at it.                 *)
EXTENDS Fixed
(* ---- least squares velocity of a box: gradients x, y and change t, point by point      *)
Dot(a, b) == SumTo([k \in 1..Len(a) |-> a[k] * b[k]], Len(a))
Det(x, y) == Dot(x, x) * Dot(y, y) - Dot(x, y) * Dot(x, y)
(* thousandths of a grid square                                                          *)
Solved(x, y, t) ==
  IF Det(x, y) = 0 THEN <<0, 0>>
  ELSE <<-RoundDiv(1000 * (Dot(y, y) * Dot(x, t) - Dot(x, y) * Dot(y, t)), Det(x, y)), -RoundDiv(1000 * (Dot(x, x) * Dot(y, t) - Dot(x, y) * Dot(x, t)), Det(x, y))>>
(* ---- velocities (thousandths) of more than a third of the domain are dropped           *)
TooFast(u, v, rows) == 3 * (Abs(u) + Abs(v)) > 1000 * rows
(* ---- smoothing f[i][j] about a point: square mean, edges repeated; tent, edges mirrored *)
At(f, i, j) == f[Max2(1, Min2(Len(f), i))][Max2(1, Min2(Len(f[1]), j))]
Mirror(i, n) == LET m == (((i - 1) % (2 * n)) + (2 * n)) % (2 * n) IN IF m < n THEN m + 1 ELSE 2 * n - m
BoxMean(f, i, j, r) == RoundDiv(SumOver([d \in (-r..r) \X (-r..r) |-> At(f, i + d[1], j + d[2])], (-r..r) \X (-r..r)), (2 * r + 1) * (2 * r + 1))
Tent(f, i, j, r) == RoundDiv(SumOver([d \in (-r..r) \X (-r..r) |-> (r - Abs(d[1])) * (r - Abs(d[2])) * f[Mirror(i + d[1], Len(f))][Mirror(j + d[2], Len(f[1]))]], (-r..r) \X (-r..r)), r * r * r * r)
(* ---- mid points                                                                        *)
Middle(f, axis) ==
  IF axis = 0 THEN [i \in 1..(Len(f) - 1) |-> [j \in 1..Len(f[1]) |-> (f[i][j] + f[i + 1][j]) * 2]]
  ELSE IF axis = 1 THEN [i \in 1..Len(f) |-> [j \in 1..(Len(f[1]) - 1) |-> (f[i][j] + f[i][j + 1]) * 2]]
  ELSE [i \in 1..(Len(f) - 1) |-> [j \in 1..(Len(f[1]) - 1) |-> f[i][j] + f[i + 1][j] + f[i][j + 1] + f[i + 1][j + 1]]]     \* quarters
(* ---- speeds (mm/s) of a move of m squares of size metres in sec seconds                *)
Speed(m, size, sec) == RoundDiv(1000 * m * size, sec)
(* radius in grid squares: a tenth of km, growing beyond a quarter of an hour             *)
Radius(km10, size, sec) == IF sec > 900 THEN (km10 * sec) \div (9 * size) ELSE (100 * km10) \div size
=============================================================================
