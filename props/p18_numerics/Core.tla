-------------------------------- MODULE Core ---------------------------------
(* Numerical operators on sequences, fields and tables of integers.            *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Fixed
Sign(n, d) == IF d < 0 THEN [n |-> -n, d |-> -d] ELSE [n |-> n, d |-> d]
Quot(n, d, S) == LET q == Sign(n, d) IN RoundDiv(S * q.n, q.d)
(* ---- rescaling --------------------------------------------------------- *)
Clip(v, lo, hi) == Max2(lo, Min2(v, hi))
(* numerator over d[2] - d[1]                                                 *)
RescaleN(v, d, s) == (v - d[1]) * (s[2] - s[1]) + s[1] * (d[2] - d[1])
Rescale(v, d, s, clip, S) ==
  LET r == Quot(RescaleN(v, d, s), d[2] - d[1], S)
  IN IF clip THEN Clip(r, S * Min2(s[1], s[2]), S * Max2(s[1], s[2])) ELSE r
Rescalable(d, s) == d[1] # d[2] /\ s[1] # s[2]
(* two linear pieces meeting at the middle, limiting a value                   *)
Piece(v, d, s, S) == IF v < d[2] THEN Rescale(v, <<d[1], d[2]>>, <<s[1], s[2]>>, TRUE, S)
                     ELSE Rescale(v, <<d[2], d[3]>>, <<s[2], s[3]>>, TRUE, S)
DoubleScaled(v, w, d, s, how, S) == IF how = "min" THEN Min2(w * S, Piece(v, d, s, S)) ELSE Max2(w * S, Piece(v, d, s, S))
(* ---- integration of the positive part along a coordinate, doubled           *)
Pos(v) == Max2(v, 0)
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
Ascending(c) == \A i \in 1..(Len(c) - 1) : c[i] < c[i + 1]
(* levels in the direction of integration                                      *)
Directed(s, c, up) == IF Ascending(c) = up THEN s ELSE Rev(s)
None == 999999
InRange(a, b, up, from, to) ==
  LET lo == Min2(a, b)
      hi == Max2(a, b)
  IN IF up THEN (from = None \/ lo >= from) /\ (to = None \/ hi <= to)
     ELSE (from = None \/ hi <= from) /\ (to = None \/ lo >= to)
RECURSIVE Strides(_, _, _, _, _)
(* the pairs of successive levels used: indices of the later of each pair      *)
Strides(c, i, up, from, to) == IF i >= Len(c) THEN <<>>
   ELSE (IF InRange(c[i], c[i + 1], up, from, to) THEN <<i>> ELSE <<>>) \o Strides(c, i + 1, up, from, to)
RECURSIVE Integral2(_, _, _, _)
Integral2(v, c, k, n) == IF n = 0 THEN 0 ELSE Integral2(v, c, k, n - 1) + Abs(c[k[n] + 1] - c[k[n]]) * (Pos(v[k[n]]) + Pos(v[k[n] + 1]))
(* ---- straight lines                                                          *)
Dot(a, b) == SumSeq([i \in 1..Len(a) |-> a[i] * b[i]])
FitN(x, y) == Len(x) * Dot(x, y) - SumSeq(x) * SumSeq(y)
FitD(x) == Len(x) * Dot(x, x) - SumSeq(x) * SumSeq(x)
Slope(x, y, S) == Quot(FitN(x, y), FitD(x), S)
Intercept(x, y, S) == Quot(SumSeq(y) * FitD(x) - FitN(x, y) * SumSeq(x), Len(x) * FitD(x), S)
(* ---- windows ---------------------------------------------------------------- *)
Rows(f) == Len(f)
Cols(f) == Len(f[1])
Cell(f, y, x, how) ==
  IF y \in 1..Rows(f) /\ x \in 1..Cols(f) THEN f[y][x]
  ELSE IF how = "constant" THEN 0
  ELSE LET fold(i, n) == IF how = "edge" THEN Clip(i, 1, n)
                       ELSE IF how = "symmetric" THEN IF i < 1 THEN 1 - i ELSE IF i > n THEN 2 * n + 1 - i ELSE i
                       ELSE IF i < 1 THEN 2 - i ELSE IF i > n THEN 2 * n - i ELSE i
       IN f[fold(y, Rows(f))][fold(x, Cols(f))]
RECURSIVE Box(_, _, _, _, _, _, _)
Box(f, y, x, h, w, how, k) ==     \* sum over rows y-h..y+h and columns x-w..x+w
  IF k > (2 * h + 1) * (2 * w + 1) THEN 0
  ELSE Cell(f, y - h + (k - 1) \div (2 * w + 1), x - w + ((k - 1) % (2 * w + 1)), how) + Box(f, y, x, h, w, how, k + 1)
BoxSum(f, y, x, h, w, how) == Box(f, y, x, h, w, how, 1)
Window(f, y, x, h, w, how) == [k \in 1..((2 * h + 1) * (2 * w + 1)) |-> Cell(f, y - h + (k - 1) \div (2 * w + 1), x - w + ((k - 1) % (2 * w + 1)), how)]
(* the summed-area table with a leading row and column of zeros                 *)
RECURSIVE Sat(_, _, _)
Sat(f, y, x) == IF y = 0 \/ x = 0 THEN 0 ELSE f[y][x] + Sat(f, y - 1, x) + Sat(f, y, x - 1) - Sat(f, y - 1, x - 1)
(* ---- texture of a binary field: transitions out of potential ones             *)
Trans(f, y, x) == IF f[y][x] = 0 THEN 0
   ELSE Cardinality({d \in {<<0, 1>>, <<0, -1>>, <<1, 0>>, <<-1, 0>>} : Cell(f, y + d[1], x + d[2], "edge") = 0})
TransField(f) == [y \in 1..Rows(f) |-> [x \in 1..Cols(f) |-> Trans(f, y, x)]]
(* rough where the ratio exceeds thr thousandths; beyond the field all is 1       *)
Rough(f, t, y, x, r, thr) == IF f[y][x] = 0 THEN 1
   ELSE IF 1000 * BoxSum(t, y, x, r, r, "constant") > thr * 4 * BoxSum(f, y, x, r, r, "constant") THEN 1 ELSE 0
(* ---- choosing, masking, tables -------------------------------------------------- *)
Choose(ix, a) == [i \in 1..Len(a) |-> [j \in 1..Len(a[1]) |-> a[ix[i][j] + 1][j]]]
LowerIndex(labels, v) == Max2(1, Cardinality({i \in 1..Len(labels) : labels[i] <= v}))
Looked(t, rl, cl, r, c) == IF r = NaN \/ c = NaN THEN NaN ELSE t[LowerIndex(rl, r)][LowerIndex(cl, c)]
(* ---- filling gaps ----------------------------------------------------------------- *)
Cross(a, b, c) == (b[1] - a[1]) * (c[2] - a[2]) - (b[2] - a[2]) * (c[1] - a[1])
InTri(p, a, b, c) == LET s1 == Cross(a, b, p)
                         s2 == Cross(b, c, p)
                         s3 == Cross(c, a, p)
                     IN (s1 >= 0 /\ s2 >= 0 /\ s3 >= 0) \/ (s1 <= 0 /\ s2 <= 0 /\ s3 <= 0)
Tris(K) == {t \in K \X K \X K : Cross(t[1], t[2], t[3]) > 0}
Cells(f) == {<<y, x>> : y \in 1..Rows(f), x \in 1..Cols(f)}
Reach(tris, p) == \E t \in tris : InTri(p, t[1], t[2], t[3])
D2(p, q) == (p[1] - q[1]) * (p[1] - q[1]) + (p[2] - q[2]) * (p[2] - q[2])
Closest(p, K) == LET m == SetMin({D2(p, k) : k \in K}) IN {k \in K : D2(p, k) = m}
(* ---- nested lists -------------------------------------------------------------------- *)
RECURSIVE Flat(_)
Flat(t) == IF t.leaf THEN <<t.v>> ELSE
  LET F[i \in 0..Len(t.items)] == IF i = 0 THEN <<>> ELSE F[i - 1] \o Flat(t.items[i]) IN F[Len(t.items)]
==============================================================================
