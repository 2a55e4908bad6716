------------------------------- MODULE Core ---------------------------------
(* Geometry of rectilinear grids: one-dimensional laws applied to rows and columns *)
EXTENDS Fixed, FiniteSets
Missing(v) == v = NaN \/ v = Masked
Put(v) == IF Missing(v) THEN NaN ELSE v
Sub(a, b) == IF Missing(a) \/ Missing(b) THEN NaN ELSE a - b
Turn(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
(* forward differences; around the end of a circular axis                          *)
Diffs(s, circ) == [i \in 1..(IF circ THEN Len(s) ELSE Len(s) - 1) |-> Sub(s[IF i = Len(s) THEN 1 ELSE i + 1], s[i])]
(* steps between points of an axis, in units of the axis                            *)
Steps(x, circ, turn) == [i \in 1..(IF circ THEN Len(x) ELSE Len(x) - 1) |-> IF i = Len(x) THEN turn + x[1] - x[i] ELSE x[i + 1] - x[i]]
Mids2(x, circ, turn) == LET s == Tup(Steps(x, circ, turn)) IN [i \in 1..Len(s) |-> 2 * x[i] + s[i]]
(* quotient of a difference and a signed distance, at a scale                        *)
Rate(n, d, S) == IF Missing(n) THEN NaN ELSE IF d > 0 THEN RoundDiv(n * S, d) ELSE RoundDiv(-(n * S), -d)
(* linear interpolation of values g at the midpoints of steps d to the points         *)
ToPoints(g, d) == LET n == Len(d) + 1 IN [i \in 1..n |->
    IF i = 1 THEN g[1] - Rate(d[1] * (g[2] - g[1]), d[1] + d[2], 1)
    ELSE IF i = n THEN g[n - 1] + Rate(d[n - 1] * (g[n - 1] - g[n - 2]), d[n - 1] + d[n - 2], 1)
    ELSE Rate(g[i - 1] * d[i] + g[i] * d[i - 1], d[i - 1] + d[i], 1)]
(* ten thousand times the cosine of a latitude in degrees                              *)
Cos4(lat) == LET a == Abs(lat) IN CASE a = 0 -> 10000 [] a = 30 -> 8660 [] a = 45 -> 7071 [] a = 60 -> 5000
                                  [] a = 15 -> 9659 [] a = 75 -> 2588 [] a = 20 -> 9397 [] a = 40 -> 7660
Column(v, j) == [i \in 1..Len(v) |-> v[i][j]]
(* ---- halos ---- *)
First(s, m) == [i \in 1..Min2(m, Len(s)) |-> s[i]]
Last(s, m) == Turn(First(Turn(s), m))
Stat(s, how) == CASE how = "maximum" -> SetMax(Range1(s)) [] how = "minimum" -> SetMin(Range1(s)) [] how = "mean" -> RoundDiv(SumSeq(s), Len(s))
Ref(k, n, how) == CASE how = "symmetric" -> IF k < 1 THEN 1 - k ELSE IF k > n THEN 2 * n + 1 - k ELSE k
                    [] how = "reflect" -> IF k < 1 THEN 2 - k ELSE IF k > n THEN 2 * n - k ELSE k
                    [] how = "wrap" -> IF k < 1 THEN k + n ELSE IF k > n THEN k - n ELSE k
                    [] how = "edge" -> IF k < 1 THEN 1 ELSE IF k > n THEN n ELSE k
Pad(s, w, how) == [i \in 1..(Len(s) + 2 * w) |->
   LET k == i - w IN IF k \in 1..Len(s) THEN s[k]
                     ELSE IF how = "constant" THEN 0
                     ELSE IF how \in {"mean", "maximum", "minimum"} THEN Stat(IF k < 1 THEN First(s, Max2(w \div 2, 1)) ELSE Last(s, Max2(w \div 2, 1)), how)
                     ELSE s[Ref(k, Len(s), how)]]
Rows(v) == Len(v)
Cols(v) == Len(v[1])
PadCols(v, wy, how) == LET p == Tup([j \in 1..Cols(v) |-> Tup(Pad(Column(v, j), wy, how))]) IN [i \in 1..(Rows(v) + 2 * wy) |-> [j \in 1..Cols(v) |-> p[j][i]]]
Pad2(v, wy, wx, how) == LET c == Tup(PadCols(v, wy, how)) IN [i \in 1..Len(c) |-> Pad(Tup(c[i]), wx, how)]
Unpad(s, w) == [i \in 1..(Len(s) - 2 * w) |-> s[i + w]]
PadAxis(x, w) == [i \in 1..(Len(x) + 2 * w) |-> x[1] + (i - 1 - w) * (x[2] - x[1])]
EvenSteps(x) == \A i \in 1..(Len(x) - 1) : x[i + 1] - x[i] = x[2] - x[1]
=============================================================================
