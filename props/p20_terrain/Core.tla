-------------------------------- MODULE Core --------------------------------
(* Temperature and rain over hills: how temperature falls with height around a *)
(* point, what a difference in height does to it, and how wind lifted by slopes*)
(* feeds rain downstream.                                                      *)
EXTENDS Fixed, Exps
Rows(f) == Len(f)
Cols(f) == Len(f[1])
In(f, y, x) == y >= 1 /\ y <= Rows(f) /\ x >= 1 /\ x <= Cols(f)
(* --- lapse rates: temperatures in tenths, heights in metres, rates in 1e-5 K/m --- *)
DALR == -980
Window(h, land, y, x, r, maxd) ==
  {p \in ((y - r)..(y + r)) \X ((x - r)..(x + r)) :
     In(h, p[1], p[2]) /\ land[p[1]][p[2]] = 1 /\ Abs(h[p[1]][p[2]] - h[y][x]) <= maxd}
Fitted(t, h, y, x, W) ==
  LET n == Cardinality(W)
      a(p) == h[p[1]][p[2]] - h[y][x]
      b(p) == t[p[1]][p[2]] - t[y][x]
      sa == SumOver([p \in W |-> a(p)], W)
      sb == SumOver([p \in W |-> b(p)], W)
      sab == SumOver([p \in W |-> a(p) * b(p)], W)
      saa == SumOver([p \in W |-> a(p) * a(p)], W)
      sbb == SumOver([p \in W |-> b(p) * b(p)], W)
      va == n * saa - sa * sa
      vb == n * sbb - sb * sb
  IN IF va = 0 \/ vb = 0 THEN DALR ELSE RoundDiv((n * sab - sa * sb) * 10000, va)
Bounded(v, lo, hi) == Max2(lo, Min2(hi, v))
Lapse(t, h, land, y, x, r, maxd, lo, hi) ==
  Bounded(IF land[y][x] = 0 THEN DALR ELSE LET W == Window(h, land, y, x, r, maxd) IN Fitted(t, h, y, x, W), lo, hi)
(* a temperature (1e-3 K) moved by d metres at lr (1e-5 K/m); the first fifty  *)
(* metres at that rate, the rest at that of the standard atmosphere            *)
Moved(t, d, lr) == LET c == Bounded(d, -50, 50) IN t + RoundDiv(lr * c + (-650) * (d - c), 100)
(* --- orographic enhancement ---                                              *)
Reflect(i, n) == IF i < 1 THEN 1 ELSE IF i > n THEN n ELSE i
(* heights summed over three cells across the slope, and twice the slope       *)
SumX(h, y, x) == h[Reflect(y - 1, Rows(h))][x] + h[y][x] + h[Reflect(y + 1, Rows(h))][x]
SumY(h, y, x) == h[y][Reflect(x - 1, Cols(h))] + h[y][x] + h[y][Reflect(x + 1, Cols(h))]
Slope2(f(_), i, n) ==
  LET d(k) == f(k + 1) - f(k)
  IN IF n = 2 THEN 2 * d(1) ELSE IF i = 1 THEN 3 * d(1) - d(2) ELSE IF i = n THEN 3 * d(n - 1) - d(n - 2) ELSE d(i - 1) + d(i)
(* wind along the slope, times six cells                                       *)
Lift(h, u, v, y, x) == Slope2(LAMBDA k : SumX(h, y, k), x, Cols(h)) * u[y][x] + Slope2(LAMBDA k : SumY(h, k, x), y, Rows(h)) * v[y][x]
Around(h, y, x) == {p \in ((y - 1)..(y + 1)) \X ((x - 1)..(x + 1)) : In(h, p[1], p[2])}
MeanHigh(h, y, x) == LET A == Around(h, y, x) IN SumOver([p \in A |-> h[p[1]][p[2]]], A) >= 20 * Cardinality(A)
(* rain at a point (1e-3 mm/h): k is 100 times the rate for a lift of 1 m/s    *)
Point(h, rh, u, v, k, cell, y, x) ==
  LET g == Lift(h, u, v, y, x)
  IN IF ~MeanHigh(h, y, x) \/ rh[y][x] < 80 \/ g <= 0 \/ 2000 * g < 6 * cell THEN 0
     ELSE RoundDiv(RoundDiv(g * 10000, 6 * cell) * RoundDiv(k * rh[y][x], 100), 1000)
(* contributions from upstream, up to fifteen kilometres                       *)
Larger(u, v) == Max2(Abs(u), Abs(v))
Speed2(u, v) == u * u + v * v
(* precipitation (1/8 mm/h) with enhancement added or taken away, from 1/32 mm/h  *)
Enhance(p, oe, add) == IF ~IsNum(p) THEN p ELSE IF 4 * p < 1 THEN 1000 * p ELSE IF add THEN 1000 * (p + oe) ELSE IF 4 * (p - oe) <= 1 THEN 250 ELSE 1000 * (p - oe)
RECURSIVE Root(_, _)
Root(n, g) == IF g * g > n THEN Root(n, g - 1) ELSE g
Steps(u, v, cell) == ((15000 * Larger(u, v)) \div (cell * Root(Speed2(u, v), Abs(u) + Abs(v))))
Back(i, s, k, m) == LET q == k * s IN i - (IF q >= 0 THEN (2 * q + m) \div (2 * m) ELSE -((2 * (-q) + m) \div (2 * m)))
Enhanced(P, u, v, cell, y, x) ==
  LET a == u[y][x]
      b == v[y][x]
      m == Larger(a, b)
      n == Steps(a, b, cell)
      w == Tup([k \in 1..n |-> ExpNeg(RoundDiv((k - 1) * (k - 1) * RoundDiv((cell \div 10) * (cell \div 10) * 10000, 2081), m * m)) \div 10])
      s == Tup([k \in 1..n |-> P[Reflect(Back(y, b, k - 1, m), Len(P))][Reflect(Back(x, a, k - 1, m), Len(P[1]))]])
  IN IF m = 0 THEN 0 ELSE RoundDiv(RoundDiv(SumTo([k \in 1..n |-> w[k] * s[k]], n), SumTo(w, n)) * 2327, 10000)
=============================================================================
