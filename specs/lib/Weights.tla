-------------------------------- MODULE Weights -----------------------------
(* Blending weights.  Weights are recorded scaled by S.                       *)
EXTENDS Fixed
S == 10000

Normalised(w) == LET t == SumSeq(w) IN [i \in 1..Len(w) |-> RoundDiv(S * w[i], t)]

(* Linear default weights: from y0 to yn in n equal steps (w * (n-1)).          *)
Linear(y0, yn, n) == IF n = 1 THEN <<S>>
  ELSE Normalised([i \in 1..n |-> y0 * (n - 1) + (yn - y0) * (i - 1)])

RECURSIVE Pow(_, _)
Pow(b, k) == IF k = 0 THEN 1 ELSE b * Pow(b, k - 1)
(* Weights c^k, with c in tenths.                                             *)
NonLinear(c10, n) == Normalised([i \in 1..n |-> Pow(c10, i - 1) * Pow(10, n - i)])

(* Triangle of half-width wd about mid, at points t (all in one unit).          *)
Triangular(t, mid, wd) ==
  Normalised([i \in 1..Len(t) |-> IF Abs(t[i] - mid) <= wd THEN wd - Abs(t[i] - mid) ELSE 0])

(* Piecewise-linear through (x, y), constant beyond the ends, at t; in 1/S.     *)
Interp(x, y, t) ==
  LET n == Len(x) IN
  IF t <= x[1] THEN S * y[1]
  ELSE IF t >= x[n] THEN S * y[n]
  ELSE LET k == CHOOSE i \in 1..(n - 1) : x[i] <= t /\ t < x[i + 1]
       IN S * y[k] + RoundDiv(S * (y[k + 1] - y[k]) * (t - x[k]), x[k + 1] - x[k])

(* Weights of models m = [x, y], normalised among them, at each t.              *)
DictWeights(models, times) ==
  [k \in 1..Len(times) |->
     LET raw == Tup([m \in 1..Len(models) |-> Interp(models[m].x, models[m].y, times[k])])
         tot == SumSeq(raw)
     IN [m \in 1..Len(models) |-> RoundDiv(raw[m] * S, Max2(tot, 1))]]

(* ---- spatial weights -------------------------------------------------------*)
RECURSIVE Newton(_, _)
Newton(v, x) == LET y == (x + v \div x) \div 2 IN IF y >= x THEN x ELSE Newton(v, y)
ISqrt(v) == IF v = 0 THEN 0 ELSE Newton(v, v)
Root == [d \in 0..128 |-> ISqrt(d * 1000000)]            \* 1000 sqrt(d)

(* Squared distance (grid squares) from point p to the nearest of the points Z.  *)
Dist2(p, Z, nx) == SetMin({LET dy == (p - 1) \div nx - (q - 1) \div nx
                              dx == ((p - 1) % nx) - ((q - 1) % nx)
                          IN dy * dy + dx * dx : q \in Z})

(* w: weight of each slice; mask[k][p]; fz: fuzzy length in tenths of a square.  *)
(* Result [k][p] in 1/S.                                                        *)
SpatialWeights(w, mask, nx, fz) ==
  LET K == Len(w)
      N == Len(mask[1])
      a == Tup([k \in 1..K |-> Tup([p \in 1..N |-> IF mask[k][p] THEN 0 ELSE w[k]])])
      sum == Tup([p \in 1..N |-> SumTo([k \in 1..K |-> a[k][p]], K)])
      zero == Tup([k \in 1..K |-> {p \in 1..N : a[k][p] = 0}])
      \* how much of its weight slice k keeps at p
      keep == Tup([k \in 1..K |-> Tup([p \in 1..N |->
                IF zero[k] = {} THEN S
                ELSE Min2(S, (Root[Dist2(p, zero[k], nx)] * 100) \div fz)])])
      \* share of the weight before and after smoothing (1/S)
      share == Tup([k \in 1..K |-> Tup([p \in 1..N |-> IF sum[p] = 0 THEN 0 ELSE RoundDiv(S * a[k][p], sum[p])])])
      low(k, p) == keep[k][p] < S /\ a[k][p] > 0
      lowered == Tup([p \in 1..N |-> SumTo([k \in 1..K |-> IF low(k, p) THEN RoundDiv(share[k][p] * keep[k][p], S) ELSE 0], K)])
      others == Tup([p \in 1..N |-> SumTo([k \in 1..K |-> IF low(k, p) THEN 0 ELSE a[k][p]], K)])
  IN Tup([k \in 1..K |-> Tup([p \in 1..N |->
        IF low(k, p) THEN RoundDiv(share[k][p] * keep[k][p], S)
        ELSE IF others[p] = 0 THEN 0
        ELSE RoundDiv((S - lowered[p]) * a[k][p], others[p])])])
=============================================================================
