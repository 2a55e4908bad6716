-------------------------------- MODULE Core --------------------------------
(* Corrections learnt from past forecasts: mean bias, and rescaling by the difference *)
(* in altitude.  Values in hundredths (Masked where missing); biases and corrected     *)
(* values in thousandths; altitude differences in decametres; factors 1e-4.            *)
EXTENDS Fixed, Exps
Total(x) == SumTo(x, Len(x))
(* ------------------------------------------------------------------ bias ---------- *)
(* f, t: matching values at a place; missing where either is                            *)
Bias(f, t) == LET ok == {k \in 1..Len(f) : IsNum(f[k]) /\ IsNum(t[k])} IN
   IF ok = {} THEN Masked ELSE RoundDiv(10 * SumOver([k \in 1..Len(f) |-> IF k \in ok THEN f[k] - t[k] ELSE 0], ok), Cardinality(ok))
(* mean of the biases given, thousandths from hundredths                                 *)
Mean(b) == LET ok == {k \in 1..Len(b) : IsNum(b[k])} IN
   IF ok = {} THEN Masked ELSE RoundDiv(10 * SumOver([k \in 1..Len(b) |-> IF k \in ok THEN b[k] ELSE 0], ok), Cardinality(ok))
Clip(v, lo, hi) == LET w == IF IsNum(lo) /\ v < 10 * lo THEN 10 * lo ELSE v IN IF IsNum(hi) /\ w > 10 * hi THEN 10 * hi ELSE w
Corrected(f, b, fill, lo, hi) ==                 \* b in thousandths; lo, hi hundredths or NaN
  IF ~IsNum(f) THEN Masked
  ELSE IF ~IsNum(b) THEN (IF fill THEN Clip(10 * f, lo, hi) ELSE Masked)
  ELSE Clip(10 * f - b, lo, hi)
(* ------------------------------------------------------------------ altitude ------- *)
LogRatio(f, t) == Ln(RoundDiv(10000 * f, t))
(* pairs: records [f, t, d]; least squares slope of the log ratio on d, 1e-7 per 10 m    *)
Slope(pairs) ==
  LET n == Len(pairs)
      y == [k \in 1..n |-> LogRatio(pairs[k].f, pairs[k].t)]
      d == [k \in 1..n |-> pairs[k].d]
      num == n * Total([k \in 1..n |-> d[k] * y[k]]) - Total(d) * Total(y)
      den == n * Total([k \in 1..n |-> d[k] * d[k]]) - Total(d) * Total(d)
      q == Abs(num) \div den
      r == Abs(num) % den
      s == 1000 * q + (1000 * r) \div den
  IN IF num < 0 THEN -s ELSE s
Used(pairs, lo, hi) == SelectSeq(pairs, LAMBDA p : IsNum(p.f) /\ IsNum(p.t) /\ p.f # 0 /\ p.t # 0 /\ p.d >= lo /\ p.d <= hi)
Spread(pairs) == \E j, k \in 1..Len(pairs) : pairs[j].d # pairs[k].d
Held(d, lo, hi) == IF d < lo THEN lo ELSE IF d > hi THEN hi ELSE d
Factor(s, d) == LET x == RoundDiv(Abs(s) * Abs(d), 10000) \* exponent, 1e-3
                    e == ExpNeg(x)
                IN IF (s < 0) # (d < 0) /\ s # 0 /\ d # 0 THEN (300000000 \div Max2(e, 1)) ELSE e \div 3
(* fps: lead times (h, rising), hours: cycle hours held; which are used, or none         *)
LeadUsed(fps, fp) == IF \E k \in 1..Len(fps) : fps[k] >= fp THEN fps[CHOOSE k \in 1..Len(fps) : fps[k] >= fp /\ \A j \in 1..(k - 1) : fps[j] < fp] ELSE fps[Len(fps)]
Apart(h, g) == LET m == (h - g + 24) % 24 IN Min2(m, 24 - m)
HourUsed(hours, h, len) ==
  LET near == {k \in 1..Len(hours) : Apart(hours[k], h) <= len} IN
  IF near = {} THEN -1
  ELSE LET best == SetMin({Apart(hours[k], h) : k \in near})
           \* the earlier hour comes first where both sides are as near
           tied == {k \in near : Apart(hours[k], h) = best}
       IN IF \E k \in tied : hours[k] = (h - best + 24) % 24 THEN (h - best + 24) % 24 ELSE (h + best) % 24
=============================================================================
