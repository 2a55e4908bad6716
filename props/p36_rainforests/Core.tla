-------------------------------- MODULE Core --------------------------------
(* Calibration by decision trees: chances in 1e-4, Dist in halves of 1e-4.                *)
EXTENDS Fixed
(* ---- one tree: node n >= 0 splits on feature f[n+1] at s[n+1]; n < 0 is leaf v[-n]     *)
RECURSIVE Fall(_, _, _)
Fall(tr, n, x) == IF n < 0 THEN tr.v[-n] ELSE IF x[tr.f[n + 1] + 1] <= tr.s[n + 1] THEN Fall(tr, tr.l[n + 1], x) ELSE Fall(tr, tr.r[n + 1], x)
Grown(tr, x) == IF Len(tr.f) = 0 THEN tr.v[1] ELSE Fall(tr, 0, x)
Clip(p) == Max2(0, Min2(10000, p))
Chance(forest, x) == Clip(SumTo([k \in 1..Len(forest) |-> Grown(forest[k], x)], Len(forest)))
(* ---- chances at rising thresholds made to fall: twice the value                        *)
Falling(p) == [k \in 1..Len(p) |-> SetMin({p[j] : j \in 1..k}) + SetMax({p[j] : j \in k..Len(p)})]
(* d over thresholds thr, all above lower, where the chance is one                        *)
ChanceAt(d, thr, lower, x) ==
  IF x <= lower THEN 20000
  ELSE IF x >= thr[Len(thr)] THEN d[Len(d)]
  ELSE LET k == SetMin({j \in 1..Len(thr) : thr[j] >= x})
           x0 == IF k = 1 THEN lower ELSE thr[k - 1]
           d0 == IF k = 1 THEN 20000 ELSE d[k - 1]
       IN d0 + RoundDiv((x - x0) * (d[k] - d0), thr[k] - x0)
(* the model lead time nearest to the forecast's, the earlier of two as near              *)
NearestOf(leads, fp) == CHOOSE k \in 1..Len(leads) : (\A j \in 1..Len(leads) : Abs(leads[j] - fp) >= Abs(leads[k] - fp)) /\ (\A j \in 1..(k - 1) : Abs(leads[j] - fp) > Abs(leads[k] - fp))
(* ---- binning: two values share a bin when no split parts them                          *)
Bin(splits, x) == Cardinality({s \in splits : s < x})
=============================================================================
