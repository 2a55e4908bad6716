-------------------------------- MODULE Core --------------------------------
(* Ensemble model output statistics: a distribution for every point from an ensemble  *)
(* and its coefficients, the forecasts made of it, and the score coefficients are      *)
(* fitted by.  Members, predictors and truths in hundredths; location, scale, alpha    *)
(* and score in thousandths; beta and gamma in hundredths, delta in tenths.            *)
EXTENDS Normal
Total(x) == SumTo(x, Len(x))
(* sample variance, 1e-4                                                               *)
Variance(x) == LET n == Len(x)
                   y == [k \in 1..n |-> x[k] - x[1]]
                   s == Total(y)
               IN RoundDiv(n * Total([k \in 1..n |-> y[k] * y[k]]) - s * s, n * (n - 1))
(* location from the mean of the members and any further predictors                     *)
FromMean(x, extra, a, b) ==
  a + RoundDiv(b[1] * Total(x), 10 * Len(x)) + Total([k \in 1..Len(extra) |-> RoundDiv(b[k + 1] * extra[k], 10)])
(* location from each member with the square of its own coefficient                     *)
FromMembers(x, a, b) == a + RoundDiv(Total([k \in 1..Len(x) |-> RoundDiv(b[k] * b[k] * x[k], 100)]), 10)
Loc(pred, x, extra, a, b) == IF pred = "mean" THEN FromMean(x, extra, a, b) ELSE FromMembers(x, a, b)
Scale(x, g, d) == ISqrt((g * g + RoundDiv(d * d * Variance(x), 100)) * 100)
(* percentiles of n realizations: evenly spread, in 1e-6                                *)
Even(n) == [k \in 1..n |-> (1000000 * k) \div (n + 1)]
Slack(s, z) == 3 + RoundDiv(s * (IF Abs(z) > 20000 THEN 40 ELSE 8), 10000) + (Abs(z) \div 10000)
(* chance of a value above or below a threshold, in 1e-4                                *)
Chance(t, loc, s, cut, above) == LET p == RoundDiv(Below(t, loc, s, cut), 100) IN IF above THEN 10000 - p ELSE p
ChanceSlack(loc, s, cut) == IF s = 0 THEN 0 ELSE 6 + 4000 \div s + (IF cut THEN 10 ELSE 0)
(* ------------------------------------------------------------------ score ---------- *)
InvRootPi == 5642
(* for a normal distribution: s (z (2 Phi - 1) + 2 phi - 1/sqrt(pi)), thousandths         *)
ScoreAt(z, s) == LET za == IF Abs(z) > 50000 THEN 50000 ELSE z
                     br == RoundDiv(za * (RoundDiv(Phi(za), 50) - 10000), 10000) + RoundDiv(Dens(za), 50) - InvRootPi
                 IN RoundDiv(br * s, 10000)
Score(truth, loc, s) == LET d == truth - loc IN
   IF s = 0 \/ Abs(d) > 5 * s THEN Abs(d) - RoundDiv(InvRootPi * s, 10000) ELSE ScoreAt(Std(d, s), s)
(* cut at zero, loc >= 0                                                                *)
CutScore(truth, loc, s) == LET z == Std(truth - loc, s)
      p0 == Phi(Std(loc, s))
      p2 == LET x == Std(loc, s) IN IF x > 35000 THEN 1000000 ELSE Phi(RoundDiv(x * 1414, 1000))
      p == Phi(z)
      t1 == RoundDiv(z * RoundDiv(2 * p + p0 - 2000000, 100), 10000)            \* 1e-4
      br == RoundDiv(t1 * RoundDiv(p0, 100), 10000) + RoundDiv(RoundDiv(2 * Dens(z), 100) * RoundDiv(p0, 100), 10000) - RoundDiv(RoundDiv(p2, 100) * InvRootPi, 10000)
      q == RoundDiv(RoundDiv(p0, 100) * RoundDiv(p0, 100), 10000)
   IN IF s = 0 \/ Abs(truth - loc) > 5 * s THEN Abs(truth - loc) - RoundDiv(RoundDiv(RoundDiv(RoundDiv(p2, 100) * InvRootPi, 10000) * 10000, q) * s, 10000)
      ELSE RoundDiv(RoundDiv(br * 10000, q) * s, 10000)
MeanScore(scores) == RoundDiv(Total(scores), Len(scores))
(* ------------------------------------------------------------------ matching -------- *)
HoursUp(secs) == -((-secs) \div 3600)
HourOfDay(secs) == (secs % 86400) \div 3600
Usable(fp1, frt1, fp2, frt2) == HoursUp(fp1) = HoursUp(fp2) /\ HourOfDay(frt1) = HourOfDay(frt2)
(* forecasts f and truths t: records [time, lo, hi, empty]; bounds 0, 0 where there are none *)
Pairs(f, t) == {k \in 1..Len(f) : ~f[k].empty /\ \E j \in 1..Len(t) : t[j].time = f[k].time /\ (f[k].lo = f[k].hi \/ (t[j].lo = f[k].lo /\ t[j].hi = f[k].hi))}
(* too many missing pairs: bad of all, counted where both are missing; parts in 1000         *)
TooFew(bad, all, allowed) == 1000 * bad > allowed * all
(* ------------------------------------------------------------------ sorting inputs -- *)
(* kinds: coef, static, mask, prob, and forecasts by name                               *)
IsForecast(k) == k \notin {"coef", "static", "mask"}
Main(items) == SelectSeq(items, IsForecast)
Sorted(items, named) ==
  LET main == Main(items)
      probs == {i \in 1..Len(main) : main[i] = "prob"}
      others == {i \in 1..Len(main) : main[i] # "prob"}
  IN IF Len(main) = 0 \/ Cardinality(probs) > 1 \/ Cardinality(others) > 1 THEN [out |-> "error"]
     ELSE [out |-> "ok",
           forecast |-> IF others # {} THEN main[CHOOSE i \in others : TRUE] ELSE "prob",
           template |-> others # {} /\ probs # {},
           coefs |-> Cardinality({i \in 1..Len(items) : items[i] = "coef"}),
           statics |-> Cardinality({i \in 1..Len(items) : items[i] = "static" \/ (~named /\ items[i] = "mask")}),
           mask |-> named /\ \E i \in 1..Len(items) : items[i] = "mask"]
(* what the command returns                                                             *)
Outcome(items, named, valid, pers) ==
  LET s == Sorted(items, named) IN
  IF s.out = "error" THEN "error"
  ELSE IF ~valid THEN (IF pers THEN "resampled" ELSE IF s.template THEN "template" ELSE "forecast")
  ELSE IF s.coefs = 0 THEN (IF s.template THEN "template" ELSE IF pers THEN "resampled" ELSE "forecast")
  ELSE "calibrated"
=============================================================================
