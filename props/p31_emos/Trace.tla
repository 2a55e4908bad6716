------------------------------- MODULE Trace --------------------------------
EXTENDS Core, TraceKit
VARIABLES l, st, fails
(* per point: members x, further predictors extra, coefficients a, b, g, d             *)
Pts(e) == 1..Len(e.x)
Lo(e, i) == Loc(e.pred, e.x[i], e.extra[i], e.a[i], e.b[i])
Sc(e, i) == Scale(e.x[i], e.g[i], e.d[i])
LocSlack(e, i) == 2 + Len(e.b[i])
Cut(e) == e.dist = "truncnorm"
RankOk(raw, got) == \A j, k \in 1..Len(raw) : raw[j] < raw[k] => got[j] <= got[k]
ForecastOk(e, i) ==
  LET lo == Lo(e, i) sc == Sc(e, i) IN
  IF e.sea[i] THEN e.got[i] = e.raw[i]
  ELSE CASE e.kind = "probabilities" ->
            Len(e.got[i]) = Len(e.ts) /\ \A k \in 1..Len(e.ts) :
              (sc = 0 /\ Near(e.ts[k], lo, 4)) \/ Near(e.got[i][k], Chance(e.ts[k], lo, sc, Cut(e), e.above), ChanceSlack(lo, sc, Cut(e)) + (IF sc = 0 THEN 0 ELSE (LocSlack(e, i) * 4200) \div sc))
       [] e.kind = "percentiles" ->
            Len(e.got[i]) = Len(e.ps) /\ \A k \in 1..Len(e.ps) :
              Near(e.got[i][k], Quantile(e.ps[k], lo, sc, Cut(e)), LocSlack(e, i) + Slack(sc, 10000) + (IF Cut(e) \/ e.ps[k] < 50000 \/ e.ps[k] > 950000 THEN 3 + sc \div 250 ELSE 0))
       [] e.kind = "realizations" ->
            LET n == Len(e.raw[i]) q == Even(n)
                sorted == SortSeq(e.got[i], LAMBDA p, r : p < r) IN
            Len(e.got[i]) = n /\ (e.shuffled \/ RankOk(e.raw[i], e.got[i])) /\ \A k \in 1..n :
              Near(sorted[k], Quantile(q[k], lo, sc, Cut(e)), LocSlack(e, i) + Slack(sc, 10000) + (IF Cut(e) THEN 3 + sc \div 250 ELSE 0))
FitScore(e, a, b, g, d, i) ==       \* a, b, g, d in 1e-3 (one predictor)
  LET lo == a + RoundDiv(RoundDiv(b * Total(e.x[i]), 10 * Len(e.x[i])), 10)
      sc == ISqrt(RoundDiv(g * g, 1) + (LET v == Variance(e.x[i]) IN IF v > 100000 THEN RoundDiv(d * d, 1000) * RoundDiv(v, 10) ELSE RoundDiv(RoundDiv(d * d, 1000) * v, 10)))
  IN Score(10 * e.truth[i], lo, sc)
Clauses(s0, e) ==
  IF Has(e, "out") /\ e.out = "error" /\ e.op \notin {"rejected", "outcome", "sorted", "sufficient", "usable"} THEN {<<"completes", FALSE>>}
  ELSE CASE e.op = "params" ->
        {<<"location", Len(e.loc) = Len(e.x) /\ \A i \in Pts(e) : IF e.sea[i] THEN e.loc[i] = Masked ELSE Near(e.loc[i], Lo(e, i), LocSlack(e, i))>>,
         <<"scale", Len(e.sc) = Len(e.x) /\ \A i \in Pts(e) : IF e.sea[i] THEN e.sc[i] = Masked ELSE Near(e.sc[i], Sc(e, i), 2 + 60 \div (1 + Sc(e, i)))>>,
         <<"metadata", e.meta>>, <<"inputs_kept", e.kept>>}
    [] e.op = "forecast" ->
        {<<"calibrated_" \o e.kind, Len(e.got) = Len(e.x) /\ \A i \in Pts(e) : ForecastOk(e, i)>>,
         <<"metadata", e.meta>>, <<"inputs_kept", e.kept>>}
    [] e.op = "score" ->
        LET lo(i) == Loc(e.pred, e.x[i], e.extra[i], e.a[i], e.b[i])
            sc(i) == Sc(e, i)
        IN {<<"score", Near(e.got, MeanScore([i \in Pts(e) |-> IF Cut(e) THEN CutScore(10 * e.truth[i], lo(i), sc(i)) ELSE Score(10 * e.truth[i], lo(i), sc(i))]),
                            4 + SetMax({sc(i) : i \in Pts(e)}) \div 250 + SetMax({LocSlack(e, i) : i \in Pts(e)}))>>}
    [] e.op = "fitted" ->
        {<<"no_worse_than_no_change", LET old == MeanScore([i \in Pts(e) |-> FitScore(e, 0, 1000, 0, 1000, i)])
                                          new == MeanScore([i \in Pts(e) |-> FitScore(e, e.a, e.b, e.g, e.d, i)]) IN new <= old + 12>>,
         <<"metadata", e.meta>>}
    [] e.op = "guess" ->          \* residuals and predictors, whole numbers
        {<<"least_squares", \A k \in 1..Len(e.moments) : Abs(e.moments[k]) <= e.tol>>, <<"spread_guess", e.spread = <<0, 1>> >>}
    [] e.op = "default" -> {<<"default_guess", Len(e.got) = Len(e.want) /\ \A k \in 1..Len(e.got) : Near(e.got[k], e.want[k], 1)>>}
    [] e.op = "equal" -> {<<e.what, e.one = e.two>>}
    [] e.op = "pairs" ->
        LET w == {e.f[k].time : k \in Pairs(e.f, e.t)} IN
        {<<"times_paired", IF w = {} THEN e.res = "error" ELSE e.res = "ok" /\ Range1(e.ftimes) = w /\ Range1(e.ttimes) = w /\ e.ftimes = e.ttimes>>,
         <<"values_kept", e.values>>}
    [] e.op = "usable" -> {<<"time_of_coefficients", (e.out = "ok") = Usable(e.fp1, e.frt1, e.fp2, e.frt2)>>}
    [] e.op = "sufficient" -> {<<"enough_data", (e.out = "error") = (\E k \in 1..Len(e.bad) : TooFew(e.bad[k], e.all, e.allowed))>>}
    [] e.op = "sorted" -> LET w == Sorted(e.items, e.named) IN
        {<<"inputs_recognised", IF w.out = "error" THEN e.out = "error" ELSE e.out = "ok" /\ e.forecast = w.forecast /\ e.template = w.template /\ e.coefs = w.coefs /\ e.statics = w.statics /\ e.mask = w.mask>>}
    [] e.op = "outcome" ->
        LET w == Outcome(e.items, e.named, e.valid, e.pers) IN
        {<<"outcome", e.res = w>>, <<"says_uncalibrated", w \notin {"error", "calibrated"} => e.comment>>, <<"no_comment", w = "calibrated" => ~e.comment>>}
    [] e.op = "frt" -> {<<"unified_reference_time", e.point = SetMax(Range1(e.pts)) /\ e.lo = SetMin(Range1(e.pts) \cup Range1(e.bounds)) /\ e.hi = SetMax(Range1(e.pts) \cup Range1(e.bounds))>>}
    [] e.op = "rejected" -> {<<"refuses_" \o e.why, e.out = "error">>}
    [] OTHER -> {<<"known_event", FALSE>>}
Same(s0, e) == s0
INSTANCE TraceRun WITH Judge <- Clauses, Step <- Same, St0 <- 0
=============================================================================
