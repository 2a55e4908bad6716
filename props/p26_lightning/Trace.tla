------------------------------- MODULE Trace --------------------------------
EXTENDS Core, TraceKit
VARIABLES l, st, fails
Pts(q) == 1..Len(q)
(* nowcast: guess[k][i] at guess times gt; rate, any, heavy, intense [t][i] at times vt; *)
(* ice[3][i] or empty; vt and gt in minutes after the nowcast's start                  *)
IceAt(e, i) == IF e.ice = <<>> THEN <<>> ELSE <<e.ice[1][i], e.ice[2][i], e.ice[3][i]>>
CellOk(e, t, i) == \E k \in NearestOnes(e.gt, e.vt[t]) :
   Near(e.got[t][i], Nowcast(e.guess[k][i], e.rate[t][i], e.any[t][i], e.heavy[t][i], e.intense[t][i], IceAt(e, i), e.vt[t]), 3)
AllUsable(e) == \A t \in Pts(e.vt) : Usable(e.gt, e.vt[t])
(* thresholds by latitude: values v[row][col] in units of 1/40 of the threshold's unit *)
Beats(cmp, v, thr) == CASE cmp = "gt" -> v > thr [] cmp = "ge" -> v >= thr [] cmp = "lt" -> v < thr [] cmp = "le" -> v <= thr
Clauses(s0, e) ==
  CASE e.op = "nowcast" ->
        IF ~AllUsable(e) THEN {<<"distant_guess_refused", e.out = "error">>}
        ELSE IF e.out = "error" THEN {<<"completes", FALSE>>}
        ELSE {<<"strikes_rain_and_ice_weighed", Len(e.got) = Len(e.vt) /\ \A t \in Pts(e.vt) : Len(e.got[t]) = Len(e.rate[t]) /\ \A i \in Pts(e.rate[t]) : CellOk(e, t, i)>>,
              <<"described", e.meta>>, <<"inputs_untouched", e.same>>}
    [] e.op = "capeprecip" ->
        IF e.out = "error" THEN {<<"completes", FALSE>>}
        ELSE {<<"both_thresholds_beaten", Len(e.got) = Len(e.lats) /\ \A y \in Pts(e.lats) : \A x \in Pts(e.cape[y]) :
                  LET c == 40 * e.cape[y][x] IN LET w == e.rain[y][x] IN
                  e.got[y][x] = (IF c > ByLat(e.lats[y], 350, 500) /\ w > ByLat(e.lats[y], 1, 4) THEN 1 ELSE 0)>>,
              <<"described", e.meta>>, <<"inputs_untouched", e.same>>}
    [] e.op = "bylat" ->
        IF e.out = "error" THEN {<<"completes", FALSE>>}
        ELSE {<<"judged_by_own_latitude", Len(e.got) = Len(e.v) /\ \A y \in Pts(e.lats) : \A x \in Pts(e.v[y]) :
                 e.got[y][x] = (IF IsNum(e.v[y][x]) THEN (IF Beats(e.cmp, 40 * e.v[y][x], ByLat(e.lats[y], e.mid, e.trop)) THEN 1 ELSE 0) ELSE e.v[y][x])>>,
              <<"thresholds_recorded", Len(e.thr) = Len(e.lats) /\ \A y \in Pts(e.lats) : Near(e.thr[y], ByLat(e.lats[y], e.mid, e.trop), 1)>>,
              <<"described", e.meta>>, <<"inputs_untouched", e.same>>}
    [] e.op = "regression" ->
        IF e.out = "error" THEN {<<"completes", FALSE>>}
        ELSE {<<"regression_of_each_place", Len(e.got) = Len(e.cape) /\ \A i \in Pts(e.cape) :
                 Near(e.got[i], Regress(e.cape[i], e.li[i], e.q[i], e.cin[i], e.a[i]), 8)>>,
              <<"described", e.meta>>, <<"inputs_untouched", e.same>>}
    [] e.op = "rejected" -> {<<"refused_" \o e.why, e.out = "error">>}
Same(s0, e) == s0
INSTANCE TraceRun WITH Judge <- Clauses, Step <- Same, St0 <- 0
=============================================================================
