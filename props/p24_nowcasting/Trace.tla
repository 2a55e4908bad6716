------------------------------- MODULE Trace --------------------------------
EXTENDS Core, TraceKit
VARIABLES l, st, fails
Pts(q) == 1..Len(q)
AdvOk(d, i, nx, ny, dx, dy, got, tol) ==
  \/ Near(got, Adv(d, i, nx, ny, dx, dy), tol)
  \/ ~IsNum(got) /\ MayHide(d, i, nx, ny, dx, dy)
  \/ ~IsNum(got) /\ ~IsNum(Adv(d, i, nx, ny, dx, dy))
(* at the brink of having an orographic part, rounding may take either side         *)
PutBack(a, oe, got, tol, fuzzy) ==
  \/ IF IsNum(AddOe(a, oe)) THEN Near(got, AddOe(a, oe), tol) ELSE ~IsNum(got)
  \/ fuzzy /\ IsNum(a) /\ Abs(a - 65536) <= 40 /\ (Near(got, a, tol) \/ Near(got, a + 65536 * oe, tol))
OeAt(e, t) == {e.oe[k] : k \in NearestTo(e.oet, t)}
None(n) == Tup([i \in 1..n |-> 0])
OesAt(e, t) == IF e.oet = <<>> THEN {None(Len(e.p))} ELSE OeAt(e, t)
Sub(e, o) == Tup([i \in Pts(e.p) |-> IF e.oet = <<>> THEN (IF IsNum(e.p[i]) THEN e.p[i] ELSE Masked) ELSE Subtract(e.p[i], o[i])])
Fps(e) == Tup([k \in Pts(e.t) |-> e.t[k]])
Gap(e) == e.t[2] - e.t[1]
Period(e) == IF e.period = 0 THEN e.t[Len(e.t)] - e.t[1] ELSE e.period
Ends(e) == LET all == IF e.fps = <<>> THEN e.t ELSE e.fps
               ok(x) == Whole(e.t, x, Period(e))
           IN SelectSeq(all, ok)
Clauses(s0, e) ==
  CASE e.op = "advect" ->
        {<<"advected_from_where_it_came", e.out = "ok" /\ Len(e.got) = Len(e.d) /\ \A i \in Pts(e.d) :
             AdvOk(e.d, i, e.nx, Len(e.d) \div e.nx, e.dx[i], e.dy[i], e.got[i], 2)>>,
         <<"described", e.meta>>, <<"inputs_untouched", e.same>>}
    [] e.op = "extrapolate" ->
        (* every lead n steps on: dx, dy in 256ths of a cell per step                  *)
        IF e.oet # <<>> /\ (~InTime(e.oet, e.t0) \/ \E n \in 0..e.steps : ~InTime(e.oet, e.t0 + n * e.step)) THEN {<<"no_enhancement_in_time_refused", e.out = "error">>}
        ELSE IF e.out = "error" THEN {<<"completes", FALSE>>}
        ELSE {<<"every_lead", e.times = Tup([n \in 1..(e.steps + 1) |-> e.t0 + (n - 1) * e.step])>>,
              <<"rain_moved_enhancement_stays",
                Len(e.got) = e.steps + 1 /\ \E o \in OesAt(e, e.t0) : LET q == Sub(e, o)
                                                                         ny == Len(e.p) \div e.nx IN
                \A n \in Pts(e.got) : Len(e.got[n]) = Len(e.p) /\ \E a \in OesAt(e, e.t0 + (n - 1) * e.step) : \A i \in Pts(e.p) :
                  LET x == (n - 1) * e.dx[i]
                      y == (n - 1) * e.dy[i]
                      v == IF n > 1 /\ (~IsNum(e.dx[i]) \/ ~IsNum(e.dy[i])) THEN Masked
                           ELSE IF n = 1 THEN (IF IsNum(q[i]) THEN 65536 * q[i] ELSE Masked)
                           ELSE Adv(q, i, e.nx, ny, x, y)
                  IN (IF e.oet = <<>> THEN (IF IsNum(v) THEN Near(e.got[n][i], v, 4) ELSE ~IsNum(e.got[n][i]))
                      ELSE PutBack(v, a[i], e.got[n][i], 40, e.fuzzy))
                     \/ (n > 1 /\ ~e.nearest /\ IsNum(e.dx[i]) /\ ~IsNum(e.got[n][i]) /\ MayHide(q, i, e.nx, ny, x, y))>>,
              <<"described", e.meta>>, <<"inputs_untouched", e.same>>}
    [] e.op = "accumulate" ->
        IF Len(e.t) < 2 THEN {<<"one_scan_refused", e.out = "error">>}
        ELSE IF ~Even(e.t) THEN {<<"uneven_times_refused", e.out = "error">>}
        ELSE IF Period(e) < Gap(e) THEN {<<"short_period_refused", e.out = "error">>}
        ELSE IF Period(e) % Gap(e) # 0 THEN {<<"indivisible_period_refused", e.out = "error">>}
        ELSE IF e.out = "error" THEN {<<"completes", FALSE>>}
        ELSE LET w == Tup(Ends(e)) IN
             {<<"only_whole_periods", e.ends = w /\ e.starts = Tup([k \in Pts(w) |-> w[k] - Period(e)])>>,
              <<"rates_summed_over_period", Len(e.got) = Len(w) /\ \A k \in Pts(w) : Len(e.got[k]) = Len(e.r[1]) /\ \A i \in Pts(e.got[k]) :
                 LET x == Trap(e.r, i, First(e.t, w[k] - Period(e)), First(e.t, w[k])) IN
                 IF ~IsNum(x) THEN ~IsNum(e.got[k][i])
                 ELSE LET v == RoundDiv(RoundDiv(x * Gap(e), 60) * e.num, e.den) IN Near(e.got[k][i], v, 3 + (v \div 100000))>>,
              <<"described", e.meta>>, <<"inputs_untouched", e.same>>}
    [] e.op = "mask" ->
        {<<"mask_extended", e.out = "ok" /\ Len(e.got) = Len(e.d) /\ \A i \in Pts(e.d) : e.got[i] = Extended(e.d[i], e.c[i])>>,
         <<"described", e.meta>>, <<"inputs_untouched", e.same>>}
    [] e.op = "fill" ->
        IF e.out = "error" THEN {<<"completes", FALSE>>}
        ELSE LET ny == Len(e.d) \div e.nx IN
             {<<"small_holes_filled", Len(e.got) = Len(e.d) /\ \A i \in Pts(e.d) : Speckle(e.d, i, e.nx, ny, 4) => Fills(e.d, i, e.nx, ny, 2, e.got[i], 2)>>,
              <<"others_left", Len(e.got) = Len(e.d) /\ \A i \in Pts(e.d) : ~Speckle(e.d, i, e.nx, ny, 4) => Near(e.got[i], e.d[i], 1)>>,
              <<"described", e.meta>>, <<"inputs_untouched", e.same>>}
    [] e.op = "same" -> {<<"same_" \o e.why, e.out = "ok">>}
    [] e.op = "defaults" ->       \* six hours in steps of a quarter, accumulated over a quarter, in metres
         LET quarters == [k \in 1..24 |-> 15 * k] IN
         {<<"documented_defaults", e.out = "ok" /\ IF e.what = "extrapolate" THEN e.minutes = <<0>> \o quarters ELSE e.minutes = quarters /\ e.length = 15 /\ e.units = "m">>}
    [] e.op = "rejected" -> {<<"refused_" \o e.why, e.out = "error">>}
Same(s0, e) == s0
INSTANCE TraceRun WITH Judge <- Clauses, Step <- Same, St0 <- 0
=============================================================================
