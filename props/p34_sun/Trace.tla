------------------------------- MODULE Trace --------------------------------
EXTENDS Core, TraceKit
VARIABLES l, st, fails
(* at[p] = <<lat, lon>> of the points; ts = the times, or the limits of the periods        *)
TimeOf(e, k) == InYear(IF Len(e.ts[k]) = 2 THEN Middle(e.ts[k][1], e.ts[k][2]) ELSE e.ts[k][1], e.past)
SineOf(e, k, p) == SineAt(e.at[p][1], e.at[p][2], TimeOf(e, k))
RoundTheClock(a, b, tol) == LET d == (((a - b) % 240000) + 240000) % 240000 IN d <= tol \/ d >= 240000 - tol
Clauses(s0, e) ==
  IF Has(e, "out") /\ e.out = "error" /\ e.op # "rejected" THEN {<<"completes", FALSE>>}
  ELSE CASE e.op = "solar_time" ->
        {<<"local_solar_time", Len(e.got) = Len(e.at) /\ \A p \in 1..Len(e.at) : RoundTheClock(e.got[p], Clock(e.at[p][2], e.t), 12)>>,
         <<"within_day", \A p \in 1..Len(e.got) : e.got[p] >= 0 /\ e.got[p] <= 240000>>,
         <<"metadata", e.meta>>, <<"inputs_kept", e.kept>>}
    [] e.op = "elevation" ->
        {<<"sine_of_elevation", Len(e.got) = Len(e.at) /\ \A p \in 1..Len(e.at) : Near(e.got[p], SinElevation(e.at[p][1], e.at[p][2], e.day, e.minute), 6)>>,
         <<"elevation", \A p \in 1..Len(e.at) : Near(SinOf(e.deg[p]), e.got[p], 4)>>}
    [] e.op = "daynight" ->
        {<<"day_or_night", Len(e.got) = Len(e.ts) /\ \A k \in 1..Len(e.ts) : Len(e.got[k]) = Len(e.at) /\ \A p \in 1..Len(e.at) :
             LET s == SineOf(e, k, p) IN IF Doubtful(s) THEN e.got[k][p] \in {0, 1} ELSE e.got[k][p] = (IF Day(s) THEN 1 ELSE 0)>>,
         <<"metadata", e.meta>>, <<"inputs_kept", e.kept>>}
    [] e.op = "night_mask" ->        \* v[k][j][p]: time, everything else, point
        {<<"zero_at_night", Len(e.got) = Len(e.ts) /\ \A k \in 1..Len(e.ts) : \A p \in 1..Len(e.at) :
             LET s == SineOf(e, k, p) IN \A j \in 1..Len(e.v[k]) :
               IF Doubtful(s) THEN e.got[k][j][p] \in {0, e.v[k][j][p]} ELSE IF Day(s) THEN e.got[k][j][p] = e.v[k][j][p] ELSE e.got[k][j][p] \in ({0} \cup ({Masked} \cap {e.v[k][j][p]}))>>,
         <<"metadata", e.meta>>}
    [] e.op = "clearsky" ->
        LET ts == Samples(e.end, e.past, e.hours, e.spacing) IN
        {<<"radiation", Len(e.got) = Len(e.at) /\ \A p \in 1..Len(e.at) :
             LET w == TwiceTotal(Received(e.at[p][1], e.at[p][2], e.alt[p], e.turb[p], ts)) IN Near(e.got[p], w, 40 + 20 * Len(ts) + w \div 150)>>,
         <<"metadata", e.meta>>, <<"inputs_kept", e.kept>>}
    [] e.op = "rejected" -> {<<"refuses_" \o e.why, e.out = "error">>}
    [] OTHER -> {<<"known_event", FALSE>>}
Same(s0, e) == s0
INSTANCE TraceRun WITH Judge <- Clauses, Step <- Same, St0 <- 0
=============================================================================
