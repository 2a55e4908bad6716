------------------------------- MODULE Trace --------------------------------
EXTENDS Core, TraceKit
VARIABLES l, st, fails
Value(e, c, i) ==
  CASE e.kind = "linear" -> Linear1(e.v0[c], e.v1[c], e.t0, e.t1, e.ts[i], e.sc)
    [] e.kind = "max" -> Highest(e.v0[c], e.v1[c], e.t0, e.t1, e.ts[i], e.sc)
    [] e.kind = "min" -> Lowest(e.v0[c], e.v1[c], e.t0, e.t1, e.ts[i], e.sc)
    [] e.kind = "daynight" -> DayNight(e.v0[c], e.v1[c], e.s[i][c], e.t0, e.t1, e.ts[i], e.sc)
(* too near the horizon to tell *)
Dusk(s) == Abs(s) < 60
Tol(e, i, c) == 2
ValuesOk(e) ==
  CASE e.kind = "accumulation" ->
        \A c \in 1..Len(e.v0) :
           LET a == Accum(e.v0[c], e.v1[c], e.p0, e.p1, e.t0, e.t1, e.ts, e.sc)
           IN \A i \in 1..Len(e.ts) : Near(e.got[i][c], a[i], 2)
    [] e.kind = "direction" ->
        \A c \in 1..Len(e.v0) : \A i \in 1..Len(e.ts) :
           /\ DirectionOk(e.sn[i][c], e.cs[i][c], <<e.v0[c], e.v1[c]>>, <<e.t1 - e.ts[i], e.ts[i] - e.t0>>)
           /\ e.got[i][c] >= 0 /\ e.got[i][c] <= 3600
    [] e.kind = "solar" ->
        \A c \in 1..Len(e.v0) : \A i \in 1..Len(e.ts) :
           \/ Dusk(e.s[i][c]) \/ (Abs(e.s0[c]) < 500 /\ e.v0[c] # 0) \/ (Abs(e.s1[c]) < 500 /\ e.v1[c] # 0)
           \/ Near(e.got[i][c], Solar(e.v0[c], e.v1[c], e.s0[c], e.s1[c], e.s[i][c], e.t0, e.t1, e.ts[i]),
                   2 + Abs(e.got[i][c]) \div 100)
    [] e.kind = "daynight" -> \A c \in 1..Len(e.v0) : \A i \in 1..Len(e.ts) :
           Dusk(e.s[i][c]) \/ Near(e.got[i][c], Value(e, c, i), 2)
    [] OTHER -> \A c \in 1..Len(e.v0) : \A i \in 1..Len(e.ts) : Near(e.got[i][c], Value(e, c, i), 2)
(* st: where the last period of this run of forecasts ended                        *)
Clauses(s0, e) ==
  IF Has(e, "out") /\ e.out = "error" /\ e.op # "rejected" THEN {<<"completes", FALSE>>}
  ELSE CASE e.op = "pair" ->
        LET full == /\ e.ts = (IF e.step > 0 THEN Steps(e.t0, e.t1, e.step) ELSE Wanted(e.t0, e.t1, e.asked))
                    /\ Len(e.got) = Len(e.ts)
        IN {<<"times_wanted", full>>,
         <<"values", full => ValuesOk(e)>>,
         <<"periods_adjoin", e.bounded => /\ Len(e.bounds) = Len(e.ts)
              /\ \A i \in 1..Len(e.ts) : e.bounds[i] = <<IF i = 1 THEN e.t0 ELSE e.ts[i - 1], e.ts[i]>>>>,
         <<"leadtimes", e.leads_ok>>,
         <<"follows_on", e.first \/ ~e.bounded \/ e.from = s0>>,
         <<"metadata", e.meta>>, <<"inputs_untouched", e.same>>}
    [] e.op = "unchanged" -> {<<"later_input_returned", e.same>>}
    [] e.op = "given" -> {<<"times_list_untouched", e.same>>}
    [] e.op = "rejected" -> {<<"refuses_" \o e.why, e.out = "error">>}
    [] OTHER -> {<<"known_event", FALSE>>}
Next1(s0, e) == IF e.op = "pair" /\ e.out = "ok" THEN e.to ELSE s0
INSTANCE TraceRun WITH Judge <- Clauses, Step <- Next1, St0 <- 0
=============================================================================
