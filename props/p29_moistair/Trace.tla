------------------------------- MODULE Trace --------------------------------
EXTENDS Core, TraceKit
VARIABLES l, st, fails
Pts(q) == 1..Len(q)
QNear(got, q) == IsNum(got) /\ Abs(got - q) <= 6 + q \div 1200
(* a level whose dry or saturated temperature leaves the table is not judged *)
Judged(t, p) == t > 22500 /\ t < 33000 /\ p > 1000
BaseOk(t, p, q, gp, gt) ==
  IF ~Judged(gt, gp) THEN TRUE
  ELSE /\ gp <= p + 100
       /\ BaseIs(gp, t, p, q, 400)
       /\ Near(gt, Along(t, p, gp), 6)
Clauses(s0, e) ==
  IF e.op = "rejected" THEN {<<"refused_" \o e.why, e.out = "error">>}
  ELSE IF e.out = "error" THEN {<<"completes", FALSE>>}
  ELSE {<<"described", e.meta>>, <<"inputs_untouched", e.same>>} \cup
  CASE e.op = "mixing" ->
        {<<"moisture_from_humidity", Len(e.got) = Len(e.t) /\ \A i \in Pts(e.t) : QNear(e.got[i], Q(e.t[i], e.p[i], e.rh[i]))>>}
    [] e.op = "wetbulb" ->
        {<<"enthalpy_kept", Len(e.got) = Len(e.t) /\ \A i \in Pts(e.t) : IsNum(e.got[i]) /\ WetBulbIs(e.got[i], e.t[i], e.p[i], e.rh[i], e.tol)>>,
         <<"never_warmer", \A i \in Pts(e.got) : e.got[i] <= e.t[i] + (IF e.rh[i] <= 1000 THEN e.tol ELSE 400)>>}
    [] e.op = "base" ->
        {<<"saturated_first_at_base", Len(e.gotp) = Len(e.t) /\ Len(e.gott) = Len(e.t) /\ \A i \in Pts(e.t) : BaseOk(e.t[i], e.p[i], e.q[i], e.gotp[i], e.gott[i])>>}
    [] e.op = "basemeta" ->
        {<<"saturated_first_at_base", Len(e.gotp) = Len(e.t) /\ Len(e.gott) = Len(e.t) /\ \A i \in Pts(e.t) : BaseOk(e.t[i], e.p[i], Q(e.t[i], e.p[i], e.rh[i]), e.gotp[i], e.gott[i])>>}
    [] e.op = "top" ->
        {<<"top_where_no_longer_buoyant", Len(e.got) = Len(e.t) /\ \A i \in Pts(e.t) :
             LET x == CloudTop(e.t[i], e.p[i], e.pl, e.env[i]) IN x = Over \/ Near(e.got[i], x, 15)>>}
    [] e.op = "feels" ->
        {<<"feels_like", Len(e.got) = Len(e.tc) /\ \A i \in Pts(e.tc) : Near(e.got[i], Feels(e.tc[i], e.v[i], e.rh[i], e.p[i]), 6 + (IF IsNum(e.tc[i]) THEN Abs(e.got[i]) \div 500 ELSE 0))>>}
    [] e.op = "uv" ->
        {<<"uv_scaled", Len(e.got) = Len(e.f) /\ \A i \in Pts(e.f) : Near(e.got[i], RoundDiv(e.f[i] * e.scale, 10), 1)>>}
Same(s0, e) == s0
INSTANCE TraceRun WITH Judge <- Clauses, Step <- Same, St0 <- 0
=============================================================================
