------------------------------- MODULE Trace --------------------------------
EXTENDS Core, TraceKit
VARIABLES l, st, fails
Pts(q) == 1..Len(q)
Column(d, i) == [k \in Pts(d) |-> d[k][i]]
(* directions: d[t][member][cell] sixteenths; sn, cs [t][cell] thousandths; deg hundredths *)
Wide(e, t, i) == LET s == WideSn(e.d[t], i, e.ny, e.nx, 3) c == WideCs(e.d[t], i, e.ny, e.nx, 3) IN
   (* nothing is claimed where the square around cancels too *)
   Abs(s) + Abs(c) <= 400 \/ Along(e.sn[t][i], e.cs[t][i], s, c)
DirOk(e, t, i) == LET ds == Column(e.d[t], i) IN
   IF Cancels(ds) THEN (IF e.backup = "neighbourhood" THEN Wide(e, t, i) ELSE Along(e.sn[t][i], e.cs[t][i], Sn(e.d[t][e.zero][i]), Cs(e.d[t][e.zero][i])))
   ELSE Along(e.sn[t][i], e.cs[t][i], SumSn(ds), SumCs(ds))
(* two members, the second turned half a turn and a little (hundredths of a degree) from  *)
(* the first; the mean is a hundredth long when it is turned by 1.146 degrees more or less *)
Apart(x, y) == LET m == (x - y) % 36000 IN Min2(m, 36000 - m)
NearlyOk(e, i) == LET o == e.off[i] f == 2250 * e.first[i] g == e.deg[i] IN
   IF o = 18000 THEN Apart(g, f) <= 5
   ELSE IF Abs(o) > 115 THEN Apart(g, f + (o \div 2) + (IF o > 0 THEN 27000 ELSE 9000)) <= 20
   ELSE IF e.backup = "first_realization" THEN Apart(g, f) <= 5
   (* the cells around are steady *)
   ELSE Apart(g, 2250 * e.a) <= 1000
(* times within gusts' periods; bounds <<lo, hi>> or empty *)
TimesFit(e) == Len(e.gt) = Len(e.wt) /\ (\/ \A k \in Pts(e.gt) : e.gt[k] = e.wt[k]
                                         \/ e.gb # <<>> /\ \A k \in Pts(e.gt) : e.gb[k][1] <= e.wt[k] /\ e.wt[k] <= e.gb[k][2])
Found(q, p) == \E k \in Pts(q) : q[k] = p
At(q, p) == CHOOSE k \in Pts(q) : q[k] = p
GustOk(e) == LET a == e.g[At(e.gp, e.pg)] b == e.w[At(e.wp, e.pw)] IN
   Len(e.got) = Len(a) /\ \A t \in Pts(a) : Len(e.got[t]) = Len(a[t]) /\ \A i \in Pts(a[t]) : e.got[t][i] = Gust(a[t][i], b[t][i])
Label(pg, pw) == IF pg = 50 /\ pw = 95 THEN "Typical gusts" ELSE IF pg = 95 /\ pw = 100 THEN "Extreme gusts" ELSE "by percentiles"
Clauses(s0, e) ==
  CASE e.op = "direction" ->
        IF e.out = "error" THEN {<<"completes", FALSE>>}
        ELSE {<<"points_along_the_members", Len(e.sn) = Len(e.d) /\ \A t \in Pts(e.d) : Len(e.sn[t]) = e.ny * e.nx /\ \A i \in Pts(e.sn[t]) : DirOk(e, t, i)>>,
              <<"within_the_circle", \A t \in Pts(e.deg) : \A i \in Pts(e.deg[t]) : e.deg[t][i] >= 0 /\ e.deg[t][i] <= 36000>>,
              <<"described", e.meta>>}
    [] e.op = "nearly" ->
        IF e.out = "error" THEN {<<"completes", FALSE>>}
        ELSE {<<"only_what_cancels_is_replaced", Len(e.deg) = Len(e.off) /\ \A i \in Pts(e.off) : NearlyOk(e, i)>>}
    [] e.op = "gust" ->
        IF ~(Found(e.gp, e.pg) /\ Found(e.wp, e.pw)) THEN {<<"absent_percentile_refused", e.out = "error">>}
        ELSE IF ~TimesFit(e) THEN {<<"other_times_refused", e.out = "error">>}
        ELSE IF e.out = "error" THEN {<<"completes", FALSE>>}
        ELSE {<<"larger_of_the_two", GustOk(e)>>, <<"labelled", e.label = Label(e.pg, e.pw)>>, <<"described", e.meta>>, <<"inputs_untouched", e.same>>}
    [] e.op = "components" ->
        IF e.out = "error" THEN {<<"completes", FALSE>>}
        ELSE {<<"components_along_the_axes", Len(e.u) = Len(e.v) /\ Len(e.nn) = Len(e.v) /\ \A k \in Pts(e.v) : \A i \in Pts(e.v[k]) :
                 /\ Near(e.u[k][i], East(e.v[k][i], e.d[k][i], e.north[i], e.from), 8)
                 /\ Near(e.nn[k][i], North(e.v[k][i], e.d[k][i], e.north[i], e.from), 8)>>,
              <<"described", e.meta>>, <<"inputs_untouched", e.same>>}
    [] e.op = "updraught" ->
        IF e.out = "error" THEN {<<"completes", FALSE>>}
        ELSE {<<"lift_from_cape_and_rain", Len(e.got) = Len(e.cape) /\ \A k \in Pts(e.cape) : Near(e.got[k], Updraught(e.cape[k], e.rain[k]), 20)>>,
              <<"described", e.meta>>}
    [] e.op = "rejected" -> {<<"refused_" \o e.why, e.out = "error">>}
Same(s0, e) == s0
INSTANCE TraceRun WITH Judge <- Clauses, Step <- Same, St0 <- 0
=============================================================================
