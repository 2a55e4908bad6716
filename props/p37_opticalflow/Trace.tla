------------------------------- MODULE Trace --------------------------------
EXTENDS Core, TraceKit
VARIABLES l, st, fails
Close(a, b, tol) == Len(a) = Len(b) /\ \A k \in 1..Len(a) : Near(a[k], b[k], tol)
Clauses(s0, e) ==
  IF Has(e, "out") /\ e.out = "error" /\ e.op # "rejected" THEN {<<"completes", FALSE>>}
  ELSE CASE e.op = "tracks" ->      \* rain moved by move squares of e.size metres in e.sec; u, v in mm/s where it rains
        LET one == Speed(1, e.size, e.sec) tol == 5 + (one * e.slack) \div 100 IN
        {<<"x_velocity", \A k \in 1..Len(e.u) : Near(e.u[k], Speed(e.move[1], e.size, e.sec), tol)>>,
         <<"y_velocity", \A k \in 1..Len(e.v) : Near(e.v[k], Speed(e.move[2], e.size, e.sec), tol)>>,
         <<"metadata", e.meta>>, <<"inputs_kept", e.kept>>}
    [] e.op = "still" -> {<<"no_velocity", \A k \in 1..Len(e.u) : e.u[k] = 0 /\ e.v[k] = 0>>, <<"metadata", e.meta>>, <<"inputs_kept", e.kept>>}
    [] e.op = "pair" ->
        LET tol == 3 + Speed(1, e.size, e.sec) \div 50 IN
        CASE e.how = "same" -> {<<e.what, Close(e.u1, e.u2, tol) /\ Close(e.v1, e.v2, tol)>>}
          [] e.how = "reversed" -> {<<e.what, Close(e.u1, [k \in 1..Len(e.u2) |-> -e.u2[k]], tol) /\ Close(e.v1, [k \in 1..Len(e.v2) |-> -e.v2[k]], tol)>>}
          [] e.how = "swapped" -> {<<e.what, Close(e.u1, e.v2, tol) /\ Close(e.v1, e.u2, tol)>>}
          [] OTHER -> {<<"known_pair", FALSE>>}
    [] e.op = "average" -> {<<"mean_of_pairs", Len(e.got) = Len(e.parts[1]) /\ \A k \in 1..Len(e.got) : Near(e.got[k], RoundDiv(SumTo([j \in 1..Len(e.parts) |-> e.parts[j][k]], Len(e.parts)), Len(e.parts)), 3)>>, <<"metadata", e.meta>>}
    [] e.op = "solve" -> {<<"least_squares", LET w == Solved(e.x, e.y, e.t) IN Near(e.got[1], w[1], 1 + Abs(w[1]) \div 5000) /\ Near(e.got[2], w[2], 1 + Abs(w[2]) \div 5000)>>}
    [] e.op = "extreme" ->
        {<<"too_fast_dropped", \A k \in 1..Len(e.u) : IF TooFast(e.u[k], e.v[k], e.rows) THEN <<e.gu[k], e.gv[k], e.gw[k]>> = <<0, 0, 0>> ELSE <<e.gu[k], e.gv[k], e.gw[k]>> = <<e.u[k], e.v[k], e.w[k]>> >>}
    [] e.op = "smooth" ->
        {<<"smoothed_" \o e.method, Len(e.got) = Len(e.f) /\ \A i \in 1..Len(e.f) : Len(e.got[i]) = Len(e.f[i]) /\ \A j \in 1..Len(e.f[i]) :
             Near(e.got[i][j], IF e.method = "box" THEN BoxMean(e.f, i, j, e.r) ELSE Tent(e.f, i, j, e.r), 2)>>}
    [] e.op = "middle" -> {<<"mid_points", e.got = Middle(e.f, e.axis)>>}
    [] e.op = "accepted" -> {<<"accepts_" \o e.why, e.out = "ok">>}
    [] e.op = "rejected" -> {<<"refuses_" \o e.why, e.out = "error">>}
    [] OTHER -> {<<"known_event", FALSE>>}
Same(s0, e) == s0
INSTANCE TraceRun WITH Judge <- Clauses, Step <- Same, St0 <- 0
=============================================================================
