------------------------------- MODULE Trace --------------------------------
EXTENDS Core, TraceKit
VARIABLES l, st, fails
Pts(q) == 1..Len(q)
(* cols[i]; h[i] the heights of column i; u[t][i], got[t][i] over heights *)
ColOk(e, t, i) == \A j \in Pts(e.h[i]) :
   Near(e.got[t][i][j], Corrected(e.cols[i], e.h[i], e.u[t][i], j, e.ppres, e.modres), Slack(e.cols[i], e.h[i], e.u[t][i], j, e.ppres, e.modres))
Clauses(s0, e) ==
  CASE e.op = "downscale" ->
        IF e.out = "error" THEN {<<"completes", FALSE>>}
        ELSE {<<"columns_corrected", Len(e.got) = Len(e.u) /\ \A t \in Pts(e.u) : Len(e.got[t]) = Len(e.cols) /\ \A i \in Pts(e.cols) : Len(e.got[t][i]) = Len(e.h[i]) /\ ColOk(e, t, i)>>,
              <<"described", e.meta>>, <<"inputs_untouched", e.same>>}
    [] e.op = "level" ->
        IF ~(\E j \in Pts(e.h) : e.h[j] = e.want) THEN {<<"unknown_height_refused", e.out = "error">>}
        ELSE IF e.out = "error" THEN {<<"completes", FALSE>>}
        ELSE {<<"height_asked_for", LET j == CHOOSE k \in Pts(e.h) : e.h[k] = e.want IN Len(e.got) = Len(e.u) /\ \A t \in Pts(e.u) : \A i \in Pts(e.cols) :
                  Near(e.got[t][i], Corrected(e.cols[i], e.h, e.u[t][i], j, e.ppres, e.modres), Slack(e.cols[i], e.h, e.u[t][i], j, e.ppres, e.modres))>>,
              <<"described", e.meta>>}
    [] e.op = "rejected" -> {<<"refused_" \o e.why, e.out = "error">>}
Same(s0, e) == s0
INSTANCE TraceRun WITH Judge <- Clauses, Step <- Same, St0 <- 0
=============================================================================
