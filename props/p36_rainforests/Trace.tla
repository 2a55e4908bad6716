------------------------------- MODULE Trace --------------------------------
EXTENDS Core, TraceKit
VARIABLES l, st, fails
(* x[r][p] features by member and point; models[lead][threshold] forests                 *)
Member(e, m, x) == Falling([k \in 1..Len(e.thr) |-> Chance(e.models[m][k], x)])
Clauses(s0, e) ==
  IF Has(e, "out") /\ e.out = "error" /\ e.op # "rejected" THEN {<<"completes", FALSE>>}
  ELSE CASE e.op = "calibrate" ->
        LET m == NearestOf(e.leads, e.fp)
            d == [r \in 1..Len(e.x) |-> [p \in 1..Len(e.x[r]) |-> Member(e, m, e.x[r][p])]]
            want(j, p) == RoundDiv(SumTo([r \in 1..Len(e.x) |-> ChanceAt(d[r][p], e.thr, e.lower, e.outs[j])], Len(e.x)), 2 * Len(e.x))
        IN {<<"calibrated_chance", Len(e.got) = Len(e.outs) /\ \A j \in 1..Len(e.outs) : Len(e.got[j]) = Len(e.x[1]) /\ \A p \in 1..Len(e.x[1]) : Near(e.got[j][p], want(j, p), 3)>>,
            <<"falls_with_threshold", \A j \in 2..Len(e.got) : \A p \in 1..Len(e.got[j]) : e.got[j][p] <= e.got[j - 1][p] + 1>>,
            <<"metadata", e.meta>>, <<"inputs_kept", e.kept>>}
    [] e.op = "equal" -> {<<e.what, e.one = e.two>>}
    [] e.op = "rejected" -> {<<"refuses_" \o e.why, e.out = "error">>}
    [] OTHER -> {<<"known_event", FALSE>>}
Same(s0, e) == s0
INSTANCE TraceRun WITH Judge <- Clauses, Step <- Same, St0 <- 0
=============================================================================
