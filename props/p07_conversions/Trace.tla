------------------------------- MODULE Trace --------------------------------
EXTENDS Core, TraceKit
VARIABLES l, st, fails

(* Events hold one list of values per point: prob[k] the probabilities (20ths)*)
(* at point k, NaN where the point is masked.                                 *)
MaskedPt(s) == \E i \in 1..Len(s) : s[i] = Masked
CdfAt(e, k) == Below(e.prob[k], IsAbove(e.rel))
Sorted(s) == SortSeq(s, LAMBDA a, b : a < b)
Lo(e) == IF e.widen THEN Min2(e.lo, e.t[1]) ELSE e.lo
Hi(e) == IF e.widen THEN Max2(e.hi, e.t[Len(e.t)]) ELSE e.hi
Ts(e) == IF e.skip THEN e.t ELSE WithEnds(e.t, Lo(e), Hi(e))
Cs(e, c) == IF e.skip THEN c ELSE CdfEnds(c)

Clauses(s0, e) ==
  IF Has(e, "out") /\ e.out = "error" /\ e.op # "rejected" THEN {<<"completes", FALSE>>}
  ELSE CASE e.op = "prob2perc" ->
        IF Len(e.values) # Len(e.prob) \/ \E k \in 1..Len(e.values) : Len(e.values[k]) # Len(e.pn)
        THEN {<<"shape", FALSE>>}
        ELSE {<<"percentile_coord", e.pcoord = e.pn>>,
              <<"values", \A k \in 1..Len(e.values) : \A j \in 1..Len(e.pn) :
                 LET c == CdfAt(e, k)
                     below == c[Len(c)] * 5 * e.pd
                     v == e.values[k][j]
                     q == Quantile(Ts(e), Cs(e, c), e.pn[j], e.pd)
                 IN IF MaskedPt(e.prob[k]) THEN v = Masked
                    ELSE IF ~e.maskp THEN Within(v, q, e.tol)
                    ELSE IF below < e.pn[j] THEN v = Masked
                    ELSE IF below > e.pn[j] THEN Within(v, q, e.tol)
                    ELSE v = Masked \/ Within(v, q, e.tol)>>,
              <<"monotone", \A k \in 1..Len(e.values) : \A j \in 1..(Len(e.pn) - 1) :
                 (IsNum(e.values[k][j]) /\ IsNum(e.values[k][j + 1])) => e.values[k][j] <= e.values[k][j + 1]>>,
              <<"metadata", e.meta>>}
    [] e.op = "resample" ->
        IF Len(e.values) # Len(e.data) \/ \E k \in 1..Len(e.values) : Len(e.values[k]) # Len(e.pn)
        THEN {<<"shape", FALSE>>}
        ELSE {<<"percentile_coord", e.pcoord = e.pn>>,
              <<"values", \A k \in 1..Len(e.values) : \A j \in 1..Len(e.pn) :
                 LET d == e.data[k]
                     all == {d2[i] : <<d2, i>> \in {<<e.data[m], i>> : <<m, i>> \in (1..Len(e.data)) \X (1..Len(d))}}
                     nums == {v \in all : IsNum(v)}
                     lo == IF e.widen THEN Min2(e.lo, SetMin(nums)) ELSE e.lo
                     hi == IF e.widen THEN Max2(e.hi, SetMax(nums)) ELSE e.hi
                     xs == IF e.skip THEN e.ps ELSE <<0>> \o e.ps \o <<100>>
                     ys == IF e.skip THEN d ELSE <<lo>> \o d \o <<hi>>
                 IN IF MaskedPt(d) THEN e.values[k][j] = Masked
                    ELSE Within(e.values[k][j], Interp(xs, ys, e.pn[j], e.pd), e.tol)>>,
              <<"metadata", e.meta>>}
    [] e.op = "collapse" ->
        IF Len(e.values) # Len(e.data) \/ \E k \in 1..Len(e.values) : Len(e.values[k]) # Len(e.pn)
        THEN {<<"shape", FALSE>>}
        ELSE {<<"percentile_coord", e.pcoord = e.pn>>,
              <<"values", \A k \in 1..Len(e.values) : \A j \in 1..Len(e.pn) :
                 LET vals == SelectSeq(e.data[k], LAMBDA v : v # Masked)
                 IN IF vals = <<>> THEN e.values[k][j] = Masked
                    ELSE Near(e.values[k][j], Percentile100(vals, e.pn[j]), 3)>>,
              <<"metadata", e.meta>>}
    [] e.op = "rebadge" ->
        IF Len(e.values) # Len(e.data) THEN {<<"shape", FALSE>>}
        ELSE {<<"sorted_values", \A k \in 1..Len(e.values) : e.values[k] = Sorted(e.data[k])>>,
              <<"percentile_coord", \A i \in 1..Len(e.pcoord) :
                 Near(e.pcoord[i], IF e.optimal THEN RoundDiv(1000 * 100 * (2 * i - 1), 2 * Len(e.pcoord))
                                   ELSE RoundDiv(1000 * 100 * i, Len(e.pcoord) + 1), 1)>>,
              <<"metadata", e.meta>>}
    [] e.op = "between" ->
        {<<"values", /\ Len(e.values) = Len(e.ranges)
                     /\ \A r \in 1..Len(e.ranges) : \A k \in 1..Len(e.prob) :
                        IF MaskedPt(e.prob[k]) THEN e.values[r][k] = Masked
                        ELSE Near(e.values[r][k], 5000 * Between(e.t, e.prob[k], IsAbove(e.rel), e.ranges[r][1], e.ranges[r][2]), 1)>>,
         <<"thresholds", e.tpoints = [r \in 1..Len(e.ranges) |-> e.ranges[r][2]]>>,
         <<"bounds", e.tbounds = e.ranges>>,
         <<"name", e.cname = "probability_of_" \o e.diag \o "_between_thresholds">>,
         <<"attribute", e.attr = "between_thresholds">>, <<"metadata", e.meta>>}
    [] e.op = "invert" ->
        LET flip == e.want = "any" \/ IsAbove(e.rel) # (e.want = "above")
            r == IF flip THEN Inverse[e.rel] ELSE e.rel
        IN {<<"values", \A k \in 1..Len(e.prob) : \A i \in 1..Len(e.prob[k]) :
                 IF e.prob[k][i] = Masked THEN e.values[k][i] = Masked
                 ELSE Near(e.values[k][i], 5000 * (IF flip THEN U - e.prob[k][i] ELSE e.prob[k][i]), 1)>>,
            <<"attribute", e.attr = r>>,
            <<"name", e.cname = "probability_of_" \o e.diag \o (IF IsAbove(r) THEN "_above" ELSE "_below") \o "_threshold">>,
            <<"input_unchanged", e.input_same>>}
    [] e.op = "expected" ->
        {<<"values", \A k \in 1..Len(e.prob) :
             Near(e.values[k], RoundDiv(Expected2U(e.t, CdfAt(e, k)) * e.mul, 2 * U), e.tol)>>,
         <<"name", e.cname = e.diag>>, <<"units", e.units_ok>>, <<"metadata", e.meta>>}
    [] e.op = "expected_mean" ->
        {<<"values", \A k \in 1..Len(e.data) :
             Near(e.values[k], RoundDiv(SumSeq(e.data[k]), Len(e.data[k])), 2)>>,
         <<"metadata", e.meta>>}
    [] e.op = "same" -> {<<e.what, e.same>>}
    [] e.op = "rejected" -> {<<"refuses_" \o e.why, e.out = "error">>}
    [] OTHER -> {<<"known_event", FALSE>>}
Same(s0, e) == s0
INSTANCE TraceRun WITH Judge <- Clauses, Step <- Same, St0 <- 0
=============================================================================
