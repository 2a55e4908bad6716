------------------------------- MODULE Trace --------------------------------
EXTENDS Core, TraceKit
VARIABLES l, st, fails
Pts(q) == 1..Len(q)
(* forecast times that have a truth, and the truth of each; times without any       *)
(* forecast at all are passed over                                                  *)
Matched(e) == {k \in Pts(e.ft) : e.ft[k] \in Range1(e.tt) /\ \E h \in Pts(e.f) : \E p \in Pts(e.f[1][1]) : e.f[h][k][p] # NaN}
Order(e) == LET has(k) == k \in Matched(e) IN SelectSeq([k \in Pts(e.ft) |-> k], has)
TruthAt(e, k) == CHOOSE j \in Pts(e.tt) : e.tt[j] = e.ft[k]
Place(e, h, p) == LET o == Order(e) IN
  <<Tup([i \in Pts(o) |-> e.f[h][o[i]][p]]), Tup([i \in Pts(o) |-> e.t[h][TruthAt(e, o[i])][p]])>>
AnyMasked(e) == \E h \in Pts(e.t) : \E k \in Matched(e) : \E p \in Pts(e.t[h][1]) : ~IsNum(e.t[h][TruthAt(e, k)][p])
Want(e, h, b, p) == LET q == Place(e, h, p) IN
  IF AnyMasked(e) /\ Unseen(q[2]) THEN <<Masked, Masked, Masked>> ELSE Table(q[1], q[2], b, e.nb, e.lo, e.hi)
Match3(got, want) == Near(got[1], want[1], 0) /\ Near(got[2], want[2], 6) /\ Near(got[3], want[3], 0)
SumP(e, h, b) == LET n == Len(e.f[1][1])
                     w == Tup([p \in 1..n |-> Want(e, h, b, p)])
                     ok == {p \in 1..n : IsNum(w[p][3])}
                 IN IF ok = {} THEN <<Masked, Masked, Masked>>
                    ELSE Tup([r \in 1..3 |-> SumOver(Tup([p \in 1..n |-> w[p][r]]), ok)])
MSum(q) == LET ok == {i \in Pts(q) : IsNum(q[i])} IN IF ok = {} THEN Masked ELSE SumOver(q, ok)
Bounds(b) == <<SetMin({b[i][1] : i \in Pts(b)}), SetMax({b[i][2] : i \in Pts(b)})>>
Col(e, p) == LET c == Tup([h \in Pts(e.x) |-> Calib(e.x[h][p], e.tabs[h])]) IN
             IF \E h \in Pts(c) : ~IsNum(c[h]) THEN c ELSE IF e.above THEN Rev(Sort(c)) ELSE Sort(c)
Clauses(s0, e) ==
  CASE e.op = "construct" ->
        IF Matched(e) = {} THEN {<<"no_common_time_refused", e.out = "error">>}
        ELSE IF e.out = "error" THEN {<<"completes", FALSE>>}
        ELSE {<<"forecasts_and_truths_counted",
                IF e.agg THEN \A h \in Pts(e.f) : \A b \in 1..e.nb : Match3(e.got[h][b][1], SumP(e, h, b))
                ELSE \A h \in Pts(e.f) : \A b \in 1..e.nb : \A p \in Pts(e.f[1][1]) : Match3(e.got[h][b][p], Want(e, h, b, p))>>,
              <<"described", e.meta>>, <<"cycles_recorded", e.frt = <<SetMin({e.ft[k] : k \in Matched(e)}), SetMax({e.ft[k] : k \in Matched(e)})>> >>,
              <<"inputs_untouched", e.same>>}
    [] e.op = "aggregate" ->
        IF ~Apart(e.frts) THEN {<<"shared_cycles_refused", e.out = "error">>}
        ELSE IF e.out = "error" THEN {<<"completes", FALSE>>}
        ELSE {<<"tables_added", Len(e.got) = (IF e.over THEN 1 ELSE Len(e.tabs[1])) /\ \A p \in Pts(e.got) : \A i \in Pts(e.got[p]) :
                 e.got[p][i] = MSum(IF e.over THEN Tup([k \in 1..(Len(e.tabs) * Len(e.tabs[1])) |-> e.tabs[((k - 1) % Len(e.tabs)) + 1][((k - 1) \div Len(e.tabs)) + 1][i]])
                                    ELSE Tup([k \in Pts(e.tabs) |-> e.tabs[k][p][i]]))>>,
              <<"cycles_recorded", e.frt = Bounds(e.frts)>>, <<"described", e.meta>>, <<"inputs_untouched", e.same>>}
    [] e.op = "manipulate" ->
        IF e.min < 1 THEN {<<"no_minimum_refused", e.out = "error">>}
        ELSE IF e.out = "error" THEN {<<"completes", FALSE>>}
        ELSE {<<"bins_combined", Len(e.got) = Len(e.tabs) /\ \A h \in Pts(e.tabs) : LET m == Manip(e.tabs[h], e.min) IN
                 Len(e.got[h]) = Len(m[1]) /\ \A i \in Pts(m[1]) : e.got[h][i][2] = m[1][i][2] /\ e.got[h][i][3] = m[1][i][3]
                                                                  /\ e.got[h][i][4] = m[1][i][4] /\ e.got[h][i][5] = m[1][i][5]>>,
              <<"frequency_never_falls", Len(e.got) = Len(e.tabs) /\ \A h \in Pts(e.tabs) : LET m == Manip(e.tabs[h], e.min) IN
                 Len(e.got[h]) = Len(m[1]) /\ \A i \in Pts(m[1]) :
                   Near(e.got[h][i][1], IF m[2][i][2] = 0 THEN 0 ELSE RoundDiv(10000 * m[2][i][1] * m[1][i][3], m[2][i][2]), 2)>>,
              <<"described", e.meta>>, <<"inputs_untouched", e.same>>}
    [] e.op = "apply" ->
        IF \E h \in Pts(e.tabs) : e.tabs[h] = <<>> THEN {<<"no_table_refused", e.out = "error">>}
        ELSE IF e.out = "error" THEN {<<"completes", FALSE>>}
        ELSE {<<"calibrated_in_order", Len(e.got) = Len(e.x) /\ \A p \in Pts(e.x[1]) : LET c == Col(e, p) IN \A h \in Pts(e.x) : Near(e.got[h][p], c[h], 8)>>,
              <<"described", e.meta>>, <<"inputs_untouched", e.same>>}
    [] e.op = "pointwise" ->
        (* tabs[p][h]                                                                   *)
        IF e.out = "error" THEN {<<"completes", FALSE>>}
        ELSE {<<"each_place_by_its_own_table", Len(e.got) = Len(e.x) /\ \A p \in Pts(e.x[1]) :
                 LET c == Col([x |-> e.x, tabs |-> e.tabs[p], above |-> e.above], p) IN \A h \in Pts(e.x) : Near(e.got[h][p], c[h], 8)>>,
              <<"described", e.meta>>, <<"inputs_untouched", e.same>>}
    [] e.op = "unchanged" -> {<<"unchanged_" \o e.why, e.out = "ok">>}
    [] e.op = "rejected" -> {<<"refused_" \o e.why, e.out = "error">>}
Same(s0, e) == s0
INSTANCE TraceRun WITH Judge <- Clauses, Step <- Same, St0 <- 0
=============================================================================
