------------------------------- MODULE Trace --------------------------------
EXTENDS Core, TraceKit
VARIABLES l, st, fails
(* forecasts fs: [time, frt, v]; truths ts: [time, v]; v by place                        *)
At(ts, t) == ts[CHOOSE k \in 1..Len(ts) : ts[k].time = t]
Matched(fs, ts) == SelectSeq(fs, LAMBDA f : \E k \in 1..Len(ts) : ts[k].time = f.time)
BiasAt(m, ts, p) == Bias([k \in 1..Len(m) |-> m[k].v[p]], [k \in 1..Len(m) |-> At(ts, m[k].time).v[p]])
(* rows f, t: [time, site, v]; n: [site, d]                                              *)
PairsOf(f, t, n) ==
  LET has(k) == (\E j \in 1..Len(t) : t[j].time = f[k].time /\ t[j].site = f[k].site) /\ (\E j \in 1..Len(n) : n[j].site = f[k].site)
      tv(k) == t[CHOOSE j \in 1..Len(t) : t[j].time = f[k].time /\ t[j].site = f[k].site].v
      dv(k) == n[CHOOSE j \in 1..Len(n) : n[j].site = f[k].site].d
      idx == SelectSeq([k \in 1..Len(f) |-> k], has)
  IN [q \in 1..Len(idx) |-> [f |-> f[idx[q]].v, t |-> tv(idx[q]), d |-> dv(idx[q])]]
FactorOk(got, s, d) ==
  IF Abs(s) > 25000000 \/ Abs(s) * Abs(d) > 25000000 THEN (IF s = 0 \/ d = 0 THEN Near(got, 10000, 10) ELSE IF (s < 0) # (d < 0) THEN got > 9990 ELSE got < 10010)
  ELSE LET w == Factor(s, d) IN Near(got, w, 6 + w \div 250)
Clauses(s0, e) ==
  IF Has(e, "out") /\ e.out = "error" /\ e.op \notin {"rejected", "rescale"} THEN {<<"completes", FALSE>>}
  ELSE CASE e.op = "bias" ->
        LET m == Matched(e.fs, e.ts)
            r == {m[k].frt : k \in 1..Len(m)}
        IN {<<"mean_error", Len(m) > 0 /\ Len(e.got) = Len(e.fs[1].v) /\ \A p \in 1..Len(e.got) : LET w == BiasAt(m, e.ts, p) IN IF w = Masked THEN e.got[p] = Masked ELSE Near(e.got[p], w, 1)>>,
            <<"reference_times", e.point = SetMax(r) /\ (IF e.dim THEN e.lo = SetMin(r) /\ e.hi = SetMax(r) ELSE e.lo = NaN /\ e.hi = NaN)>>,
            <<"metadata", e.meta>>, <<"inputs_kept", e.kept>>}
    [] e.op = "corrected" ->
        {<<"less_the_bias", Len(e.got) = Len(e.f) /\ \A i \in 1..Len(e.f) : Len(e.got[i]) = Len(e.f[i]) /\ \A p \in 1..Len(e.f[i]) :
             LET w == Corrected(e.f[i][p], Mean([k \in 1..Len(e.biases) |-> e.biases[k][p]]), e.fill, e.lo, e.hi) IN IF w = Masked THEN e.got[i][p] = Masked ELSE Near(e.got[i][p], w, 2)>>,
         <<"metadata", e.meta>>, <<"inputs_kept", e.kept>>}
    [] e.op = "uncorrected" -> {<<"unchanged", e.got = e.f>>, <<"says_so", e.comment>>}
    [] e.op = "fit" ->
        LET u == Used(PairsOf(e.f, e.t, e.n), e.lo, e.hi) IN
        {<<"rescaling_factor", (Len(u) > 1 /\ Spread(u)) => Len(e.got) = Len(e.n) /\ LET s == Slope(u) IN \A k \in 1..Len(e.n) : FactorOk(e.got[k], s, Held(e.n[k].d, e.lo, e.hi))>>,
         <<"metadata", e.meta>>, <<"inputs_kept", e.kept>>}
    [] e.op = "rescale" ->
        LET hr == HourUsed(e.hours, e.h, e.len)
            fp == LeadUsed(e.fps, e.fp)
            a == CHOOSE k \in 1..Len(e.hours) : e.hours[k] = hr
            b == CHOOSE k \in 1..Len(e.fps) : e.fps[k] = fp
        IN IF hr = -1 THEN {<<"refuses_other_hours", e.out = "error">>}
           ELSE {<<"rescaled", e.out = "ok" /\ Len(e.got) = Len(e.f) /\ \A i \in 1..Len(e.f) : Len(e.got[i]) = Len(e.f[i]) /\ \A p \in 1..Len(e.f[i]) :
                    Near(e.got[i][p], RoundDiv(e.f[i][p] * e.table[a][b][p], 1000), 2)>>,
                 <<"metadata", e.out = "ok" /\ e.meta>>}
    [] e.op = "equal" -> {<<e.what, e.one = e.two>>}
    [] e.op = "rejected" -> {<<"refuses_" \o e.why, e.out = "error">>}
    [] OTHER -> {<<"known_event", FALSE>>}
Same(s0, e) == s0
INSTANCE TraceRun WITH Judge <- Clauses, Step <- Same, St0 <- 0
=============================================================================
