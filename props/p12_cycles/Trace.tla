------------------------------- MODULE Trace --------------------------------
EXTENDS Core, TraceKit
VARIABLES l, st, fails
Clauses(s0, e) ==
  IF Has(e, "out") /\ e.out = "error" /\ e.op \notin {"rejected", "nearest"} THEN {<<"completes", FALSE>>}
  ELSE CASE e.op = "cycletime" ->
        LET m == Minutes(e.date[1], e.date[2], e.date[3], e.date[4], e.date[5])
        IN {<<"read", e.parts = e.date>>, <<"written_back", e.text = e.back>>,
            <<"minutes_since_1970", e.minutes = m>>, <<"number_of_hours", e.hours60 = m>>,
            <<"number_of_seconds", e.secs60 = m /\ e.whole>>,
            <<"blend_time", e.blend = m /\ e.blend_std>>}
    [] e.op = "lead" ->
        {<<"lead_times", e.fp = Lead(e.ts, e.frts)>>, <<"lead_bounds", e.fb = LeadBounds(e.tb, e.frts)>>,
         <<"standard_types", e.std>>, <<"input_untouched", e.same>>}
    [] e.op = "kept_lead" -> {<<"existing_lead_time", e.same>>}
    [] e.op = "rebadged" ->
        LET c == IF e.cycle = -1 THEN Latest(e.fs) ELSE e.cycle
            w == Rebadged(e.fs, c)
        IN {<<"cycle_and_lead_times", e.outs = w>>, <<"standard_types", e.std>>, <<"data_kept", e.data>>,
            <<"inputs_untouched", e.same>>}
    [] e.op = "rebadged_alone" -> {<<"alone_unchanged", e.same>>}
    [] e.op = "lagged" ->
        LET L == Lagged(e.ms)
        IN {<<"members", Len(e.reals) = Len(L) /\ \A i \in 1..Len(L) : e.reals[i] = L[i].r /\ e.who[i] = L[i].m>>,
            <<"cycle", e.frt = SetMax(Range1(e.frts)) /\ e.fp = e.t - e.frt
                      /\ e.fb = (IF e.tb = <<>> THEN <<>> ELSE LeadBounds(<<e.tb>>, <<e.frt>>)[1])>>,
            <<"metadata", e.meta>>, <<"inputs_untouched", e.same>>}
    [] e.op = "at_time" ->
       LET hour(m) == m \div 60
           in == {k \in 1..Len(e.ts) : IF e.till < 0 THEN hour(e.ts[k]) = hour(e.t) ELSE hour(e.ts[k]) >= hour(e.t) /\ hour(e.ts[k]) < hour(e.till)}
       IN {<<"cube_of_the_hour", IF Cardinality(in) = 1 THEN e.got \in in ELSE e.got = -1>>}
    [] e.op = "nearest" ->
        LET n == Nearest(e.ts, e.t)
        IN {<<"within_allowed", e.out = (IF n * 60 > e.allowed THEN "error" ELSE "ok")>>,
            <<"nearest", e.out = "ok" => e.got \in Range1(e.ts) /\ Abs(e.got - e.t) = n>>,
            <<"its_data", e.out = "ok" => e.data>>}
    [] e.op = "relabelled" ->
        {<<"period", e.tb = <<e.t - 60 * e.period, e.t>> /\ e.fb = <<e.fp - 60 * e.period, e.fp>>>>,
         <<"point_kept", e.t = e.t0 /\ e.fp = e.fp0>>, <<"standard_types", e.std>>, <<"data_kept", e.data>>}
    [] e.op = "integrated" ->
        {<<"times_the_period", Len(e.got) = Len(e.v) /\ \A k \in 1..Len(e.v) : Len(e.got[k]) = Len(e.v[k])
             /\ \A i \in 1..Len(e.v[k]) : Near(e.got[k][i], e.v[k][i] * (e.tb[k][2] - e.tb[k][1]), 0)>>,
         <<"units_and_name", e.named>>, <<"cell_methods", e.cells>>, <<"times_kept", e.times>>,
         <<"input_untouched", e.same>>}
    [] e.op = "rejected" -> {<<"refuses_" \o e.why, e.out = "error">>}
    [] OTHER -> {<<"known_event", FALSE>>}
Same(s0, e) == s0
INSTANCE TraceRun WITH Judge <- Clauses, Step <- Same, St0 <- 0
=============================================================================
