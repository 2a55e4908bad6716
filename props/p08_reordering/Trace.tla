------------------------------- MODULE Trace --------------------------------
EXTENDS Core, TraceKit
VARIABLES l, st, fails
NoMask(s) == \A i \in 1..Len(s) : s[i] # Masked
Clauses(s0, e) ==
  IF Has(e, "out") /\ e.out = "error" /\ e.op # "rejected" THEN {<<"completes", FALSE>>}
  ELSE CASE e.op = "reorder" ->
        IF Len(e.values) # Len(e.cal) \/ \E k \in 1..Len(e.cal) : Len(e.values[k]) # Len(e.cal[k]) THEN {<<"shape", FALSE>>}
        ELSE {<<"values_dealt", \A k \in 1..Len(e.cal) : IsDeal(e.values[k], e.cal[k])>>,
              <<"order_of_raw", e.random \/ \A k \in 1..Len(e.cal) : NoMask(e.cal[k]) =>
                   Follows(e.values[k], RawOf(e.raw[k], Len(e.cal[k])))>>,
              <<"realization_numbers", e.numbers = Numbers(e.rawnumbers, Len(e.cal[1]))>>,
              <<"metadata", e.meta>>,
              <<"same_seed_same_result", e.has_again => e.again = e.values>>}
    [] e.op = "rebadge" ->
        {<<"accepted_if_even", (e.out = "ok") = EvenlySpaced(e.ps, 1000)>>,
         <<"values_kept", e.out = "ok" => e.values = e.data>>,
         <<"numbers", e.out = "ok" => e.numbers = (IF e.given = <<>> THEN [i \in 1..Len(e.ps) |-> i - 1] ELSE e.given)>>,
         <<"metadata", e.out = "ok" => e.meta>>}
    [] e.op = "sampling" ->
        {<<"count", Len(e.ps) = e.n>>,
         <<"ascending", \A i \in 1..(Len(e.ps) - 1) : e.ps[i] <= e.ps[i + 1]>>,
         <<"range", \A i \in 1..Len(e.ps) : e.ps[i] * (e.n + 1) >= 100000 - (e.n + 1) /\ e.ps[i] * (e.n + 1) <= 100000 * e.n + (e.n + 1)>>,
         <<"evenly", e.sampling = "quantile" => \A i \in 1..Len(e.ps) : Near(e.ps[i] * (e.n + 1), 100000 * i, e.n + 1)>>}
    [] e.op = "choose" ->
        {<<"picks", \A k \in 1..Len(e.index) : \A i \in 1..Len(e.index[k]) : e.values[k][i] = e.data[k][e.index[k][i] + 1]>>}
    [] e.op = "realizations" ->     \* the command: resample, then reorder or rebadge
        {<<"follows_raw", \A k \in 1..Len(e.values) : e.raw = <<>> \/ Follows(e.values[k], RawOf(e.raw[k], Len(e.values[k])))>>,
         <<"ascending_without_raw", e.raw # <<>> \/ \A k \in 1..Len(e.values) : \A i \in 1..(Len(e.values[k]) - 1) : e.values[k][i] <= e.values[k][i + 1]>>,
         <<"sorted_values", \A k \in 1..Len(e.values) : \A i \in 1..Len(e.values[k]) :
              Near(Sorted(e.values[k])[i], e.perc[k][i], 1)>>,
         <<"count", \A k \in 1..Len(e.values) : Len(e.values[k]) = e.n>>,
         <<"metadata", e.meta>>}
    [] e.op = "rejected" -> {<<"refuses_" \o e.why, e.out = "error">>}
    [] OTHER -> {<<"known_event", FALSE>>}
Same(s0, e) == s0
INSTANCE TraceRun WITH Judge <- Clauses, Step <- Same, St0 <- 0
=============================================================================
