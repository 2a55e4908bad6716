------------------------------- MODULE Trace --------------------------------
EXTENDS Core, TraceKit
VARIABLES l, st, fails
Pts(e) == 1..Len(e.f)
Clauses(s0, e) ==
  CASE e.op = "enforce" ->
        IF ~Good(e.bs) THEN {<<"bad_configuration_refused", e.out = "error">>}
        ELSE IF \E i \in Pts(e) : Contradict(e.r[i], e.bs) THEN {<<"contradictory_bounds_refused", e.out = "error">>}
        ELSE IF e.out = "error" THEN {<<"completes", FALSE>>}
        ELSE {<<"held_to_bounds", Len(e.got) = Len(e.f) /\ \A i \in Pts(e) :
                 IF IsNum(e.f[i]) /\ ~IsNum(e.r[i]) THEN ~IsNum(e.got[i]) \/ Near(e.got[i], Fine(e.f[i]), 1)
                 ELSE IF e.f[i] = Masked THEN e.got[i] = Masked
                 ELSE IF e.f[i] = NaN THEN ~IsNum(e.got[i])
                 ELSE Near(e.got[i], Held(e.f[i], e.r[i], e.bs), 1)>>,
              <<"warned", e.limit < 0 \/ (\E i \in Pts(e) : ~IsNum(e.f[i]) \/ ~IsNum(e.r[i])) \/ e.warned =
                 (\E i \in Pts(e) : 2 * Abs(Held(e.f[i], e.r[i], e.bs) - Fine(e.f[i])) > e.limit)>>,
              <<"described", e.meta>>, <<"forecast_untouched", e.same>>}
    [] e.op = "normalise" ->
        IF Len(e.p) < 2 THEN {<<"single_forecast_refused", e.out = "error">>}
        ELSE LET at(i) == Tup([k \in 1..Len(e.p) |-> e.p[k][i]])
             IN IF ~e.ignore /\ \E i \in 1..Len(e.r) : Unshared(at(i), e.r[i]) THEN {<<"zero_total_refused", e.out = "error">>}
                ELSE IF e.out = "error" THEN {<<"completes", FALSE>>}
                ELSE {<<"shared_in_proportion", Len(e.got) = Len(e.p) /\ \A k \in 1..Len(e.p) : Len(e.got[k]) = Len(e.r) /\ \A i \in 1..Len(e.r) :
                         IF Whole(at(i)) /\ IsNum(e.r[i]) THEN Near(e.got[k][i], Share(at(i), k, e.r[i]), 2)
                         ELSE ~IsNum(e.got[k][i])>>,
                      <<"described", e.meta>>, <<"inputs_untouched", e.same>>}
    [] e.op = "normalise_cli" ->
        LET names == e.names
            refs == Named(names, e.ref)
            rets == SelectSeq(names, LAMBDA x : x = e.ret /\ x # e.ref)
            ri == CHOOSE i \in 1..Len(names) : names[i] = e.ref
            ki == CHOOSE i \in 1..Len(names) : names[i] = e.ret
            parts == SelectSeq(Tup([i \in 1..Len(names) |-> i]), LAMBDA i : names[i] # e.ref)
        IN IF Len(refs) # 1 \/ Len(rets) # 1 \/ Len(parts) < 2 THEN {<<"ambiguous_names_refused", e.out = "error">>}
           ELSE {<<"named_share", e.out = "ok" /\ e.name_got = e.ret /\ Near(e.got, RoundDiv(1000 * e.vals[ri] * e.vals[ki],
                    SumTo([j \in 1..Len(parts) |-> e.vals[parts[j]]], Len(parts))), 2)>>}
    [] e.op = "flatten" ->
        LET s == Leaves(e.tree) IN
        IF s = <<>> \/ \E i \in 1..Len(s) : s[i] = "junk" THEN {<<"not_cubes_refused", e.out = "error">>}
        ELSE {<<"all_cubes_in_order", e.out = "ok" /\ e.got = s>>}
    [] e.op = "single" ->
        IF e.fits THEN {<<"merged_to_one", e.out = "ok" /\ e.got = e.vals>>}
        ELSE {<<"unmergeable_refused", e.out = "error">>}
    [] e.op = "enforce_cli" -> {<<"reference_by_name", e.out = "ok" /\ e.got = e.want>>}
    [] e.op = "rejected" -> {<<"refused_" \o e.why, e.out = "error">>}
    [] e.op = "rearranged" -> {<<"paired_by_place_or_refused", e.out = "error" \/ e.got = e.want>>}
Same(s0, e) == s0
INSTANCE TraceRun WITH Judge <- Clauses, Step <- Same, St0 <- 0
=============================================================================
