------------------------------- MODULE Trace --------------------------------
EXTENDS Core, TraceKit
VARIABLES l, st, fails
Pts(q) == 1..Len(q)
Clauses(s0, e) ==
  CASE e.op = "fraction" ->
        IF e.out = "error" THEN {<<"completes", FALSE>>}
        ELSE {<<"snow_share", Len(e.got) = Len(e.rain) /\ \A k \in Pts(e.rain) : Len(e.got[k]) = Len(e.rain[k])
                 /\ Filled(e.rain[k], e.snow[k], e.nx, e.got[k], 3)>>, <<"described", e.meta>>}
    [] e.op = "mask" ->
        {<<"mask_marks_phase", e.out = "ok" /\ Len(e.got) = Len(e.frac) /\ \A i \in Pts(e.frac) :
             e.got[i] = (IF Phase(e.frac[i]) = e.phase THEN 1 ELSE 0)>>, <<"described", e.meta>>}
    [] e.op = "surface" ->
        IF e.pcts # <<>> /\ PctOf(e.kind) \notin Range1(e.pcts) THEN {<<"missing_percentile_refused", e.out = "error">>}
        ELSE IF e.out = "error" THEN {<<"completes", FALSE>>}
        ELSE LET lv == IF e.pcts = <<>> THEN e.level[1] ELSE e.level[IndexOf(e.pcts, PctOf(e.kind))]
                 na == Len(e.alt)
             IN {<<"phase_reaches_surface", Len(e.got) = Len(lv) /\ \A i \in Pts(lv) :
                    IF ~IsNum(lv[i]) THEN ~IsNum(e.got[i])
                    ELSE e.got[i] = (IF Reaches(e.kind, e.alt[((i - 1) % na) + 1], lv[i]) THEN 1 ELSE 0)>>,
                 <<"described", e.meta>>, <<"inputs_untouched", e.same>>}
    [] e.op = "split" ->
        IF \E i \in Pts(e.rain) : e.rain[i] + e.snow[i] > 1 THEN {<<"both_phases_refused", e.out = "error">>}
        ELSE IF e.out = "error" THEN {<<"completes", FALSE>>}
        ELSE LET mine == IF e.israin THEN e.rain ELSE e.snow
                 other == IF e.israin THEN e.snow ELSE e.rain
                 n == Len(mine)
                 at(i) == ((i - 1) % n) + 1
             IN {<<"its_part_of_precipitation", Len(e.got) = Len(e.precip) /\ \A i \in Pts(e.precip) :
                    IF IsNum(e.precip[i]) THEN Near(e.got[i], 50 * Part(e.precip[i], mine[at(i)], other[at(i)]), 1)
                    ELSE ~IsNum(e.got[i])>>, <<"described", e.meta>>, <<"inputs_untouched", e.same>>}
    [] e.op = "sleet" ->
        IF \E i \in Pts(e.rain) : Sleet(e.rain[i], e.snow[i], e.one) < 0 THEN {<<"negative_sleet_refused", e.out = "error">>}
        ELSE {<<"remaining_probability", e.out = "ok" /\ Len(e.got) = Len(e.rain) /\ \A i \in Pts(e.rain) :
                 e.got[i] = Sleet(e.rain[i], e.snow[i], e.one)>>, <<"described", e.meta>>, <<"inputs_untouched", e.same>>}
    [] e.op = "freezing" ->
        (* r[m][p]: member m, threshold-and-place p; t[m][q]: place q                   *)
        IF e.ri # <<>> /\ Common(e.ri, e.si, e.ti) = {} THEN {<<"no_common_member_refused", e.out = "error">>}
        ELSE IF e.out = "error" THEN {<<"completes", FALSE>>}
        ELSE LET nt == Len(e.ft[1])
                 one(q) == IF q = <<>> THEN <<0>> ELSE q
                 want(i) == LET j == ((i - 1) % nt) + 1 IN
                            Freezing(one(e.ri), one(e.si), one(e.ti), Tup([m \in Pts(e.fr) |-> e.fr[m][i]]), Tup([m \in Pts(e.fs) |-> e.fs[m][i]]),
                                     Tup([m \in Pts(e.ft) |-> IF e.above THEN 16 - e.ft[m][j] ELSE e.ft[m][j]]))
             IN {<<"rain_or_sleet_below_freezing", Len(e.got) = Len(e.fr[1]) /\ \A i \in Pts(e.got) : Near(e.got[i], want(i), 2)>>,
                 <<"described", e.meta>>}
    [] e.op = "hail" ->
        {<<"hail_share", e.out = "ok" /\ Len(e.got) = Len(e.h) /\ \A i \in Pts(e.h) : LET h == e.h[i] IN
             Near(e.got[i], Hail(h[1], h[2], h[3], h[4], h[5], h[6]), 2)>>, <<"described", e.meta>>}
    [] e.op = "showers" ->
        IF e.out = "error" THEN {<<"completes", FALSE>>}
        ELSE {<<"share_of_members_showery", Len(e.got) = Len(e.c[1]) /\ \A i \in Pts(e.got) :
                 Near(e.got[i], Showers(Tup([m \in Pts(e.c) |-> e.c[m][i]]), Tup([m \in Pts(e.v) |-> e.v[m][i]]), e.ct, e.vt), 2)>>,
              <<"described", e.meta>>}
    [] e.op = "convective" ->
        {<<"convective_share", e.out = "ok" /\ Len(e.got) = Len(e.c) /\ \A i \in Pts(e.c) :
             Near(e.got[i], Convective(e.c[i], e.d[i]), 3)>>, <<"described", e.meta>>, <<"inputs_untouched", e.same>>}
    [] e.op = "relabel" -> {<<"relabelled", e.out = "ok" /\ e.got = e.data /\ e.meta>>, <<"inputs_untouched", e.same>>}
    [] e.op = "rejected" -> {<<"refused_" \o e.why, e.out = "error">>}
Same(s0, e) == s0
INSTANCE TraceRun WITH Judge <- Clauses, Step <- Same, St0 <- 0
=============================================================================
