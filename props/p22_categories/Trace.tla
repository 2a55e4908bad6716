------------------------------- MODULE Trace --------------------------------
EXTENDS Core, TraceKit
VARIABLES l, st, fails
Clauses(s0, e) ==
  CASE e.op = "categorise" ->
        LET absent == Range1(e.absent) IN
        IF Lost(e.tree, absent) THEN {<<"missing_diagnostic_refused", e.out = "error">>}
        ELSE IF e.out = "error" THEN {<<"completes", FALSE>>}
        ELSE {<<"category_walked_to", Len(e.got) = Len(e.v) /\ \A i \in 1..Len(e.v) :
                 e.got[i] \in Categories(e.tree, e.start, absent, e.v[i], e.day[i])>>,
              <<"described", e.meta>>, <<"inputs_untouched", e.same>>}
    [] e.op = "period" ->
        IF e.out = "error" THEN {<<"completes", FALSE>>}
        ELSE {<<"inputs_untouched", e.same>>, <<"period_category", Len(e.got) = Len(e.s) /\ \A i \in 1..Len(e.s) : e.got[i] = Period(e.s[i], e.nights, e.groups)>>,
              <<"described", e.meta>>}
    [] e.op = "runs" ->
        {<<"runs_of_every_input_once", Range1(e.got) = Runs(e.ins)>>,
         <<"runs_in_order", \A i \in 1..(Len(e.got) - 1) : e.got[i] < e.got[i + 1]>>,
         <<"without_weights", e.plain>>, <<"nothing_left", ~e.left>>}
    [] e.op = "rejected" -> {<<"refused_" \o e.why, e.out = "error">>}
    [] e.op = "check" ->
        IF e.sound THEN {<<"sound_tree_accepted", e.out = "ok" /\ e.fine>>, <<"needs_listed", e.needs = e.listed>>}
        ELSE {<<"unsound_tree_reported_" \o e.why, e.out = "error" \/ (~e.fine /\ e.mentions)>>}
Same(s0, e) == s0
INSTANCE TraceRun WITH Judge <- Clauses, Step <- Same, St0 <- 0
=============================================================================
