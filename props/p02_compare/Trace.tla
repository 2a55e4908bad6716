------------------------------ MODULE Trace ---------------------------------
EXTENDS Core, TraceKit
VARIABLES l, st, fails

Opt(e) == [rtol |-> e.rtol, atol |-> e.atol, ignored |-> Range1(e.ignored),
           excl |-> Range1(e.excl)]

Clauses(s0, e) ==
  IF e.out = "error" THEN {<<"completes", FALSE>>}
  ELSE LET must == Must(e.f, e.g, Opt(e))
           edge == Edge(e.f, e.g, Opt(e))
           said == Range1(e.said)      \* names mentioned in a report
       IN {<<"identical_is_silent", must = {} /\ edge = {} => e.nreports = 0>>,
           <<"difference_is_reported", must # {} => e.nreports > 0>>,
           <<"every_difference_named", must \subseteq said>>,
           <<"raises_by_default", e.via = "command" \/ ((must # {} => e.raises = "ValueError")
                                  /\ (must = {} /\ edge = {} => e.raises = "none"))>>}
Same(s0, e) == s0
INSTANCE TraceRun WITH Judge <- Clauses, Step <- Same, St0 <- 0
=============================================================================
