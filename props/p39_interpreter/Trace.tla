------------------------------- MODULE Trace --------------------------------
EXTENDS Core, TraceKit
VARIABLES l, st, fails
D(e) == [kind |-> e.kind, place |-> e.place, source |-> e.source, post |-> e.post, top |-> e.top, warn |-> e.warn, faults |-> {e.faults[k] : k \in 1..Len(e.faults)}]
Clauses(s0, e) ==
  CASE e.op = "interpret" ->
         IF Refused(D(e)) THEN {<<"fault_reported", e.out = "refused">>}
         ELSE {<<"accepted", e.out = "ok">>, <<"said", e.out = "ok" => e.said = Said(D(e), e.verbose)>>, <<"warned", e.out = "ok" => e.warned = Warned(D(e))>>}
    [] e.op = "files" ->      \* each file's description in order; what was printed of each; whether the command failed
         LET shown == SelectSeq(e.given, LAMBDA x : x.bad \/ ~e.failures_only) IN
         {<<"files_in_order", e.printed = [k \in 1..Len(shown) |-> <<shown[k].file, IF shown[k].bad THEN "Non-compliant :" ELSE shown[k].first>>]>>,
          <<"fails_if_any_does", (e.out = "refused") = (\E k \in 1..Len(e.given) : e.given[k].bad)>>}
    [] OTHER -> {<<"known_event", FALSE>>}
Same(s0, e) == s0
INSTANCE TraceRun WITH Judge <- Clauses, Step <- Same, St0 <- 0
=============================================================================
