------------------------------- MODULE Trace --------------------------------
EXTENDS Core, TraceKit
VARIABLES l, st, fails
(* v[k][p]: by threshold and point; c[p]                                                  *)
Clauses(s0, e) ==
  IF Has(e, "out") /\ e.out = "error" /\ e.op # "rejected" THEN {<<"completes", FALSE>>}
  ELSE CASE e.op = "combine" ->
        {<<"raised_by_cloud", Len(e.got) = Len(e.v) /\ \A k \in 1..Len(e.v) : Len(e.got[k]) = Len(e.c) /\ \A p \in 1..Len(e.c) :
             IF Masked \in {e.v[k][p], e.c[p]} THEN TRUE ELSE Near(e.got[k][p], Raised(e.v[k][p], e.vabove, e.c[p], e.cabove, e.t[k], e.full, e.start), 3)>>,
         <<"metadata", e.meta>>, <<"inputs_kept", e.kept>>}
    [] e.op = "rejected" -> {<<"refuses_" \o e.why, e.out = "error">>}
    [] OTHER -> {<<"known_event", FALSE>>}
Same(s0, e) == s0
INSTANCE TraceRun WITH Judge <- Clauses, Step <- Same, St0 <- 0
=============================================================================
