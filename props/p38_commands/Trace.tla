------------------------------- MODULE Trace --------------------------------
EXTENDS Core, Defaults, TraceKit
VARIABLES l, st, fails
(* e.out: what the command did; e.ref: what the documented processing did with e.meaning   *)
Clauses(s0, e) ==
  CASE e.op = "command" ->
         {<<"meaning_of_options", e.meaning = Meaning(e.cmd, e.given)>>,
          IF Refuses(e.cmd, e.given) THEN <<"refused_" \o e.cmd, e.out = "error">> ELSE <<"outcome_" \o e.cmd, e.out = e.ref>>,
          <<"result_" \o e.cmd, (e.out = "ok" /\ e.ref = "ok" /\ ~Refuses(e.cmd, e.given)) => e.same>>}
    [] e.op = "wrong" -> {<<"refused_" \o e.cmd, e.out = "error">>}
    [] e.op = "declared" -> {<<"defaults_of_" \o e.cmd, IF e.cmd \in DOMAIN OptionsOf THEN OptionsOf[e.cmd] \subseteq {<<e.options[k][1], e.options[k][2]>> : k \in 1..Len(e.options)} ELSE TRUE>>}
    [] OTHER -> {<<"known_event", FALSE>>}
Same(s0, e) == s0
INSTANCE TraceRun WITH Judge <- Clauses, Step <- Same, St0 <- 0
=============================================================================
