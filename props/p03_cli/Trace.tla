------------------------------ MODULE Trace ---------------------------------
EXTENDS Core, TraceKit
VARIABLES l, st, fails

(* Trees are recorded as their tokens, every list bracketed.                  *)
Clauses(s0, e) ==
  LET q == IF e.op \in {"read", "run"} THEN Parse(e.toks) ELSE P0 IN
  CASE e.op = "read" ->
        IF q.bad # -1 THEN {<<"refuses_unbalanced", e.out = "error">>,
                            <<"error_position", e.out = "error" => e.errpos = q.bad>>}
        ELSE {<<"accepts_balanced", e.out = "ok">>,
              <<"tree", e.out = "ok" => e.tree = Unparse(q.cur) /\ e.depth_ok>>}
    [] e.op = "run" ->
        {<<"completes", e.out = "ok">>,
         <<"calls", e.out = "ok" => e.calls = IF e.dry THEN <<>> ELSE Run(q.cur, <<>>)>>,
         <<"result", (e.out = "ok" /\ ~e.dry) => e.result = Len(Run(q.cur, <<>>))>>,
         <<"program_name", e.out = "ok" => e.prog_ok>>}
    [] e.op = "pipeline" ->
        {<<"completes", e.out = "ok">>,
         <<"bracketed_same_as_files", e.out = "ok" => e.same>>,
         <<"output_written", e.out = "ok" => e.written>>,
         <<"no_leftovers", e.out = "ok" => e.leftovers = <<>>>>}
    [] e.op = "output" ->
        {<<"completes", e.out = "ok">>,
         <<"returns", e.out = "ok" =>
             e.returned = IF ~e.has_output \/ e.empty THEN "result"
                          ELSE IF e.passthrough THEN "wrapped" ELSE "nothing">>,
         <<"file", e.out = "ok" => (e.file <=> (e.has_output /\ ~e.empty))>>,
         <<"file_content", e.out = "ok" /\ e.file => e.content_same>>}
    [] e.op = "convert" ->
        {<<"converted", e.got = e.want>>, <<"objects_pass_through", e.passed>>}
    [] OTHER -> {<<"known_event", FALSE>>}

Same(s0, e) == s0
INSTANCE TraceRun WITH Judge <- Clauses, Step <- Same, St0 <- 0
=============================================================================
