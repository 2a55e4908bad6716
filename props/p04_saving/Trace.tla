------------------------------ MODULE Trace ---------------------------------
EXTENDS Core, TraceKit
VARIABLES l, st, fails

Op(e) == [kind |-> IF e.kind = "ok" /\ ~(\A i \in 1..Len(e.cubes) : CubeOk(e.cubes[i]))
                   THEN "bad" ELSE e.kind, v |-> e.v]
Clauses(held, e) ==
  CASE e.op = "init" -> {}
    [] e.op = "save" ->
        LET o == Op(e) IN
        {<<"destination_complete", e.holds # -1>>,
         <<"destination_old_or_new", e.holds \in After(held, o) \cup {-1}>>,
         <<"valid_cube_saved", o.kind = "ok" => e.out = "ok">>,
         <<"invalid_cube_refused", o.kind = "bad" => e.out = "error">>,
         <<"nothing_left_over", e.out = "ok" => e.extra = <<>>>>}
    [] e.op = "load" ->
        {<<"load_finds_what_was_saved", e.got = held>>,
         <<"data", e.data_same>>, <<"name_units", e.id_same>>, <<"attributes", e.attrs_same>>,
         <<"coordinates", e.coords_same>>, <<"dimension_order", e.dims_ok>>,
         <<"cell_methods", e.methods_same>>, <<"data_type", e.dtype_same>>,
         <<"placed_attributes", e.global_ok>>}
    [] OTHER -> {<<"known_event", FALSE>>}
Step0(held, e) == IF e.op = "init" THEN 0 ELSE IF e.op = "save" THEN e.holds ELSE held
INSTANCE TraceRun WITH Judge <- Clauses, Step <- Step0, St0 <- 0
=============================================================================
