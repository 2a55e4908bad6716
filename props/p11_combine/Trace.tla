------------------------------- MODULE Trace --------------------------------
EXTENDS Core, TraceKit
VARIABLES l, st, fails
Coord(e) == IF e.op_name \in {"*", "multiply"} \/ ~e.expand THEN [i \in 1..Len(e.coords) |-> e.coords[i].ins[1]]
            ELSE [i \in 1..Len(e.coords) |-> Expanded(e.coords[i].ins)]
Clauses(s0, e) ==
  IF Has(e, "out") /\ e.out = "error" /\ e.op # "rejected" THEN {<<"completes", FALSE>>}
  ELSE CASE e.op = "combine" ->
        LET want == Coord(e)
        IN {<<"shape", Len(e.got) = Len(e.v)>>,
            <<"values", Len(e.got) = Len(e.v) => \A p \in 1..Len(e.v) : Near(e.got[p], Comb(e.op_name, e.v[p], e.sc), 1)>>,
            <<"scalar_coordinates", \A i \in 1..Len(e.coords) : e.coords[i].got = want[i]>>,
            <<"metadata", e.meta>>}
    [] e.op = "common" ->
        LET C == Common(e.rs)
        IN IF Cardinality(C) < e.minimum THEN {<<"refuses_too_few_realizations", e.out = "refused">>}
           ELSE {<<"keeps_common_realizations", e.out = "ok" /\ Range1(e.kept) = C /\ Len(e.kept) = Cardinality(C)>>,
                 <<"values", e.out = "ok" => \A i \in 1..Len(e.kept) :
                      e.got[i] = Comb(e.op_name, [k \in 1..Len(e.rs) |-> e.vals[k][CHOOSE j \in 1..Len(e.rs[k]) : e.rs[k][j] = e.kept[i]]], e.sc)>>}
    [] e.op = "window" ->
        {<<"values", \A p \in 1..Len(e.v) : e.got[p] = Comb("max", e.v[p], 1)>>,
         <<"time", e.time = Expanded(e.times)>>, <<"cell_methods", e.cells>>}
    [] e.op = "merge" ->
        IF Cardinality({e.periods[i] : i \in 1..Len(e.periods)}) > 1 /\ e.check
        THEN {<<"refuses_mixed_periods", e.out = "refused">>}
        ELSE {<<"completes", e.out = "ok">>,
              <<"every_slice_once", e.out = "ok" => e.got = [i \in 1..Len(e.slices) |-> e.slices[SortIdx(e.slices)[i]]]>>,
              <<"common_attributes_only", e.out = "ok" => Range1(e.attrs) = {a \in Range1(e.given[1]) : \A k \in 1..Len(e.given) : a \in Range1(e.given[k])}>>,
              <<"common_cell_methods_only", e.out = "ok" => Range1(e.cm) = {a \in Range1(e.cms[1]) : \A k \in 1..Len(e.cms) : a \in Range1(e.cms[k])}>>}
    [] e.op = "max_in_height" ->
        LET K == InLayer(e.h, e.lo, e.hi)
        IN IF K = <<>> THEN {<<"refuses_empty_layer", e.out = "refused">>}
           ELSE {<<"completes", e.out = "ok">>,
                 <<"maximum", e.out = "ok" => \A p \in 1..Len(e.v) : e.got[p] = SetMax({e.v[p][K[i]] : i \in 1..Len(K)})>>,
                 <<"name", e.name_ok>>}
    [] e.op = "height_of_max" ->
        {<<"is_a_height_of_the_maximum", \A p \in 1..Len(e.v) : \E i \in 1..Len(e.h) :
              e.h[i] = e.got[p] /\ e.v[p][i] = SetMax(Range1(e.v[p]))>>}
    [] e.op = "tied_height" ->
        LET T == {e.h[i] : i \in {j \in 1..Len(e.h) : e.v[j] = SetMax(Range1(e.v))}}
            want == IF e.lowest THEN SetMin(T) ELSE SetMax(T)
            other == IF e.lowest THEN SetMax(T) ELSE SetMin(T)
        IN {<<"height_asked_for", e.got \in {want, other}>>, <<"not_the_opposite_end", e.got # other \/ want = other>>}
    [] e.op = "collapse" ->
        {<<"statistic", Len(e.got) = Len(e.v) /\ \A p \in 1..Len(e.v) : CollapseOk(e.got[p], e.method, e.v[p])>>,
         <<"metadata", e.meta>>}
    [] e.op = "spread_out" ->
        {<<"same_at_every_point", \A k \in 1..Len(e.got) : e.got[k] = e.v>>, <<"metadata", e.meta>>}
    [] e.op = "clip" ->
        {<<"clipped", \A p \in 1..Len(e.v) : e.got[p] = IF e.v[p] = Masked THEN Masked ELSE Max2(e.lo, Min2(e.hi, e.v[p]))>>,
         <<"metadata", e.meta>>}
    [] e.op = "sorted" ->
        {<<"in_order", \A i \in 1..(Len(e.pts) - 1) : IF e.descending THEN e.pts[i] > e.pts[i + 1] ELSE e.pts[i] < e.pts[i + 1]>>,
         <<"slices_follow", \A i \in 1..Len(e.pts) : \E j \in 1..Len(e.from) : e.from[j] = e.pts[i] /\ e.v[j] = e.got[i]>>,
         <<"none_lost", Range1(e.pts) = Range1(e.from) /\ Len(e.pts) = Len(e.from)>>}
    [] e.op = "ordered" ->
        LET asked == SelectSeq(e.asked, LAMBDA x : x \in Range1(e.dims))
            others == SelectSeq(e.dims, LAMBDA x : x \notin Range1(asked))
        IN {<<"order_asked_for", e.got = IF e.start THEN asked \o others ELSE others \o asked>>,
            <<"data_follow", e.data_ok>>}
    [] e.op = "unmatched" ->
        {<<"differences", \A k \in 1..Len(e.given) : Range1(e.got[k]) =
             {a \in Range1(e.given[k]) : \E j \in 1..Len(e.given) : a \notin Range1(e.given[j])}>>}
    [] e.op = "input" -> {<<"input_untouched", e.same>>}
    [] e.op = "rejected" -> {<<"refuses_" \o e.why, e.out = "error">>}
    [] OTHER -> {<<"known_event", FALSE>>}
Same(s0, e) == s0
INSTANCE TraceRun WITH Judge <- Clauses, Step <- Same, St0 <- 0
=============================================================================
