------------------------------- MODULE Trace --------------------------------
EXTENDS Core, TraceKit
VARIABLES l, st, fails
SameCoord(a, b) == a.name = b.name /\ a.kind = b.kind /\ a.dtype = b.dtype /\ a.units = b.units /\ a.pts = b.pts /\ a.bnds = b.bnds
Clauses(s0, e) ==
  IF Has(e, "out") /\ e.out = "error" /\ e.op \notin {"rejected", "std"} THEN {<<"completes", FALSE>>}
  ELSE CASE e.op = "std" ->
        LET bad == StdRefused(e.cube, e.o)
            w == Std(e.cube, e.o)
        IN IF bad \/ e.out = "error" THEN {<<"refuses", bad /\ e.out = "error">>}
           ELSE {<<"name_units", e.got.name = w.name /\ e.got.units = w.units>>,
                 <<"type", e.got.dtype = w.dtype>>,
                 <<"data", Len(e.got.data) = Len(w.data) /\ \A i \in 1..Len(w.data) : Near(e.got.data[i], w.data[i], e.tol)>>,
                 <<"coordinates", Len(e.got.coords) = Len(w.coords) /\
                     \A i \in 1..Len(w.coords) : \E j \in 1..Len(e.got.coords) : SameCoord(w.coords[i], e.got.coords[j])>>,
                 <<"attributes", SameMap(e.got.attrs, w.attrs)>>,
                 <<"cell_methods", e.got.cms = w.cms>>,
                 <<"grid_kept", e.grid>>}
    [] e.op = "flag" -> {<<"flagged_missing", e.got = [i \in 1..Len(e.v) |-> IF e.flag[i] = 1 THEN NaN ELSE e.v[i]]>>,
                         <<"flag_removed", e.gone>>, <<"input_untouched", e.same>>}
    [] e.op = "amend" -> {<<"attributes", SameMap(e.got, Amend(e.attrs, e.ops))>>}
    [] e.op = "copy" -> {<<"attributes", \A i \in 1..Len(e.got) : SameMap(e.got[i],
                            Merged(e.had[i], [n \in Range1(e.names) |-> e.from[n]]))>>,
                         <<"same_objects", e.same>>}
    [] e.op = "mandate" -> LET b == Breaches(e)
                           IN {<<"standards_judged", e.out2 = (IF b = {} THEN "ok" ELSE "error")>>,
                               <<"breaches_named", e.out2 = "error" => Range1(e.said) = b>>}
    [] e.op = "newcube" ->
        LET full == Merged(e.mand, e.opt)
            bad == ~ (Mandatory \subseteq DOMAIN full)
        IN IF bad \/ e.out2 = "error" THEN {<<"mandatory_attributes_required", bad /\ e.out2 = "error">>}
           ELSE {<<"attributes", SameMap(e.got, full)>>, <<"coordinates", e.coords>>,
                 <<"name_units_type", e.named>>, <<"data", e.data>>, <<"input_untouched", e.same>>}
    [] e.op = "mandatory" ->
        LET bad == e.id # "" /\ ~ Agreed(e.ms, e.id)
        IN IF bad \/ e.out2 = "error" THEN {<<"model_id_required", bad /\ e.out2 = "error">>}
           ELSE {<<"mandatory_attributes", SameMap(e.got, MandatoryOf(e.ms, e.id))>>}
    [] e.op = "modelid" ->
        LET bad == ~ Agreed(e.ms, e.id)
        IN {<<"model_id", IF bad \/ e.out2 = "error" THEN bad /\ e.out2 = "error" ELSE e.got = e.ms[1][e.id]>>}
    [] e.op = "modelids" -> {<<"model_ids", Range1(e.got) = UNION {Range1(e.words[i]) : i \in 1..Len(e.words)}
                                /\ Cardinality(Range1(e.got)) = Len(e.got) /\ e.sorted>>}
    [] e.op = "grids" ->
        LET ok == \A i \in 1..Len(e.grids) : e.grids[i] = e.grids[1]
        IN {<<"grids_match", e.out2 = (IF ok THEN "ok" ELSE "error")>>}
    [] e.op = "probname" ->
        {<<"threshold_name", e.coord = e.d>>, <<"diagnostic_name", e.diag = e.d \o e.vic>>,
         <<"vicinity_name", e.invic = ProbName(e.d, "_in_vicinity", e.thr)>>}
    [] e.op = "lookup" ->
        {<<"threshold_found", e.thresh = e.wantt>>, <<"percentile_found", e.perc = e.wantp>>,
         <<"above_or_below", e.ab = e.wantab>>}
    [] e.op = "cells" -> {<<"for_probability", e.prob = ToProb(e.cms, e.n)>>, <<"for_diagnostic", e.diag = ToDiag(e.cms)>>}
    [] e.op = "rename" -> {<<"cube_name", e.cname = (IF e.isprob THEN "probability_of_" \o e.new \o e.thr ELSE e.new)>>,
                           <<"threshold_name", e.isprob => e.tname = e.base>>,
                           <<"cell_methods", e.got = Renamed(e.cms, e.old, e.base)>>}
    [] e.op = "round" -> {<<"rounded", IF e.far THEN e.out2 = "error" ELSE e.out2 = "ok" /\ e.got = e.want /\ e.dtype>>}
    [] e.op = "flat" -> {<<"flattened", e.got = Flat(e.tree)>>}
    [] e.op = "history" -> {<<"history", e.ok>>}
    [] e.op = "rejected" -> {<<"refuses_" \o e.why, e.out = "error">>}
    [] OTHER -> {<<"known_event", FALSE>>}
Same(s0, e) == s0
INSTANCE TraceRun WITH Judge <- Clauses, Step <- Same, St0 <- 0
=============================================================================
