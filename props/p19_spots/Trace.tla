------------------------------- MODULE Trace --------------------------------
EXTENDS Core, TraceKit
VARIABLES l, st, fails
NearSeq(a, b, tol) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : Near(a[i], b[i], tol)
NearRows(a, b, tol) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : NearSeq(a[i], b[i], tol)
(* the state is the last neighbour cube made: one entry for each site it holds     *)
Neighbours(e) ==
  LET k == Tup(Kept(e.g, e.sites))
      unique == Cardinality(Range1(e.uid)) = Len(k)
  IN IF e.uid # <<>> /\ (NONE \in Range1(e.uid) \/ ~unique \/ \E u \in Range1(e.uid) : u > 99999999) THEN {<<"unusable_ids_refused", e.out = "error">>}
     ELSE IF e.out = "error" THEN {<<"completes", FALSE>>}
     ELSE {<<"sites_within_the_domain", Len(e.at) = Len(k)>>,
           <<"warned_of_those_outside", Len(k) < Len(e.sites) => e.warned>>,
           <<"grid_point", Len(e.at) = Len(k) =>
              \A i \in 1..Len(k) : <<e.at[i][2] + 1, e.at[i][1] + 1>> \in Choices(e.g, e.sites[k[i]], e.alt[k[i]], e.land, e.dz, e.r, e.n)>>,
           <<"altitude", e.galt = Tup([i \in 1..Len(k) |-> 10 * Height(e.g, e.sites[k[i]], e.alt[k[i]])])>>,
           <<"vertical_displacement", Len(e.at) = Len(k) => \A i \in 1..Len(k) :
              e.gdz[i] = 10 * (Height(e.g, e.sites[k[i]], e.alt[k[i]]) - e.g.oro[e.at[i][2] + 1][e.at[i][1] + 1])>>,
           <<"wmo_ids", e.gwmo = Tup([i \in 1..Len(k) |-> e.wmo[k[i]]])>>,
           <<"positions", NearSeq(e.glat, Tup([i \in 1..Len(k) |-> e.lat[k[i]]]), 2) /\ NearSeq(e.glon, Tup([i \in 1..Len(k) |-> e.lon[k[i]]]), 2)>>,
           <<"unique_ids", IF e.uid = <<>> THEN e.guid = <<>> ELSE e.guid = Tup([i \in 1..Len(k) |-> e.uid[i]])>>,
           <<"method", e.method = Method(e.land, e.dz)>>,
           <<"described", e.meta>>, <<"sites_untouched", e.kept>>}
Taken(v, at) == Tup([i \in 1..Len(at) |-> v[at[i][2] + 1][at[i][1] + 1]])
Manipulated(e) ==
  LET x(i, k) == LET raw == e.v[i][e.at[k][2] + 1][e.at[k][1] + 1]
                 IN IF raw = Masked THEN raw ELSE IF e.lapse = NONE THEN 10 * raw ELSE Lapsed(10 * raw, e.dz[k], e.lapse)
  IN Tup([i \in 1..Len(e.want) |-> Tup([k \in 1..Len(e.at) |-> x(e.want[i], k)])])
Clauses(s0, e) ==
  CASE e.op = "neighbours" -> Neighbours(e)
    [] e.op = "methods" -> {<<"all_methods_together", e.out = "ok" /\ e.names = <<Method(FALSE, FALSE), Method(TRUE, FALSE), Method(FALSE, TRUE), Method(TRUE, TRUE)>>
                              /\ e.order /\ Len(e.ats) = Len(e.alone) /\ \A i \in 1..Len(e.ats) : e.ats[i] = e.alone[i]>>}
    [] e.op = "extract" ->
        {<<"taken_from_the_grid_points", e.out = "ok" /\ Len(e.got) = Len(e.v) /\ \A i \in 1..Len(e.v) : e.got[i] = Taken(e.v[i], e.at)>>,
         <<"leading_dimensions_and_times", e.out = "ok" => e.lead>>,
         <<"gridded_times_become_site_times", e.out = "ok" => e.own = Taken(e.aux, e.at)>>,
         <<"sites_described", e.out = "ok" => e.sites>>, <<"attributes", e.out = "ok" => e.attrs>>}
    [] e.op = "rejected" -> {<<"refused_" \o e.why, e.out = "error">>}
    [] e.op = "accepted" -> {<<"accepted_" \o e.why, e.out = "ok">>}
    [] e.op = "lapse" ->
        {<<"lapse_rate_adjusted", e.out = "ok" /\ NearRows(e.got, Tup([i \in 1..Len(e.v) |-> Tup([k \in 1..Len(e.at) |->
             Lapsed(10 * e.v[i][k], e.dz[k], IF e.fixed # NONE THEN e.fixed ELSE e.grid[e.at[k][2] + 1][e.at[k][1] + 1])])]), 2)>>,
         <<"described", e.out = "ok" => e.meta>>, <<"inputs_untouched", e.same>>}
    [] e.op = "levels" ->
        {<<"probabilities_at_site_height", e.out = "ok" /\ NearRows(e.got, Tup([i \in 1..Len(e.p) |-> Tup([k \in 1..Len(e.t) |->
             Interp(e.t, e.p[i], e.t[k] + e.dz[i], 1000)])]), 2)>>,
         <<"described", e.out = "ok" => e.meta>>}
    [] e.op = "heights" ->
        {<<"heights_at_site_height", e.out = "ok" /\ NearRows(e.got, Tup([i \in 1..Len(e.v) |-> Tup([k \in 1..Len(e.dz) |-> 10 * e.v[i][k] + e.dz[k]])]), 1)>>,
         <<"described", e.out = "ok" => e.meta>>}
    [] e.op = "manipulate" ->
        {<<"extracted_and_adjusted", e.out = "ok" /\ NearRows(e.got, Manipulated(e), 2)>>, <<"described", e.out = "ok" => e.meta>>}
    [] e.op = "subset" ->
        LET k == SelectSeq(Tup([i \in 1..Len(e.have) |-> i]), LAMBDA i : e.have[i] # "None" /\ e.have[i] \in Range1(e.want))
        IN IF k = <<>> THEN {<<"nothing_left_refused", e.out = "error">>}
           ELSE {<<"subset", e.out = "ok" /\ e.ids = Tup([i \in 1..Len(k) |-> e.have[k[i]]]) /\ e.got = Tup([i \in 1..Len(k) |-> 10 * e.v[k[i]]])>>}
Same(s0, e) == s0
INSTANCE TraceRun WITH Judge <- Clauses, Step <- Same, St0 <- 0
=============================================================================
