------------------------------- MODULE Trace --------------------------------
EXTENDS Core, TraceKit
VARIABLES l, st, fails
At(pts, ix) == [i \in 1..Len(ix) |-> pts[ix[i]]]
Want(d) == IF d.lon THEN LET ix == Around(d.pts, d.lo, d.hi)
                             w == [i \in 1..Len(ix) |-> Wrapped(d.pts[ix[i]], d.lo)]
                         IN IF d.step > 1 THEN Thinned(w, d.step) ELSE w
           ELSE At(d.pts, Chosen(d.pts, d.cs))
Empty(e) == \E i \in 1..Len(e.dims) : Want(e.dims[i]) = <<>>
Columns(e) == [c \in 1..Len(e.cols) |-> FromSurface(Filled(e.cols[c], e.inc), e.z, e.t, e.surface_last, e.rising)]
Clauses(s0, e) ==
  IF Has(e, "out") /\ e.out = "error" /\ e.op \notin {"rejected", "extract"} THEN {<<"completes", FALSE>>}
  ELSE CASE e.op = "extract" ->
        LET none == Empty(e)
            o == IF none /\ e.via = "plugin" THEN (IF e.ignore THEN "same" ELSE "error")
                 ELSE IF none THEN "none" ELSE "ok"
        IN {<<"found_or_not", e.out = o>>,
            <<"points_selected", e.out = "ok" /\ o = "ok" => \A i \in 1..Len(e.dims) : e.got[i] = Want(e.dims[i])>>,
            <<"values_kept", e.out = "ok" => e.values>>,
            <<"metadata", e.out = "ok" => e.meta>>,
            <<"input_untouched", e.same>>}
    [] e.op = "sites" -> {<<"sites_selected", e.got = SelectSeq(e.ids, LAMBDA x : x \in Range1(e.wanted))>>,
                          <<"values_kept", e.values>>}
    [] e.op = "level" ->
        LET w == Tup(Columns(e))
        IN {<<"level", Len(e.got) = Len(w) /\ \A c \in 1..Len(w) :
                 IF \A i \in 1..Len(e.cols[c]) : e.cols[c][i] = Masked THEN TRUE ELSE Near(e.got[c], w[c], e.tol)>>,
            <<"metadata", e.meta>>}
    [] e.op = "table" ->
        {<<"looked_up", Len(e.got) = Len(e.r) /\ \A i \in 1..Len(e.r) :
               e.got[i] = Lookup(e.t, e.rows, e.cols, e.r[i], e.c[i])>>,
         <<"metadata", e.meta>>}
    [] e.op = "rejected" -> {<<"refuses_" \o e.why, e.out = "error">>}
    [] OTHER -> {<<"known_event", FALSE>>}
Same(s0, e) == s0
INSTANCE TraceRun WITH Judge <- Clauses, Step <- Same, St0 <- 0
=============================================================================
