------------------------------ MODULE Trace ---------------------------------
EXTENDS Core, TraceKit
VARIABLES l, st, fails

Radius(e) == IF e.lead_times = <<>> THEN [n |-> e.radii[1], d |-> 1]
             ELSE RadiusAt(e.radii, e.lead_times, e.hour)
R(e) == Cells(Radius(e), e.spacing)
Keys(e) == (1..Len(e.data)) \X (1..Len(e.data[1])) \X (1..Len(e.data[1][1]))

Clauses(s0, e) ==
  CASE e.op = "nbhood" ->
        IF e.out = "error" THEN {<<"completes", FALSE>>}
        ELSE IF Len(e.values) # Len(e.data) \/ Len(e.values[1]) # Len(e.data[1])
                \/ Len(e.values[1][1]) # Len(e.data[1][1]) THEN {<<"shape", FALSE>>}
        ELSE {<<"values", \A k \in Keys(e) :
                  Near(e.values[k[1]][k[2]][k[3]],
                       Output(e.method, e.weighted, R(e), e.sum, e.remask, e.data[k[1]], e.mask,
                              e.ds, k[2], k[3]), IF e.sum THEN 5 ELSE 2)>>,
              <<"dtype", e.dtype = "float32">>, <<"metadata", e.meta_same>>}
    [] e.op = "percentile" ->
        IF e.out = "error" THEN {<<"completes", FALSE>>}
        ELSE IF e.shape # <<Len(e.pc), Len(e.data), Len(e.data[1])>> THEN {<<"shape", FALSE>>}
        ELSE {<<"percentile_values", \A k \in (1..Len(e.pc)) \X (1..Len(e.data)) \X (1..Len(e.data[1])) :
                  Near(e.values[k[1]][k[2]][k[3]] * (R(e) * R(e)),
                       10 * Percentile100(CircleValues(e.data, R(e), k[2], k[3]), e.pc[k[1]]),
                       R(e) * R(e) * 2 + 1)>>,
              <<"percentile_coord", e.pcoord = e.pc>>, <<"dtype", e.dtype = "float32">>}
    [] e.op = "rejected" -> {<<"refuses_" \o e.why, e.out = "error">>}
    [] OTHER -> {<<"known_event", FALSE>>}
Same(s0, e) == s0
INSTANCE TraceRun WITH Judge <- Clauses, Step <- Same, St0 <- 0
=============================================================================
