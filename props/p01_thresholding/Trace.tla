------------------------------ MODULE Trace ---------------------------------
EXTENDS Core, TraceKit
VARIABLES l, st, fails

(* Number of slices taken together, and those left separate in the output.    *)
Collapsed(e) == e.collapse # "none"
OutSlices(e) == IF Collapsed(e) THEN 1 ELSE Len(e.data)

LeadDims(e) ==
  LET full == <<<<e.leadname, OutSlices(e)>>, <<e.param, Len(e.thr)>>,
                <<"radius_of_vicinity", Len(e.vic)>>,
                <<e.yname, Len(e.data[1])>>, <<e.xname, Len(e.data[1][1])>>>>
  IN SelectSeq(full, LAMBDA d : d[2] > 1)
WantDims(e) == [i \in 1..Len(LeadDims(e)) |-> LeadDims(e)[i][1]]
WantShape(e) == [i \in 1..Len(LeadDims(e)) |-> LeadDims(e)[i][2]]

Radii(e) == IF e.vic = <<>> THEN <<0>> ELSE e.vic

(* The value expected at output slice s, threshold k, radius v, point y, x.   *)
Want(e, s, k, v, y, x) ==
  LET sl == IF Collapsed(e) THEN e.data ELSE <<e.data[s]>>
      b  == e.thr[k]
  IN Result(Accumulate(sl, Len(sl), e.land, Radii(e)[v], y, x, b[1], b[2], b[3], e.cmp))

Flat(e, s, k, v, y, x) ==
  ((((s - 1) * Len(e.thr) + k - 1) * Len(Radii(e)) + v - 1) * Len(e.data[1]) + y - 1)
     * Len(e.data[1][1]) + x
Points(e) == (1..OutSlices(e)) \X (1..Len(e.thr)) \X (1..Len(Radii(e)))
             \X (1..Len(e.data[1])) \X (1..Len(e.data[1][1]))

ThrCoord(e) == [k \in 1..Len(e.thr) |-> e.thr[k][1]]

Name(e) == "probability_of_" \o e.param \o (IF e.vic = <<>> THEN "" ELSE "_in_vicinity")
           \o (IF Above(e.cmp) THEN "_above_threshold" ELSE "_below_threshold")

Clauses(s0, e) ==
  IF e.op = "rejected" THEN {<<"raises_" \o e.why, e.out = "error">>}
  ELSE IF e.out = "error" THEN {<<"completes", FALSE>>}
  ELSE IF e.o.shape # WantShape(e) \/ e.o.dims # WantDims(e) THEN {<<"dimensions", FALSE>>}
  ELSE {<<"values", \A p \in Points(e) :
            Near(e.values[Flat(e, p[1], p[2], p[3], p[4], p[5])],
                 Want(e, p[1], p[2], p[3], p[4], p[5]), 2)>>,
        <<"units", e.o.cunits = "1">>, <<"dtype", e.o.dtype = "float32">>,
        <<"name", e.o.cname = Name(e)>>,
        <<"threshold_points", e.tpoints = ThrCoord(e)>>,
        <<"threshold_units", e.tunits = e.units>>,
        <<"threshold_dtype", e.tdtype = "float32">>,
        <<"threshold_var_name", e.tvar = "threshold">>,
        <<"relative_to_threshold", e.spp = Relative(e.cmp)>>,
        <<"attributes_kept", e.attrs_kept>>,
        <<"time_coords_kept", e.time_kept>>,
        <<"collapsed_coord_gone", Collapsed(e) => ~e.has_lead>>}

Same(s0, e) == s0
INSTANCE TraceRun WITH Judge <- Clauses, Step <- Same, St0 <- 0
=============================================================================
