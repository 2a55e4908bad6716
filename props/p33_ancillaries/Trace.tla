------------------------------- MODULE Trace --------------------------------
EXTENDS Core, TraceKit
VARIABLES l, st, fails
(* hs, land: by point                                                                    *)
Steep(steps, p) == [i \in 1..Len(steps) |-> [j \in 1..Len(steps[i]) |-> Steepness(steps[i][j], p)]]
All(u) == UNION {Range1(u[i]) : i \in 1..Len(u)}
Clauses(s0, e) ==
  IF Has(e, "out") /\ e.out = "error" /\ e.op # "rejected" THEN {<<"completes", FALSE>>}
  ELSE CASE e.op = "landmask" -> {<<"whole_land_mask", Len(e.got) = Len(e.v) /\ \A i \in 1..Len(e.v) : e.got[i] = Land(e.v[i])>>, <<"metadata", e.meta>>}
    [] e.op = "bands" ->
        {<<"band_masks", Len(e.got) = Len(e.bands) /\ \A k \in 1..Len(e.bands) : Len(e.got[k]) = Len(e.hs) /\ \A i \in 1..Len(e.hs) : e.got[k][i] = BandMask(e.hs[i], e.land[i], e.bands[k])>>,
         <<"band_limits", e.points = [k \in 1..Len(e.bands) |-> (e.bands[k][1] + e.bands[k][2]) \div 2] /\ e.limits = e.bands>>,
         <<"metadata", e.meta>>, <<"inputs_kept", e.kept>>}
    [] e.op = "zones" ->
        {<<"zone_weights", Len(e.got) = Len(e.bands) /\ \A k \in 1..Len(e.bands) : Len(e.got[k]) = Len(e.hs) /\ \A i \in 1..Len(e.hs) :
             IF e.land[i] = 0 THEN e.got[k][i] = Masked ELSE Near(e.got[k][i], ZoneWeight(e.hs[i], e.bands, k), 3)>>,
         <<"shared_out", \A i \in 1..Len(e.hs) : e.land[i] = 0 \/ Near(SumTo([k \in 1..Len(e.bands) |-> e.got[k][i]], Len(e.bands)), IF \E k \in 1..Len(e.bands) : InBand(e.hs[i], e.bands[k]) THEN 10000 ELSE 0, 1)>>,
         <<"band_limits", e.points = [k \in 1..Len(e.bands) |-> (e.bands[k][1] + e.bands[k][2]) \div 2] /\ e.limits = e.bands>>,
         <<"metadata", e.meta>>, <<"inputs_kept", e.kept>>}
    [] e.op = "smoothing" ->
        LET ux == Steep(e.sx, e.power) uy == Steep(e.sy, e.power)
            lo == SetMin(All(ux) \cup All(uy)) hi == SetMax(All(ux) \cup All(uy))
            want(u, z) == IF z THEN 0 ELSE Coefficient(u, lo, hi, e.atmin, e.atmax)
        IN {<<"coefficients_x", Len(e.gx) = Len(ux) /\ \A i \in 1..Len(ux) : Len(e.gx[i]) = Len(ux[i]) /\ \A j \in 1..Len(ux[i]) :
                 Near(e.gx[i][j], want(ux[i][j], e.masked /\ Zeroed(e.mask[i][j], e.mask[i][j + 1], e.boundary, e.invert)), IF hi = lo THEN 0 ELSE 5)>>,
            <<"coefficients_y", Len(e.gy) = Len(uy) /\ \A i \in 1..Len(uy) : Len(e.gy[i]) = Len(uy[i]) /\ \A j \in 1..Len(uy[i]) :
                 Near(e.gy[i][j], want(uy[i][j], e.masked /\ Zeroed(e.mask[i][j], e.mask[i + 1][j], e.boundary, e.invert)), IF hi = lo THEN 0 ELSE 5)>>,
            <<"metadata", e.meta>>, <<"inputs_kept", e.kept>>}
    [] e.op = "svp" -> {<<"vapour_pressures", \A k \in 1..Len(e.t) : LET w == Es(e.t[k]) IN Near(e.got[k], w, 2 + w \div 3000)>>, <<"metadata", e.meta>>}
    [] e.op = "equal" -> {<<e.what, e.one = e.two>>}
    [] e.op = "rejected" -> {<<"refuses_" \o e.why, e.out = "error">>}
    [] OTHER -> {<<"known_event", FALSE>>}
Same(s0, e) == s0
INSTANCE TraceRun WITH Judge <- Clauses, Step <- Same, St0 <- 0
=============================================================================
