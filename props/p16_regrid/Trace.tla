------------------------------- MODULE Trace --------------------------------
EXTENDS Core, TraceKit
VARIABLES l, st, fails
Put(v) == IF v = Masked THEN NaN ELSE v
Two(e, i) == Cells(e.ts[i].u, e.ny) \X Cells(e.ts[i].v, e.nx)
(* admissible values of target i for the source field f                                *)
Admissible(e, f, i) ==
  LET t == e.ts[i]
      cds == Two(e, i)
  IN IF ~ Inside(t, e.ny, e.nx) THEN {NaN}
     ELSE CASE e.mode = "nearest" ->
            {Put(f[s]) : s \in UNION {NearestTo(t, Range1(Corners(cd[1], cd[2], e.nx)), e.nx) : cd \in cds}}
       [] e.mode = "bilinear" -> {BilinearAt(f, t, cd[1], cd[2], e.nx, 1) : cd \in cds}
       [] e.mode = "nearest-with-mask" ->
            {Put(f[s]) : s \in UNION {NearestAlike(t, e.D[i], e.land, e.tl[i], cd[1], cd[2], e.nx, e.vic, e.eps) : cd \in cds}}
       [] OTHER -> UNION {BilinearAlike(f, t, e.D[i], e.P[i], e.land, e.tl[i], cd[1], cd[2], e.nx, e.vic, 1, e.eps) : cd \in cds}
(* where a position on a line is not exact in 32 bits, a missing source beyond the      *)
(* line may carry the weight of the rounding                                            *)
Rounded(e, f, i) == ~ e.exact /\ e.mode \in {"bilinear", "bilinear-with-mask"} /\ Inside(e.ts[i], e.ny, e.nx)
  /\ (e.ts[i].u % 8 = 0 \/ e.ts[i].v % 8 = 0 \/ e.mode = "bilinear-with-mask")
  /\ \E cd \in Two(e, i) : \E s \in Range1(Corners(cd[1], cd[2], e.nx)) : Missing(f[s])
Clear(e, i) == e.ts[i].skip = 0
RightIn(e, k) == \A i \in 1..Len(e.ts) : Clear(e, i) =>
   \/ \E v \in Admissible(e, e.f[k], i) : Near(e.got[k][i], v, e.tol)
   \/ e.got[k][i] = NaN /\ Rounded(e, e.f[k], i)
Clauses(s0, e) ==
  IF Has(e, "out") /\ e.out = "error" /\ e.op # "rejected" THEN {<<"completes", FALSE>>}
  ELSE CASE e.op = "regrid" ->
        {<<e.mode, \A k \in 1..Len(e.f) : RightIn(e, k)>>,
         <<"leading_dimensions", e.leads>>, <<"target_grid", e.grid>>, <<"metadata", e.meta>>,
         <<"title", e.title = (IF e.wanted = "" THEN "unknown" ELSE "Post-Processed " \o e.wanted)>>,
         <<"grid_attributes", SameMap(e.gridattrs, e.wantattrs)>>,
         <<"type", e.dtype = "float32">>, <<"input_untouched", e.same>>}
    [] e.op = "adjust" ->
        {<<"adjusted_by_surface_type", \A p \in Points(e.ny, e.nx) :
             e.got[p[1]][p[2]] \in Adjusted(e.v, e.in, e.want, e.ny, e.nx, e.r, p)>>}
    [] e.op = "cutout" -> {<<"cutout_recognised", e.got = (e.alike /\ CutOut(e.gy, e.cy) /\ CutOut(e.gx, e.cx))>>}
    [] e.op = "plane" -> {<<"positions_reproduced", \A i \in 1..Len(e.got) : Near(e.got[i], e.want[i], e.tol)>>}
    [] e.op = "rejected" -> {<<"refuses_" \o e.why, e.out = "error">>}
    [] OTHER -> {<<"known_event", FALSE>>}
Same(s0, e) == s0
INSTANCE TraceRun WITH Judge <- Clauses, Step <- Same, St0 <- 0
=============================================================================
