------------------------------- MODULE Trace --------------------------------
EXTENDS Core, TraceKit
VARIABLES l, st, fails
NearRel(a, b) == IF IsNum(a) /\ IsNum(b) THEN Abs(a - b) <= 3 + Abs(b) \div 4000 ELSE a = b
(* metres per unit of each axis for row i                                          *)
PerX(e, i) == IF e.kind = "proj" THEN e.unit ELSE (e.mpd * Cos4(e.ys[i])) \div 10000
PerY(e) == IF e.kind = "proj" THEN e.unit ELSE e.mpd
DX(e) == Steps(e.xs, e.circ, 360)
DY(e) == Steps(e.ys, FALSE, 0)
Grid(a, b, R(_, _)) == \A i \in 1..a : \A j \in 1..b : R(i, j)
(* differences and gradients of one field v                                         *)
DiffX(v, e) == [i \in 1..Rows(v) |-> Diffs(v[i], e.circ)]
GradX(v, e) == LET d == Tup(DX(e)) IN [i \in 1..Rows(v) |-> LET q == Tup(Diffs(v[i], e.circ)) IN Tup([j \in 1..Len(d) |-> Rate(q[j], d[j] * PerX(e, i), e.S)])]
DiffY(v) == [i \in 1..(Rows(v) - 1) |-> [j \in 1..Cols(v) |-> Sub(v[i + 1][j], v[i][j])]]
GradY(v, e) == LET d == Tup(DY(e)) IN [i \in 1..(Rows(v) - 1) |-> Tup([j \in 1..Cols(v) |-> Rate(Sub(v[i + 1][j], v[i][j]), d[i] * PerY(e), e.S)])]
OnPointsX(g, e) == LET d == Tup(DX(e)) IN [i \in 1..Len(g) |-> Tup(ToPoints(g[i], d))]
OnPointsY(g, e) == LET d == Tup(DY(e))
                         p == Tup([j \in 1..Len(g[1]) |-> Tup(ToPoints(Tup(Column(g, j)), d))]) IN [i \in 1..(Len(g) + 1) |-> [j \in 1..Len(p) |-> p[j][i]]]
Same2(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : Len(a[i]) = Len(b[i]) /\ \A j \in 1..Len(a[i]) : NearRel(a[i][j], b[i][j])
Axis(got, x2, tol) == Len(got) = Len(x2) /\ \A i \in 1..Len(got) : Near(got[i], x2[i], tol)
Clauses(s0, e) ==
  IF Has(e, "out") /\ e.out = "error" /\ e.op # "rejected" THEN {<<"completes", FALSE>>}
  ELSE CASE e.op = "gradient" ->
        {<<"difference_x", \A k \in 1..Len(e.v) : e.dx[k] = DiffX(e.v[k], e)>>,
         <<"difference_y", \A k \in 1..Len(e.v) : e.dy[k] = DiffY(e.v[k])>>,
         <<"difference_midpoints", Axis(e.mx, Mids2(e.xs, e.circ, 360), 0) /\ Axis(e.my, Mids2(e.ys, FALSE, 0), 0)>>,
         <<"gradient_midpoints", e.regrid \/ (Axis(e.gmx, Mids2(e.xs, e.circ, 360), 0) /\ Axis(e.gmy, Mids2(e.ys, FALSE, 0), 0))>>,
         <<"gradient_x", \A k \in 1..Len(e.v) : LET g == Tup(GradX(e.v[k], e)) IN Same2(e.gx[k], IF e.regrid THEN OnPointsX(g, e) ELSE g)>>,
         <<"gradient_y", \A k \in 1..Len(e.v) : LET g == Tup(GradY(e.v[k], e)) IN Same2(e.gy[k], IF e.regrid THEN OnPointsY(g, e) ELSE g)>>,
         <<"metadata", e.meta>>, <<"input_untouched", e.same>>}
    [] e.op = "distance" ->
        {<<"distance_x", Same2(e.dx, [i \in 1..Len(e.ys) |-> [j \in 1..Len(DX(e)) |-> Abs(DX(e)[j] * PerX(e, i))]])>>,
         <<"distance_y", Same2(e.dy, [i \in 1..Len(DY(e)) |-> [j \in 1..Len(e.xs) |-> Abs(DY(e)[i] * PerY(e))]])>>,
         <<"distance_midpoints", Axis(e.mx, Mids2(e.xs, e.circ, 360), 0) /\ Axis(e.my, Mids2(e.ys, FALSE, 0), 0)>>,
         <<"metadata", e.meta>>, <<"input_untouched", e.same>>}
    [] e.op = "spacing" ->
        LET sx == Abs(e.xs[2] - e.xs[1]) * e.unit
            sy == Abs(e.ys[2] - e.ys[1]) * e.unit
        IN {<<"spacing", IF EvenSteps(e.xs) THEN e.spx = sx ELSE e.spx = -1>>,
            <<"equal_area", e.area = (EvenSteps(e.xs) /\ EvenSteps(e.ys) /\ (e.eq => sx = sy))>>,
            <<"cells", IF EvenSteps(e.xs) /\ e.dist > 0 /\ e.dist \div sx > 0 THEN e.cells = e.dist \div sx ELSE e.cells = -1>>,
            <<"fractional_cells", IF EvenSteps(e.ys) /\ e.dist > 0 THEN Near(e.fcells, RoundDiv(1000 * e.dist, sy), 1) ELSE e.fcells = -1>>,
            <<"cells_to_distance", IF EvenSteps(e.xs) /\ EvenSteps(e.ys) /\ sx = sy THEN e.back = e.n * sx ELSE e.back = -1>>,
            <<"input_untouched", e.same>>}
    [] e.op = "pad" ->
        LET p == Pad2(e.v, e.wy, e.wx, e.how)
            w == Tup([i \in 1..Len(p) |-> Tup(p[i])])
            ok == EvenSteps(e.xs) /\ EvenSteps(e.ys)
        IN IF ~ok \/ e.out2 = "error" THEN {<<"irregular_refused", ~ok /\ e.out2 = "error">>}
           ELSE {<<"padded_" \o e.how, e.got = w>>,
                 <<"extended_axes", e.px = PadAxis(e.xs, e.wx) /\ e.py = PadAxis(e.ys, e.wy)>>,
                 <<"contiguous_bounds", e.bounds>>, <<"metadata", e.meta>>,
                 <<"removed", e.back = e.v /\ e.bx = e.xs /\ e.by = e.ys>>, <<"input_untouched", e.same>>}
    [] e.op = "halo" ->
        {<<"halo_grid", e.px = PadAxis(e.xs, e.wx) /\ e.py = PadAxis(e.ys, e.wy)>>, <<"halo_values", e.zero>>,
         <<"halo_removed", \A k \in 1..Len(e.v) : e.got[k] = [i \in 1..(Rows(e.v[k]) - 2 * e.ry) |-> Unpad(e.v[k][i + e.ry], e.rx)]>>,
         <<"halo_axes", e.gx = Unpad(e.xs, e.rx) /\ e.gy = Unpad(e.ys, e.ry)>>, <<"dimensions_kept", e.dims>>,
         <<"input_untouched", e.same>>}
    [] e.op = "latlon" -> {<<"unit_free", \A i \in 1..Len(e.a) : Near(e.a[i], e.b[i], 2)>>, <<"shape", e.shape>>,
                           <<"coordinate_fields", e.fields>>, <<"input_untouched", e.same>>}
    [] e.op = "complex" -> {<<"degrees", \A i \in 1..Len(e.deg) : LET d == Abs(e.got[i] - (e.deg[i] % 36000)) IN d <= 2 \/ d >= 35998>>,
                            <<"range", \A i \in 1..Len(e.deg) : e.got[i] >= 0 /\ e.got[i] < 36000>>, <<"modulus", e.modulus>>, <<"type", e.dtype = "float32">>}
    [] e.op = "vicinity" -> {<<"radius", e.got = (IF e.given > 0 THEN e.given ELSE e.had)>>,
                             <<"maximum_noted", e.noted = (e.given > 0 /\ e.had = 0)>>, <<"name", e.cname = e.want>>}
    [] e.op = "checks" ->
        {<<"axes_required", e.axes = (IF e.hasy /\ e.hasx THEN "ok" ELSE "error")>>,
         <<"dims_mismatch", Range1(e.mis) = (IF e.both THEN (Range1(e.d1) \ Range1(e.d2)) \cup (Range1(e.d2) \ Range1(e.d1)) ELSE Range1(e.d2) \ Range1(e.d1))>>,
         <<"spatial_match", e.match = (\A i \in 1..Len(e.grids) : e.grids[i] = e.grids[1])>>,
         <<"spatial_asserted", e.asserted = (IF \A i \in 1..Len(e.grids) : e.grids[i] = e.grids[1] THEN "ok" ELSE "error")>>}
    [] e.op = "times" ->
        LET ok == Len(e.ts) > 1 /\ (\A i \in 1..Len(e.ts) : e.ts[i].b = e.want /\ e.ts[i].t = e.ts[1].t /\ (e.blend \/ e.ts[i].f = e.ts[1].f))
        IN {<<"times_valid", e.got = (IF ok THEN "ok" ELSE "error")>>}
    [] e.op = "rejected" -> {<<"refuses_" \o e.why, e.out = "error">>}
    [] OTHER -> {<<"known_event", FALSE>>}
Same(s0, e) == s0
INSTANCE TraceRun WITH Judge <- Clauses, Step <- Same, St0 <- 0
=============================================================================
