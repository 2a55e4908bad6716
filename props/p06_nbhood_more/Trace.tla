------------------------------- MODULE Trace --------------------------------
EXTENDS Core, TraceKit
VARIABLES l, st, fails

Radius(e, k) == IF e.lead_times = <<>> THEN [n |-> e.radii[1], d |-> 1]
                ELSE RadiusAt(e.radii, e.lead_times, e.hours[k])
R(e, k) == Cells(Radius(e, k), e.spacing)
Same2(a, b) == Len(a) = Len(b) /\ \A y \in 1..Len(a) : a[y] = b[y]
NearAll(a, b, tol) == /\ Len(a) = Len(b)
                      /\ \A y \in 1..Len(a) : /\ Len(a[y]) = Len(b[y])
                                              /\ \A x \in 1..Len(a[y]) : Near(a[y][x], b[y][x], tol)
NY(e) == Len(e.data[1])
NX(e) == Len(e.data[1][1])
Ks(e) == (1..Len(e.data)) \X (1..NY(e)) \X (1..NX(e))

Clauses(s0, e) ==
  IF Has(e, "out") /\ e.out = "error" /\ e.op # "rejected" THEN {<<"completes", FALSE>>}
  ELSE CASE e.op = "zones" ->
        IF e.shape # <<Len(e.data), Len(e.zones), NY(e), NX(e)>> THEN {<<"shape", FALSE>>}
        ELSE {<<"zone_values", \A k \in Ks(e) : \A z \in 1..Len(e.zones) :
                 Near(e.values[k[1]][z][k[2]][k[3]], ZoneValue(e, k[1], z, k[2], k[3], R(e, k[1])), IF e.sum THEN 5 ELSE 2)>>,
              <<"metadata", e.meta_same>>}
    [] e.op = "collapsed" ->
        IF e.shape # <<Len(e.data), NY(e), NX(e)>> THEN {<<"shape", FALSE>>}
        ELSE {<<"collapsed_values", \A k \in Ks(e) :
                 Near(e.values[k[1]][k[2]][k[3]], Collapsed(e, k[1], k[2], k[3], R(e, k[1])), IF e.sum THEN 6 ELSE 3)>>,
              <<"metadata", e.meta_same>>}
    [] e.op = "landsea" ->
        IF e.shape # <<Len(e.data), NY(e), NX(e)>> THEN {<<"shape", FALSE>>}
        ELSE {<<"land_and_sea_apart", \A k \in Ks(e) :
                 Near(e.values[k[1]][k[2]][k[3]], LandSea(e, k[1], k[2], k[3], R(e, k[1])), IF e.sum THEN 5 ELSE 2)>>}
    [] e.op = "landsea_zones" ->
        IF e.shape # <<Len(e.data), NY(e), NX(e)>> THEN {<<"shape", FALSE>>}
        ELSE {<<"zones_on_land", \A k \in Ks(e) :
                 Near(e.values[k[1]][k[2]][k[3]], IF e.land[k[2]][k[3]] = 1 THEN Collapsed(e, k[1], k[2], k[3], R(e, k[1])) ELSE LandSea(e, k[1], k[2], k[3], R(e, k[1])), IF e.sum THEN 6 ELSE 3)>>}
    [] e.op = "recursive" ->
        IF e.shape # <<Len(e.data), NY(e), NX(e)>> THEN {<<"shape", FALSE>>}
        ELSE {<<"filtered", \A k \in 1..Len(e.data) :
                 LET want == Recursive(e.data[k], e.cx, e.cy, e.mask, e.n, 2 * e.width)
                 IN \A y \in 1..NY(e) : \A x \in 1..NX(e) :
                    Near(e.values[k][y][x],
                         IF e.mask # <<>> /\ e.mask[y][x] = 1 THEN Masked ELSE want[y][x], 6 * e.n + 6)>>,
              <<"metadata", e.meta_same>>, <<"coefficients_left_alone", e.coef_same>>}
    [] e.op = "pad" ->
        LET want == IF e.method = "constant" THEN PadConst2(e.data, e.wy, e.wx)
                    ELSE PadSym2(e.data, e.wy, e.wx)
        IN {<<"padded_values", Same2(e.values, want)>>,
            <<"padded_y", e.ypts = PadCoord(e.y, e.wy)>>, <<"padded_x", e.xpts = PadCoord(e.x, e.wx)>>,
            <<"bounds", e.bounds_ok>>,
            <<"metadata", e.meta_same>>,
            <<"trim_undoes_padding", Same2(e.back, e.data) /\ e.backy = e.y /\ e.backx = e.x>>}
    [] e.op = "halo" ->
        {<<"halo_y", e.ypts = PadCoord(e.y, e.radius \div e.spacing)>>,
         <<"halo_x", e.xpts = PadCoord(e.x, e.radius \div e.spacing)>>,
         <<"removed", e.dims_same /\ Len(e.back) = Len(e.data) /\ \A k \in 1..Len(e.data) :
            Same2(e.back[k], Trim2(e.data[k], e.radius \div e.spacing, e.radius \div e.spacing))>>}
    [] e.op = "boxsum" ->
        LET g == IF e.padded THEN PadConst2(e.data, e.i \div 2, e.j \div 2) ELSE e.data
            o == IF e.padded THEN 0 ELSE 1
        IN {<<"box_totals", /\ Len(e.values) = (IF e.padded THEN Len(e.data) ELSE Len(e.data) - e.i)
                            /\ \A y \in 1..Len(e.values) :
                               /\ Len(e.values[y]) = (IF e.padded THEN Len(e.data[1]) ELSE Len(e.data[1]) - e.j)
                               /\ \A x \in 1..Len(e.values[y]) : e.values[y][x] = BoxSum(g, y + o, x + o, e.i, e.j)>>}
    [] e.op = "window" ->
        LET g == IF ~e.padded THEN e.data
                 ELSE IF e.mode = "symmetric" THEN PadSym2(e.data, e.i \div 2, e.j \div 2)
                 ELSE PadConst2(e.data, e.i \div 2, e.j \div 2)
        IN {<<"window_shape", /\ Len(e.values) = Len(g) - e.i + 1
                              /\ \A y \in 1..Len(e.values) : Len(e.values[y]) = Len(g[1]) - e.j + 1>>,
            <<"window_values", \A y \in 1..Len(e.values) : \A x \in 1..Len(e.values[y]) :
                 e.values[y][x] = [a \in 1..e.i |-> [b \in 1..e.j |-> g[y + a - 1][x + b - 1]]]>>}
    [] e.op = "vicinity" ->
        IF e.shape # <<Len(e.data), Len(e.cells), NY(e), NX(e)>> THEN {<<"shape", FALSE>>}
        ELSE {<<"vicinity_maximum", \A k \in Ks(e) : \A r \in 1..Len(e.cells) :
                 e.values[k[1]][r][k[2]][k[3]] = VicinityMax(e.data[k[1]], e.land, e.cells[r], k[2], k[3])>>,
              <<"vicinity_name", e.got_name = e.want_name>>, <<"radii_recorded", e.radii = e.got_radii>>,
              <<"radius_units", e.units = (IF e.native THEN "1" ELSE "m")>>,
              <<"metadata", e.meta_same>>, <<"input_untouched", e.same>>}
    [] e.op = "rejected" -> {<<"refuses_" \o e.why, e.out = "error">>}
    [] OTHER -> {<<"known_event", FALSE>>}
Same(s0, e) == s0
INSTANCE TraceRun WITH Judge <- Clauses, Step <- Same, St0 <- 0
=============================================================================
