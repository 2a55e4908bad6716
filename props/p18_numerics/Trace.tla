------------------------------- MODULE Trace --------------------------------
EXTENDS Core, TraceKit
VARIABLES l, st, fails
S == 1000
Same2(a, b, tol) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : Len(a[i]) = Len(b[i]) /\ \A j \in 1..Len(a[i]) : Near(a[i][j], b[i][j], tol)
Range2(v) == <<SetMin(Range1(v)), SetMax(Range1(v))>>
(* known points, gaps and the candidates of a linear interpolation: the planes      *)
(* through those triangles around the point whose circumcircles hold no known point *)
Sq(p) == p[1] * p[1] + p[2] * p[2]
InCircle(a, b, c, p) ==
  LET ax == a[1] - p[1]
      ay == a[2] - p[2]
      bx == b[1] - p[1]
      by == b[2] - p[2]
      cx == c[1] - p[1]
      cy == c[2] - p[2]
  IN (ax * ax + ay * ay) * (bx * cy - cx * by) - (bx * bx + by * by) * (ax * cy - cx * ay) + (cx * cx + cy * cy) * (ax * by - bx * ay) > 0
Empty(t, K) == \A k \in K : ~InCircle(t[1], t[2], t[3], k)
OnPlane(v, t, p) == RoundDiv(S * (v[t[1][1]][t[1][2]] * Cross(t[2], t[3], p) + v[t[2][1]][t[2][2]] * Cross(t[3], t[1], p) + v[t[3][1]][t[3][2]] * Cross(t[1], t[2], p)), Cross(t[1], t[2], t[3]))
Values(v, K, tr, p) == IF p \in K THEN {S * v[p[1]][p[2]]} ELSE {OnPlane(v, t, p) : t \in {u \in tr : InTri(p, u[1], u[2], u[3]) /\ Empty(u, K)}}
Known(v, ok) == {p \in Cells(v) : v[p[1]][p[2]] # NaN /\ ok[p[1]][p[2]] = 1}
Limited(x, lim, p, max) == IF lim = <<>> THEN x ELSE IF max THEN Min2(x, S * lim[p[1]][p[2]]) ELSE Max2(x, S * lim[p[1]][p[2]])
Filled(e) ==
  LET K == Known(e.v, e.valid)
      tr == Tris(K)
  IN \A p \in Cells(e.v) :
       LET g == e.got[p[1]][p[2]] IN
       IF e.v[p[1]][p[2]] # NaN THEN g = S * e.v[p[1]][p[2]]
       ELSE IF K = {} THEN g = NaN
       ELSE IF e.method = "nearest" THEN \E k \in Closest(p, K) : g = Limited(S * e.v[k[1]][k[2]], e.limit, p, e.max)
       ELSE IF tr = {} \/ ~Reach(tr, p) THEN g = NaN
       ELSE \E x \in Values(e.v, K, tr, p) : Near(g, Limited(x, e.limit, p, e.max), 2)
(* the difference to a complete reference is interpolated, then continued outwards   *)
ByDifference(v, ref, got, lim, max) ==
  LET d == Tup([y \in 1..Rows(v) |-> Tup([x \in 1..Cols(v) |-> IF v[y][x] = Masked THEN NaN ELSE ref[y][x] - v[y][x]])])
      K == {p \in Cells(v) : v[p[1]][p[2]] # Masked}
      tr == Tris(K)
      R == IF tr = {} THEN K ELSE {p \in Cells(v) : p \in K \/ Reach(tr, p)}
  IN \A p \in Cells(v) :
       LET g == got[p[1]][p[2]]
           from == IF p \in R THEN {p} ELSE Closest(p, R)
       IN IF p \in K THEN g = S * v[p[1]][p[2]]
          ELSE \E q \in from : \E x \in Values(d, K, tr, q) : Near(g, Limited(S * ref[p[1]][p[2]] - x, lim, p, max), 3)
Fits(e, j) == LET u == SelectSeq(Tup([i \in 1..Len(e.x[j]) |-> i]), LAMBDA i : e.x[j][i] # NaN)
                  x == Tup([i \in 1..Len(u) |-> e.x[j][u[i]]])
                  y == Tup([i \in 1..Len(u) |-> e.y[j][u[i]]])
              IN [s |-> Slope(x, y, S), i |-> Intercept(x, y, S)]
Clauses(s0, e) ==
  CASE e.op = "rescale" ->
        LET d == IF e.d = <<>> THEN Range2(e.v) ELSE e.d
        IN IF ~Rescalable(d, e.s) THEN {<<"zero_range_refused", e.out = "error">>}
           ELSE IF e.out = "error" THEN {<<"completes", FALSE>>}
           ELSE {<<"rescaled", \A i \in 1..Len(e.v) : Near(e.got[i], Rescale(e.v[i], d, e.s, e.clip, S), 1)>>, <<"input_untouched", e.same>>}
    [] e.op = "double" -> {<<"double_scaled", e.out = "ok" /\ \A i \in 1..Len(e.v) : Near(e.got[i], DoubleScaled(e.v[i], e.w[i], e.d, e.s, e.how, S), 1)>>}
    [] e.op = "integrate" ->
        LET c == Tup(Directed(e.c, e.c, e.up))
            k == Tup(Strides(c, 1, e.up, e.from, e.to))
        IN IF k = <<>> THEN {<<"no_range_refused", e.out = "error">>}
           ELSE IF e.out = "error" THEN {<<"completes", FALSE>>}
           ELSE {<<"integral", \A j \in 1..Len(e.v) : LET w == Tup(Directed(e.v[j], e.c, e.up)) IN Len(e.got[j]) = Len(k) /\ \A n \in 1..Len(k) : Near(e.got[j][n], Integral2(w, c, k, n), 0)>>,
                 <<"levels", e.points = [n \in 1..Len(k) |-> c[k[n] + 1]]>>,
                 <<"level_bounds", e.bounds = [n \in 1..Len(k) |-> <<Min2(c[k[n]], c[k[n] + 1]), Max2(c[k[n]], c[k[n] + 1])>>]>>,
                 <<"metadata", e.meta>>, <<"input_untouched", e.same>>}
    [] e.op = "fit" ->
        {<<"slope", e.out = "ok" /\ \A j \in 1..Len(e.x) : Near(e.slope[j], Fits(e, j).s, 1)>>,
         <<"intercept", e.out = "ok" /\ (e.alone \/ \A j \in 1..Len(e.x) : Near(e.intercept[j], Fits(e, j).i, 2))>>,
         <<"shape", e.out = "ok" /\ e.shape>>}
    [] e.op = "windows" ->
        {<<"box_sum", \A k \in 1..Len(e.v) : e.box[k] = [y \in 1..Rows(e.v[k]) |-> [x \in 1..Cols(e.v[k]) |-> BoxSum(e.v[k], y, x, e.h, e.w, e.how)]]>>,
         <<"windows", \A k \in 1..Len(e.v) : e.win[k] = [y \in 1..Rows(e.v[k]) |-> [x \in 1..Cols(e.v[k]) |-> Window(e.v[k], y, x, e.h, e.w, e.how)]]>>,
         <<"box_sum_inside", \A k \in 1..Len(e.v) : e.inner[k] = [y \in 1..(Rows(e.v[k]) - 2 * e.h - 1) |-> [x \in 1..(Cols(e.v[k]) - 2 * e.w - 1) |-> BoxSum(e.v[k], y + e.h + 1, x + e.w + 1, e.h, e.w, "constant")]]>>,
         <<"given_cumulative", e.cum>>, <<"input_untouched", e.same>>}
    [] e.op = "rolling" -> {<<"rolling_window", e.got = [y \in 1..(Rows(e.v) - e.wy + 1) |-> [x \in 1..(Cols(e.v) - e.wx + 1) |->
                               [k \in 1..(e.wy * e.wx) |-> e.v[y + ((k - 1) \div e.wx)][x + ((k - 1) % e.wx)]]]]>>, <<"read_only", e.ro>>}
    [] e.op = "choose" -> {<<"chosen", IF \E i \in 1..Len(e.ix) : \E j \in 1..Len(e.ix[1]) : e.ix[i][j] >= Len(e.a) THEN e.out = "error" ELSE e.out = "ok" /\ e.got = Choose(e.ix, e.a)>>}
    [] e.op = "texture" ->
        LET n == Len(e.f)
            ts == Tup([k \in 1..n |-> Tup([y \in 1..Rows(e.f[k]) |-> Tup(TransField(e.f[k])[y])])])
            tot(y, x) == SumSeq([k \in 1..n |-> Rough(e.f[k], ts[k], y, x, e.r, e.thr)])
        IN IF e.out = "error" THEN {<<"completes", FALSE>>}
           ELSE {<<"texture", \A y \in 1..Rows(e.f[1]) : \A x \in 1..Cols(e.f[1]) : Near(e.got[y][x], RoundDiv(S * tot(y, x), n), 1)>>,
                 <<"metadata", e.meta>>, <<"input_untouched", e.same>>}
    [] e.op = "mask" -> {<<"masked", e.out = "ok" /\ \A y \in 1..Rows(e.v) : \A x \in 1..Cols(e.v) :
                            e.got[y][x] = IF e.v[y][x] = Masked \/ (e.mask[y][x] = 1) # e.invert THEN Masked ELSE e.v[y][x]>>,
                         <<"mask_untouched", e.same>>}
    [] e.op = "table" ->
        IF e.out = "error" THEN {<<"completes", FALSE>>}
        ELSE {<<"looked_up", \A i \in 1..Len(e.r) : e.got[i] = Looked(e.t, e.rl, e.cl, e.r[i], e.c[i])>>, <<"metadata", e.meta>>}
    [] e.op = "fill" -> {<<"filled_" \o e.method, e.out = "ok" /\ Filled(e)>>}
    [] e.op = "difference" ->
        IF e.out = "error" THEN {<<"completes", FALSE>>}
        ELSE {<<"filled_by_difference", \A k \in 1..Len(e.v) : ByDifference(e.v[k], e.ref[k], e.got[k], e.limit, e.max)>>, <<"metadata", e.meta>>}
    [] e.op = "flat" -> {<<"flattened", e.got = Flat(e.t)>>}
    [] e.op = "rejected" -> {<<e.why, e.out = "error">>}
Same(s0, e) == s0
INSTANCE TraceRun WITH Judge <- Clauses, Step <- Same, St0 <- 0
==============================================================================
