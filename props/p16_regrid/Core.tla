------------------------------- MODULE Core ---------------------------------
(* Regridding from a latitude-longitude grid whose points are eight steps apart, *)
(* with or without regard to the surface types.  Rows and columns count from 0;  *)
(* a target is [u, v] in steps north and east of the first source point.         *)
EXTENDS Fixed, FiniteSets
SameMap(f, g) == DOMAIN f = DOMAIN g /\ \A n \in DOMAIN f : f[n] = g[n]
Inside(t, ny, nx) == t.u >= 0 /\ t.v >= 0 /\ t.u <= 8 * (ny - 1) /\ t.v <= 8 * (nx - 1)
(* the cell (by its first row or column) of a position; on a line, either side    *)
Cells(u, n) == {k \in 0..(n - 2) : 8 * k <= u /\ u <= 8 * (k + 1)}
Src(i, j, nx) == i * nx + j + 1
(* the corners of a cell: first, north, north-east, east                          *)
Corners(c, d, nx) == <<Src(c, d, nx), Src(c + 1, d, nx), Src(c + 1, d + 1, nx), Src(c, d + 1, nx)>>
Bilinear(a, b) == <<(8 - a) * (8 - b), a * (8 - b), a * b, (8 - a) * b>>
(* three corners span a plane: weights in eighths, the odd one out being k         *)
Plane(k, a, b) == CASE k = 1 -> <<0, 8 - b, a + b - 8, 8 - a>>
                    [] k = 2 -> <<8 - b, 0, a, b - a>>
                    [] k = 3 -> <<8 - a - b, a, 0, b>>
                    [] k = 4 -> <<8 - a, a - b, b, 0>>
InPlane(k, a, b) == \A i \in 1..4 : Plane(k, a, b)[i] >= 0
OnEdge(k, a, b) == InPlane(k, a, b) /\ \E i \in 1..4 \ {k} : Plane(k, a, b)[i] = 0
Missing(v) == v = NaN \/ v = Masked
(* weighted mean at a scale; missing when any source with weight is missing         *)
Mean(ws, vs, total, scale) ==
  IF \E i \in 1..Len(ws) : ws[i] # 0 /\ Missing(vs[i]) THEN NaN
  ELSE RoundDiv(scale * SumTo([i \in 1..Len(ws) |-> IF ws[i] = 0 THEN 0 ELSE ws[i] * vs[i]], Len(ws)), total)
Vals(src, ix) == [i \in 1..Len(ix) |-> src[ix[i]]]
BilinearAt(src, t, c, d, nx, scale) ==
  Mean(Bilinear(t.u - 8 * c, t.v - 8 * d), Vals(src, Corners(c, d, nx)), 64, scale)
(* nearest in degrees                                                               *)
Dist2(t, s, nx) == LET i == (s - 1) \div nx
                       j == (s - 1) % nx IN (t.u - 8 * i) * (t.u - 8 * i) + (t.v - 8 * j) * (t.v - 8 * j)
NearestTo(t, S, nx) == {s \in S : \A r \in S : Dist2(t, s, nx) <= Dist2(t, r, nx)}
(* ---- surface types; D[s] distances (metres) to one target, near ties within eps  *)
Ahead(D, s, eps) == {r \in DOMAIN D : D[r] < D[s] - eps}
MayBe(D, n, eps) == {s \in DOMAIN D : Cardinality(Ahead(D, s, eps)) < n}
Nearests(D, n, eps) == MayBe(D, n, eps)
Settled(D, n, eps) == Cardinality(MayBe(D, n, eps)) <= n
Closest(D, S, eps) == {s \in S : \A r \in S : D[s] <= D[r] + eps}
Alike(land, S, type) == {s \in S : land[s] = type}
(* sources that may stand for the target with nearest-with-mask                      *)
NearestAlike(t, D, land, type, c, d, nx, vic, eps) ==
  LET cs == Range1(Corners(c, d, nx))
      n4 == Nearests(D, 4, eps)
      n8 == {s \in Nearests(D, 8, eps) : D[s] <= vic}
  IN IF Alike(land, cs, type) = cs THEN NearestTo(t, cs, nx)
     ELSE IF Alike(land, n4, type) # {} THEN Closest(D, Alike(land, n4, type), eps)
     ELSE IF Alike(land, n8, type) # {} THEN Closest(D, Alike(land, n8, type), eps)
     ELSE Closest(D, n4, eps)
(* inverse distance weighting with weights P[s]; a source at the target decides        *)
SetSeq(S) == SetToSeq0(S)
Weighed(src, D, P, S0, scale, eps) ==
  LET S == IF \E s \in S0 : D[s] <= eps THEN {s \in S0 : D[s] <= eps} ELSE S0
      q == SetSeq(S) IN Mean([i \in 1..Len(q) |-> P[q[i]]], Vals(src, q), SumTo([i \in 1..Len(q) |-> P[q[i]]], Len(q)), scale)
(* the up to four nearest of a set                                                     *)
First4(D, S) == {s \in S : Cardinality({r \in S : D[r] < D[s] \/ (D[r] = D[s] /\ r < s)}) < 4}
(* the set of admissible values of bilinear-with-mask                                  *)
BilinearAlike(src, t, D, P, land, type, c, d, nx, vic, scale, eps) ==
  LET cs == Corners(c, d, nx)
      a == t.u - 8 * c
      b == t.v - 8 * d
      odd == {k \in 1..4 : land[cs[k]] # type}
      n4 == Alike(land, Nearests(D, 4, eps), type)
      n8 == Alike(land, {s \in Nearests(D, 8, eps) : D[s] <= vic}, type)
      plain == Mean(Bilinear(a, b), Vals(src, cs), 64, scale)
      far == IF n8 # {} THEN Weighed(src, D, P, First4(D, n8), scale, eps) ELSE plain
      idw == IF n4 # {} THEN Weighed(src, D, P, n4, scale, eps) ELSE far
  IN IF odd = {} THEN {plain}
     ELSE IF Cardinality(odd) = 1 THEN
        LET k == CHOOSE x \in odd : TRUE
            pl == Mean(Plane(k, a, b), Vals(src, cs), 8, scale)
        IN IF ~ InPlane(k, a, b) THEN {idw} ELSE IF OnEdge(k, a, b) THEN {pl, idw} ELSE {pl}
     ELSE IF Cardinality(odd) = 4 THEN {far}
     ELSE {idw}
(* ---- adjusting points after nearest-neighbour regridding (all on one grid) ----    *)
Cheb(p, q) == Max2(Abs(p[1] - q[1]), Abs(p[2] - q[2]))
Eucl2(p, q) == (p[1] - q[1]) * (p[1] - q[1]) + (p[2] - q[2]) * (p[2] - q[2])
Points(ny, nx) == (1..ny) \X (1..nx)
(* values that may replace the one at p                                                *)
Adjusted(v, in, out, ny, nx, r, p) ==
  LET same == {q \in Points(ny, nx) : in[q[1]][q[2]] = out[p[1]][p[2]]}
  IN IF p \in same \/ ~ \E q \in same : Cheb(p, q) <= r THEN {v[p[1]][p[2]]}
     ELSE {v[q[1]][q[2]] : q \in {s \in same : \A z \in same : Eucl2(p, s) <= Eucl2(p, z)}}
(* ---- a cut-out of a grid ---- *)
CutOut(g, c) == \E k \in 0..(Len(g) - 1) : k + Len(c) <= Len(g) /\ \A i \in 1..Len(c) : c[i] = g[k + i]
=============================================================================
