-------------------------------- MODULE Core --------------------------------
(* Neighbourhoods seen through a set of masks, the recursive filter, halos    *)
(* and moving windows.                                                        *)
EXTENDS Nbhood

(* ---- a set of masks ---------------------------------------------------- *)
(* Value in zone z at a point: only points of the zone count; NaN if none.    *)
ZoneValue(e, k, z, y, x, r) ==
  Output(e.method, FALSE, r, e.sum, FALSE, e.data[k], e.zones[z], e.ds, y, x)
(* Collapsed: weighted by the zone weights, zones with no value ignored.       *)
Collapsed(e, k, y, x, r) ==
  LET W(z) == e.weights[z][y][x]
      V(z) == ZoneValue(e, k, z, y, x, r)
      Zs == {z \in 1..Len(e.zones) : W(z) # Masked /\ V(z) # NaN}
      tot == SumOver([z \in Zs |-> W(z)], Zs)
  IN IF tot = 0 THEN Masked
     ELSE RoundDiv(SumOver([z \in Zs |-> W(z) * V(z)], Zs), tot)

(* Land and sea each smoothed on its own.                                     *)
Flip(m) == [y \in 1..Len(m) |-> [x \in 1..Len(m[1]) |-> 1 - m[y][x]]]
LandSea(e, k, y, x, r) ==
  Output(e.method, FALSE, r, e.sum, FALSE, e.data[k],
         IF e.land[y][x] = 1 THEN e.land ELSE Flip(e.land), e.ds, y, x)

(* ---- halos ------------------------------------------------------------- *)
SymIx(i, n) == LET m == (i - 1) % (2 * n) IN IF m < n THEN m + 1 ELSE 2 * n - m
PadSym(s, w) == Tup([i \in 1..(Len(s) + 2 * w) |-> s[SymIx(i - w, Len(s))]])
PadSym2(f, wy, wx) == LET g == PadSym(f, wy) IN Tup([i \in 1..Len(g) |-> PadSym(g[i], wx)])
InRange(y, x, f) == y >= 1 /\ x >= 1 /\ y <= Len(f) /\ x <= Len(f[1])
PadConst2(f, wy, wx) ==
  [y \in 1..(Len(f) + 2 * wy) |-> [x \in 1..(Len(f[1]) + 2 * wx) |->
     IF InRange(y - wy, x - wx, f) THEN f[y - wy][x - wx] ELSE 0]]
PadCoord(p, w) == [i \in 1..(Len(p) + 2 * w) |-> p[1] + (i - w - 1) * (p[2] - p[1])]
Trim2(f, wy, wx) ==
  [y \in 1..(Len(f) - 2 * wy) |-> [x \in 1..(Len(f[1]) - 2 * wx) |-> f[y + wy][x + wx]]]

(* ---- recursive filter -------------------------------------------------- *)
(* One pass along a row: coefficients c (tenths) join neighbours i and i+1.    *)
Mix(c, a, b) == RoundDiv((10 - c) * a + c * b, 10)
RECURSIVE Fwd(_, _, _), Bwd(_, _, _)
Fwd(s, c, i) == IF i > Len(s) THEN s ELSE Fwd([s EXCEPT ![i] = Mix(c[i - 1], s[i], s[i - 1])], c, i + 1)
Bwd(s, c, i) == IF i < 1 THEN s ELSE Bwd([s EXCEPT ![i] = Mix(c[i], s[i], s[i + 1])], c, i - 1)
Pass(s, c) == LET f == Fwd(s, c, 2) IN Bwd(f, c, Len(s) - 1)
Rows(f, cx) == Tup([y \in 1..Len(f) |-> Pass(f[y], cx[y])])
Transp(f) == Tup([x \in 1..Len(f[1]) |-> Tup([y \in 1..Len(f) |-> f[y][x]])])
Cols(f, cy) == Transp(Rows(Transp(f), Transp(cy)))
RECURSIVE Filter(_, _, _, _)
Filter(f, cx, cy, n) == IF n = 0 THEN f ELSE Filter(Cols(Rows(f, cx), cy), cx, cy, n - 1)
(* The coefficients are zero where either neighbour is masked.                *)
MaskX(cx, m) == [y \in 1..Len(cx) |-> [x \in 1..Len(cx[1]) |->
                   IF m # <<>> /\ m[y][x] + m[y][x + 1] > 0 THEN 0 ELSE cx[y][x]]]
MaskY(cy, m) == [y \in 1..Len(cy) |-> [x \in 1..Len(cy[1]) |->
                   IF m # <<>> /\ m[y][x] + m[y + 1][x] > 0 THEN 0 ELSE cy[y][x]]]
Recursive(f, cx, cy, m, n, w) ==
  Trim2(Filter(PadSym2(f, w, w), PadSym2(MaskX(cx, m), w, w), PadSym2(MaskY(cy, m), w, w), n), w, w)

(* ---- moving windows ---------------------------------------------------- *)
BoxSum(f, y, x, i, j) ==   \* sum of the i by j box whose first point is y, x
  LET P == {p \in (y..(y + i - 1)) \X (x..(x + j - 1)) : InRange(p[1], p[2], f)}
  IN SumOver([p \in P |-> f[p[1]][p[2]]], P)

(* ---- maximum in the vicinity of a point --------------------------------- *)
VicinityMax(f, land, r, y, x) ==
  IF f[y][x] = Masked THEN Masked
  ELSE LET ny == Len(f)
           nx == Len(f[1])
           V == {f[w[1]][w[2]] : w \in {v \in ((y - r)..(y + r)) \X ((x - r)..(x + r)) :
                     /\ v[1] >= 1 /\ v[1] <= ny /\ v[2] >= 1 /\ v[2] <= nx
                     /\ f[v[1]][v[2]] # Masked
                     /\ (land = <<>> \/ land[v[1]][v[2]] = land[y][x])}}
       IN CHOOSE m \in V : \A u \in V : u <= m
=============================================================================
