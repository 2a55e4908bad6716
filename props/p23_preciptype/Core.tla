-------------------------------- MODULE Core --------------------------------
(* How precipitation is divided among rain, sleet, snow, hail and freezing rain, *)
(* and showers told from dynamic rain. Ratios are millionths.                     *)
EXTENDS Fixed
One == 1000000
(* --- snow fraction: rain and snow amounts over one ny x nx slice, row by row --- *)
Wet(r, s, i) == r[i] + s[i] > 0
Frac(r, s, i) == RoundDiv(One * s[i], r[i] + s[i])
Row(i, nx) == (i - 1) \div nx
Col(i, nx) == (i - 1) % nx
D2(i, j, nx) == (Row(i, nx) - Row(j, nx)) * (Row(i, nx) - Row(j, nx)) + (Col(i, nx) - Col(j, nx)) * (Col(i, nx) - Col(j, nx))
NearestWet(r, s, i, nx) ==
  LET w == {j \in 1..Len(r) : Wet(r, s, j)}
      d == SetMin({D2(i, j, nx) : j \in w})
  IN {j \in w : D2(i, j, nx) = d}
Filled(r, s, nx, got, tol) ==
  LET w == {j \in 1..Len(r) : Wet(r, s, j)} IN
  \A i \in 1..Len(r) : IF w = {} THEN ~IsNum(got[i])
                        ELSE \E j \in NearestWet(r, s, i, nx) : Near(got[i], Frac(r, s, j), tol)
(* --- which phase a snow fraction (ten-thousandths) signifies ---                  *)
Phase(f) == IF f <= 100 THEN "rain" ELSE IF f >= 9900 THEN "snow" ELSE "sleet"
(* --- phase at a surface of altitude a, given the level the phase starts from ---  *)
Reaches(kind, a, lev) == IF kind = "snow" THEN a >= lev ELSE a < lev
PctOf(kind) == IF kind = "snow" THEN 80 ELSE 20
(* --- sharing precipitation p between rain and snow: halves ---                    *)
Part(p, mine, other) == IF IsNum(p) THEN p * (1 + mine - other) ELSE p
Sleet(rain, snow, one) == one - rain - snow
(* --- freezing rain: r, s, t sixteenths by member; ids of the members they hold --- *)
Common(ri, si, ti) == {x \in Range1(ri) : x \in Range1(si) /\ x \in Range1(ti)}
IndexOf(q, x) == CHOOSE i \in 1..Len(q) : q[i] = x
Freezing(ri, si, ti, r, s, t) ==
  LET c == SetToSeq0(Common(ri, si, ti))
      x == Tup([k \in 1..Len(c) |-> (r[IndexOf(ri, c[k])] + s[IndexOf(si, c[k])]) * t[IndexOf(ti, c[k])]])
  IN RoundDiv(SumTo(x, Len(c)) * 3906 + RoundDiv(SumTo(x, Len(c)), 4), Len(c))
(* --- hail: updraught in tenths of m/s, size in tenths of mm, tenths of K, metres --- *)
Linear(w) == IF w <= 50 THEN 0 ELSE IF w >= 500 THEN 250000 ELSE RoundDiv((w - 50) * 250000, 450)
Hail(w, size, ccl, cct, melt, orog) ==
  LET f == IF ccl < 26815 \/ cct > 25815 \/ melt > orog THEN 0 ELSE Linear(w)
  IN IF size > 20 /\ f < 50000 THEN 50000 ELSE f
(* --- showers: cloud and convective ratio (64ths) by member, their thresholds ---   *)
Showery(c, v, ct, vt) == c <= ct \/ (IsNum(v) /\ v > vt)
Showers(c, v, ct, vt) == RoundDiv(One * Cardinality({k \in 1..Len(c) : Showery(c[k], v[k], ct, vt)}), Len(c))
(* --- how much of the precipitation is convective ---                               *)
Convective(c, d) == IF ~IsNum(c) \/ ~IsNum(d) \/ c + d = 0 THEN Masked ELSE RoundDiv(One * c, c + d)
=============================================================================
