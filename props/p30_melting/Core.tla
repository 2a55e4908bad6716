-------------------------------- MODULE Core --------------------------------
(* Where falling ice melts, column by column, and the hail a parcel can grow.         *)
(* Heights of levels in whole metres, levels and orography in decimetres, wet bulb     *)
(* temperatures in hundredths of a degree C, their integrals in tenths of K m.         *)
EXTENDS Svp
Thresholds == [snow |-> 900, rain |-> 2025, hail |-> 50000]
(* heights and integrals ordered from the top down; the integral never decreases downwards *)
Undecided(is, th) == \E k \in 1..Len(is) : Abs(is[k] - th) <= 3
Crossing(hs, is, orog, th) ==
  LET S == {k \in 1..(Len(is) - 1) : is[k] <= th /\ th <= is[k + 1]} IN
  IF S = {} THEN NaN
  ELSE LET k == SetMin(S) IN orog + 10 * hs[k] - RoundDiv(RoundDiv((th - is[k]) * 1000, is[k + 1] - is[k]) * (hs[k] - hs[k + 1]), 100)
CrossSlack(hs, is, th) ==
  LET S == {k \in 1..(Len(is) - 1) : is[k] <= th /\ th <= is[k + 1]} IN
  IF S = {} THEN 0 ELSE LET k == SetMin(S) IN 4 + (hs[k] - hs[k + 1]) \div 100 + (12 * (hs[k] - hs[k + 1])) \div (is[k + 1] - is[k])
(* line through the lowest (up to five) levels: slope in 1e-6 K per metre for heights in decametres *)
Sum5(f) == SumTo(f, Len(f))
Slope(hs, ws) == LET n == Len(hs)
   num == n * Sum5([k \in 1..n |-> hs[k] * ws[k]]) - Sum5(hs) * Sum5(ws)
   den == n * Sum5([k \in 1..n |-> hs[k] * hs[k]]) - Sum5(hs) * Sum5(hs)
   IN IF den = 0 THEN NaN ELSE RoundDiv(num * 200, den) * 5
Intercept(hs, ws, m) == RoundDiv(Sum5(ws) * 10 - RoundDiv(m * Sum5(hs), 100), Len(hs))          \* 1e-3 K
(* below the sea: where the integral continued along the line would reach the threshold  *)
Below(m, c, i, th) ==                   \* m < 0; decimetres, relative to the ground
  LET need == ((-m) * (th - i)) \div 5
      s == IF c >= 0 THEN ISqrt(c * c + need) ELSE ISqrt(need)      \* 1e-3 K
  IN Max2(-20000, RoundDiv((c - s) * 2000, -m) * 5)
(* level before any horizontal filling; NaN where none is found                           *)
Level(col, th) ==
  LET x == Crossing(col.hs, col.is, col.orog, th)
      top == col.is[1]
      last == col.is[Len(col.is)]
      m == Slope(col.fh, col.fw)
  IN IF x # NaN THEN x
     ELSE IF top > th THEN col.orog + 10 * col.highest
     ELSE IF col.land THEN NaN
     ELSE IF ~IsNum(m) \/ m >= 0 THEN NaN
     ELSE col.orog + Below(m, Intercept(col.fh, col.fw, m), last, th)
LevelSlack(col, th) ==
  IF Crossing(col.hs, col.is, col.orog, th) # NaN THEN CrossSlack(col.hs, col.is, th)
  ELSE IF col.is[1] > th THEN 1
  ELSE LET m == Slope(col.fh, col.fw) IN
       IF col.land \/ ~IsNum(m) \/ m >= 0 THEN 0 ELSE 15 + Abs(Level(col, th) - col.orog) \div 100 + 30000 \div (-m)
(* a fit too flat, or an integral too close to the threshold, is not judged                 *)
Extended(col, th) == Crossing(col.hs, col.is, col.orog, th) = NaN /\ col.is[1] <= th /\ ~col.land
Clear(col, th) == ~Undecided(col.is, th) /\ (Extended(col, th) => LET m == Slope(col.fh, col.fw) IN ~IsNum(m) \/ Abs(m) > 400)
(* the integral of the positive part, from the top down (heights in metres)                  *)
Pos(w) == Max2(0, w)
RECURSIVE Integrals(_, _)
Integrals(hs, ws) == IF Len(hs) = 1 THEN <<0>>
   ELSE LET r == Integrals(SubSeq(hs, 1, Len(hs) - 1), SubSeq(ws, 1, Len(ws) - 1)) n == Len(hs) IN
        Append(r, r[n - 1] + RoundDiv((Pos(ws[n - 1]) + Pos(ws[n])) * (hs[n - 1] - hs[n]), 20))
(* Filling across the grid: sources are levels no higher than the highest ground within r  *)
Near1(i, j, nx, r) == Abs(((i - 1) \div nx) - ((j - 1) \div nx)) <= r /\ Abs(((i - 1) % nx) - ((j - 1) % nx)) <= r
MaxGround(orog, i, nx, r) == SetMax({orog[j] : j \in {k \in 1..Len(orog) : Near1(i, k, nx, r)}})
(* ------------------------------------------------------------------ hail ------------ *)
Table == << <<0, 0, 0, 2, 2, 5, 5, 5, 5, 5>>, <<0, 0, 0, 2, 5, 5, 5, 5, 10, 10>>, <<0, 0, 2, 2, 5, 5, 10, 10, 15, 15>>, <<0, 0, 2, 2, 5, 10, 15, 15, 20, 20>>,
 <<0, 0, 2, 2, 10, 15, 20, 20, 20, 20>>, <<0, 2, 2, 5, 15, 20, 20, 20, 25, 25>>, <<0, 2, 5, 10, 20, 20, 25, 25, 30, 30>>, <<2, 2, 10, 15, 20, 25, 30, 30, 35, 35>>,
 <<2, 5, 10, 20, 25, 30, 35, 35, 40, 40>>, <<2, 5, 15, 20, 30, 35, 40, 40, 45, 45>>, <<2, 5, 15, 20, 30, 40, 40, 40, 45, 50>>, <<2, 10, 20, 25, 35, 40, 45, 45, 50, 50>>,
 <<5, 10, 20, 25, 40, 40, 45, 50, 55, 55>>, <<5, 15, 20, 30, 40, 45, 50, 55, 60, 60>>, <<5, 15, 25, 30, 40, 45, 55, 60, 60, 65>>, <<5, 15, 25, 35, 40, 50, 55, 60, 65, 75>>,
 <<10, 15, 25, 35, 45, 50, 60, 65, 70, 80>>, <<10, 15, 25, 40, 45, 55, 60, 70, 80, 85>>, <<10, 15, 30, 40, 45, 55, 65, 75, 85, 90>>, <<10, 20, 30, 40, 50, 60, 70, 80, 90, 100>>,
 <<10, 20, 30, 40, 50, 60, 70, 80, 95, 105>>, <<10, 20, 35, 45, 50, 60, 75, 85, 100, 110>>, <<10, 20, 35, 45, 50, 60, 75, 90, 105, 115>>, <<15, 25, 35, 45, 50, 65, 80, 100, 110, 120>>,
 <<15, 25, 35, 45, 55, 65, 80, 100, 110, 120>>, <<15, 25, 35, 50, 55, 65, 80, 100, 110, 120>> >>
Shrunk == [l \in {3350, 3550, 3750, 3950, 4150, 4400} |->
   CASE l = 3350 -> <<0, 5, 10, 15, 25, 50, 65, 75>> [] l = 3550 -> <<0, 0, 5, 10, 20, 20, 25, 30>> [] l = 3750 -> <<0, 0, 0, 5, 10, 15, 15, 15>>
     [] l = 3950 -> <<0, 0, 0, 0, 5, 10, 10, 10>> [] l = 4150 -> <<0, 0, 0, 0, 0, 0, 5, 5>> [] l = 4400 -> <<0, 0, 0, 0, 0, 0, 0, 0>>]
Groups == <<5, 10, 20, 25, 50, 75, 100, 125>>
Melted(size, wb) == IF wb < 3350 THEN size
   ELSE LET l == SetMax({x \in DOMAIN Shrunk : x <= wb}) IN Shrunk[l][1 + Cardinality({k \in 1..8 : Groups[k] <= size})]
HalfEven(n, d) == LET q == n \div d  r == 2 * (n % d) IN IF r > d \/ (r = d /\ q % 2 = 1) THEN q + 1 ELSE q
Stone(v, h, wb) ==        \* buoyancy and lapse in hundredths of a kelvin
  LET row == HalfEven(v, 50)
      col == HalfEven(h, 500) - 1
  IN Melted(IF row < 0 \/ col < 0 THEN 0 ELSE Table[Min2(row, 25) + 1][Min2(col, 9) + 1], wb)
(* pressure at which the profile (pressures ps descending, temperatures ts descending) is 268.15 K *)
PAt(ps, ts) == LET k == CHOOSE j \in 1..(Len(ps) - 1) : ts[j] >= 26815 /\ ts[j + 1] < 26815 IN
   ps[k + 1] + RoundDiv(RoundDiv((26815 - ts[k + 1]) * 10000, ts[k] - ts[k + 1]) * ((ps[k] - ps[k + 1]) \div 100), 100)
Hails(tb, pb, ps, ts, wb) ==
  IF tb < 26815 THEN {Melted(0, wb)}
  ELSE LET p == PAt(ps, ts)
           h == Along(26815, p, pb) - 26815
           v == Parcel(tb, pb, p) - 26815
       IN {Stone(v + dv, h + dh, wb) : dv \in {-10, 0, 10}, dh \in {-10, 0, 10}}
=============================================================================
