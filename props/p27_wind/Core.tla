-------------------------------- MODULE Core --------------------------------
(* Winds: directions in sixteenths of a turn, sines and cosines in ten-thousandths, *)
(* speeds in tenths, CAPE in J/kg, rain in tenths of mm/h, updraughts in mm/s.       *)
EXTENDS Directions, Exps
SumSn(ds) == SumTo([k \in 1..Len(ds) |-> Sn(ds[k])], Len(ds))
SumCs(ds) == SumTo([k \in 1..Len(ds) |-> Cs(ds[k])], Len(ds))
(* the members' unit vectors cancel: their mean is shorter than a hundredth          *)
Cancels(ds) == LET s == SumSn(ds) c == SumCs(ds) IN Abs(s) + Abs(c) <= 40
(* (sn, cs) in thousandths points along the vector (c to north, s to east)            *)
Scaled(v, big) == IF big >= 100000 THEN RoundDiv(v, big \div 1000) ELSE RoundDiv(v * 1000, Max2(big, 1))
Along(sn, cs, s, c) == LET big == Max2(Abs(s), Abs(c)) IN
   LET s1 == Scaled(s, big) c1 == Scaled(c, big) IN
   Abs(sn * c1 - cs * s1) <= 4000 /\ sn * s1 + cs * c1 > 0
(* cells within r of cell i of a grid of nx columns *)
Square(i, ny, nx, r) == {j \in 1..(ny * nx) : Abs(((j - 1) \div nx) - ((i - 1) \div nx)) <= r /\ Abs(((j - 1) % nx) - ((i - 1) % nx)) <= r}
WideSn(d, i, ny, nx, r) == SumOver([j \in 1..(ny * nx) |-> SumSn([k \in 1..Len(d) |-> d[k][j]])], Square(i, ny, nx, r))
WideCs(d, i, ny, nx, r) == SumOver([j \in 1..(ny * nx) |-> SumCs([k \in 1..Len(d) |-> d[k][j]])], Square(i, ny, nx, r))

Gust(g, w) == IF ~IsNum(g) \/ ~IsNum(w) THEN NaN ELSE Max2(g, w)
(* component of a speed (tenths, result thousandths): a turn of `north` and, for winds *)
(* named by where they come from, half a turn                                        *)
Turned(d, north, from) == (d + north + (IF from THEN 8 ELSE 0)) % 16
East(v, d, north, from) == RoundDiv(v * Sn(Turned(d, north, from)), 100)
North(v, d, north, from) == RoundDiv(v * Cs(Turned(d, north, from)), 100)

FromCape(c) == IF c < 10 THEN 0 ELSE RoundDiv(25 * ISqrt(20000 * c), 10)
FromRain(p) == IF p < 50 THEN 0 ELSE RoundDiv(12284 * ExpNeg(RoundDiv(22 * Ln(30000000 \div p), 1000)), 30000)
Updraught(c, p) == FromCape(c) + FromRain(p)
=============================================================================
