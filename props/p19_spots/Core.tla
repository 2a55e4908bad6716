-------------------------------- MODULE Core --------------------------------
(* Spot sites on a grid: which grid point stands for a site, what is taken    *)
(* from it, and how it is adjusted to the height of the site.                 *)
EXTENDS Fixed
NONE == 999999
(* A grid has columns g.xs, rows g.ys (regular, any direction), heights       *)
(* g.oro[y][x], g.land[y][x] in {0, 1}; g.ring: degrees around the globe.     *)
Cells(g) == (1..Len(g.ys)) \X (1..Len(g.xs))
Gap(g, a, b) == LET d == Abs(a - b) IN IF g.ring THEN LET m == d % 360 IN Min2(m, 360 - m) ELSE d
Nearest1(S, f(_)) == CHOOSE i \in S : \A j \in S : f(i) <= f(j)
Column(g, x) == Nearest1(1..Len(g.xs), LAMBDA i : Gap(g, g.xs[i], x))
Row(g, y) == Nearest1(1..Len(g.ys), LAMBDA i : Abs(g.ys[i] - y))
Plain(g, s) == <<Row(g, s[2]), Column(g, s[1])>>
Half(c) == Abs(c[2] - c[1])
Within(c, v) == 2 * v >= 2 * SetMin(Range1(c)) - Half(c) /\ 2 * v <= 2 * SetMax(Range1(c)) + Half(c)
InDomain(g, s) == Within(g.ys, s[2]) /\ (g.ring \/ Within(g.xs, s[1]))
(* squared distances: km on a plane, of the chord on a sphere (radius 100)    *)
Cos15 == <<10000, 9659, 8660, 7071, 5000, 2588, 0>>
Cosine(d) == LET m == Abs(d) % 360
                 q == IF m > 180 THEN 360 - m ELSE m
             IN IF q <= 90 THEN Cos15[q \div 15 + 1] ELSE -Cos15[(180 - q) \div 15 + 1]
Sine(d) == Cosine(90 - d)
Prod(a, b) == RoundDiv(a * b, 10000)
Chord2(a, b) == 2 * (10000 - Prod(Sine(a[2]), Sine(b[2])) - Prod(Prod(Cosine(a[2]), Cosine(b[2])), Cosine(a[1] - b[1])))
Sq(x) == x * x
Apart(g, p, s) == LET q == <<g.xs[p[2]], g.ys[p[1]]>>
                  IN IF g.ring THEN Chord2(q, s) ELSE Sq(q[1] - s[1]) + Sq(q[2] - s[2])
Reach2(g, r) == IF g.ring THEN RoundDiv(Sq(r \div 10) * 100, 4059) ELSE Sq(r)
Slack(g) == IF g.ring THEN 120 ELSE 0
(* Candidates of a constrained search, and the cells it may choose.           *)
Pool(g, land) == IF land THEN {p \in Cells(g) : g.land[p[1]][p[2]] = 1} ELSE Cells(g)
Near2(g, s, land, r) == {p \in Pool(g, land) : Apart(g, p, s) < Reach2(g, r)}
ByLand(g, s, r) ==
  LET C == Near2(g, s, TRUE, r)
  IN IF C = {} THEN {Plain(g, s)} ELSE {p \in C : \A q \in C : Apart(g, p, s) <= Apart(g, q, s) + Slack(g)}
(* the n nearest candidates, up to ties: those certainly and possibly among   *)
Sure(g, s, C, n) == {p \in C : Cardinality({q \in C : Apart(g, q, s) <= Apart(g, p, s) + Slack(g)}) <= n}
Maybe(g, s, C, n) == {p \in C : Cardinality({q \in C : Apart(g, q, s) < Apart(g, p, s) - Slack(g)}) < n}
Lift(g, p, h) == Abs(h - g.oro[p[1]][p[2]])
ByHeight(g, s, h, land, r, n) ==
  LET C == Near2(g, s, land, r)
      U == Sure(g, s, C, n)
  IN IF C = {} THEN {Plain(g, s)}
     ELSE {p \in Maybe(g, s, C, n) : \A q \in U : \/ Lift(g, p, h) < Lift(g, q, h)
                                                  \/ Lift(g, p, h) = Lift(g, q, h) /\ Apart(g, p, s) <= Apart(g, q, s) + Slack(g)}
Height(g, s, h) == IF h = NONE THEN g.oro[Plain(g, s)[1]][Plain(g, s)[2]] ELSE h
Choices(g, s, h, land, dz, r, n) ==
  IF dz THEN ByHeight(g, s, Height(g, s, h), land, r, n) ELSE IF land THEN ByLand(g, s, r) ELSE {Plain(g, s)}
Method(land, dz) == "nearest" \o (IF land THEN "_land" ELSE "") \o (IF dz THEN "_minimum_dz" ELSE "")
Kept(g, sites) == SelectSeq(Tup([i \in 1..Len(sites) |-> i]), LAMBDA i : InDomain(g, sites[i]))
(* Temperature t (1e-3 K) moved by d (0.1 m) with lapse rate lr (1e-4 K/m):   *)
(* beyond fifty metres the standard atmosphere takes over.                    *)
Clip(d, m) == IF d > m THEN m ELSE IF d < -m THEN -m ELSE d
Lapsed(t, d, lr) == IF ~IsNum(lr) THEN NaN ELSE LET c == Clip(d, 500) IN t + RoundDiv(lr * c + (-65) * (d - c), 100)
(* The value of a line through (x[k], v[k]), constant beyond its ends.        *)
Interp(x, v, at, scale) ==
  IF at <= x[1] THEN scale * v[1] ELSE IF at >= x[Len(x)] THEN scale * v[Len(x)]
  ELSE LET k == CHOOSE i \in 1..(Len(x) - 1) : x[i] <= at /\ at < x[i + 1]
       IN scale * v[k] + RoundDiv(scale * (v[k + 1] - v[k]) * (at - x[k]), x[k + 1] - x[k])
=============================================================================
