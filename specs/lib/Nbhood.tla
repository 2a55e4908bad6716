-------------------------------- MODULE Nbhood -------------------------------
(* Neighbourhood processing.  A field is rows of values or Masked.            *)
(* The square neighbourhood of a point is cut off at the edge of the domain;  *)
(* the circular one continues the edge values beyond it.  Masked points       *)
(* count neither in sums nor in the number of points.                         *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Fixed

SC == 100000      \* output unit

Offsets(r) == (-r..r) \X (-r..r)
Weight(m, w, r, d) ==      \* integer weights, d = <<dy, dx>>
  IF m = "square" THEN 1
  ELSE LET q == d[1] * d[1] + d[2] * d[2]
       IN IF q > r * r THEN 0 ELSE IF w THEN r * r - q ELSE 1
Unit(m, w, r) == IF m = "circular" /\ w THEN r * r ELSE 1    \* the weight of the centre

InDom(f, y, x) == y >= 1 /\ x >= 1 /\ y <= Len(f) /\ x <= Len(f[1])
Near0(v, lo, hi) == Max2(lo, Min2(hi, v))
(* The point an offset leads to, or <<>> outside the domain.                  *)
At(m, f, y, x, d) ==
  IF m = "square" THEN IF InDom(f, y + d[1], x + d[2]) THEN <<y + d[1], x + d[2]>> ELSE <<>>
  ELSE <<Near0(y + d[1], 1, Len(f)), Near0(x + d[2], 1, Len(f[1]))>>

Valid(f, mask, p) == f[p[1]][p[2]] # Masked /\ (mask = <<>> \/ mask[p[1]][p[2]] # 0)

(* Sum of weighted values and of weights over the neighbourhood.              *)
Sums(m, w, r, f, mask, y, x) ==
  LET D == {d \in Offsets(r) : /\ Weight(m, w, r, d) # 0
                               /\ At(m, f, y, x, d) # <<>>
                               /\ Valid(f, mask, At(m, f, y, x, d))}
      V == [d \in D |-> Weight(m, w, r, d) * f[At(m, f, y, x, d)[1]][At(m, f, y, x, d)[2]]]
      N == [d \in D |-> Weight(m, w, r, d)]
  IN [v |-> SumOver(V, D), n |-> SumOver(N, D)]

(* Output at a point; data are integers in units of 1/ds.                     *)
Mean(s, ds) == IF s.n = 0 THEN NaN ELSE RoundDiv(s.v * (SC \div ds), s.n)
Total(s, ds, u) == RoundDiv(s.v * (SC \div ds), u)

Output(m, w, r, sum, remask, f, mask, ds, y, x) ==
  LET s == Sums(m, w, r, f, mask, y, x)
  IN IF remask /\ ~Valid(f, mask, <<y, x>>) THEN Masked
     ELSE IF sum THEN Total(s, ds, Unit(m, w, r)) ELSE Mean(s, ds)

(* Radius in metres at a lead time: linear between those given, constant beyond. *)
RECURSIVE RadiusAt(_, _, _)
RadiusAt(rad, lt, t) ==
  IF t <= lt[1] THEN [n |-> rad[1], d |-> 1]
  ELSE IF Len(lt) = 1 THEN [n |-> rad[1], d |-> 1]
  ELSE IF t <= lt[2] THEN [n |-> rad[1] * (lt[2] - lt[1]) + (rad[2] - rad[1]) * (t - lt[1]),
                           d |-> lt[2] - lt[1]]
  ELSE RadiusAt(Tail(rad), Tail(lt), t)
Cells(q, spacing) == q.n \div (q.d * spacing)

(* Percentiles of the values in a circle, the field being continued beyond    *)
(* its edge by the mean of the outermost s points of the row or column.       *)
(* Everything is kept in units of 1/(s*s).                                    *)
EdgeMean(f, s, y, x) ==       \* s*s times the value at y, x, possibly outside
  LET ny == Len(f)
      nx == Len(f[1])
      sy == Min2(s, ny)
      sx == Min2(s, nx)
      rowsOf == IF y < 1 THEN 1..sy ELSE IF y > ny THEN (ny - sy + 1)..ny ELSE {y}
      colsOf == IF x < 1 THEN 1..sx ELSE IF x > nx THEN (nx - sx + 1)..nx ELSE {x}
      P == rowsOf \X colsOf
      V == [p \in P |-> f[p[1]][p[2]]]
  IN (s * s * SumOver(V, P)) \div Cardinality(P)

CircleValues(f, r, y, x) ==
  LET D == {d \in Offsets(r) : d[1] * d[1] + d[2] * d[2] <= r * r}
      seq == SetToSeq0(D)
  IN [i \in 1..Len(seq) |-> EdgeMean(f, r, y + seq[i][1], x + seq[i][2])]

(* p-th percentile of the values by linear interpolation between the sorted    *)
(* ones, times 100 (p in whole percent).                                      *)
Percentile100(vals, p) ==
  LET s == SortSeq(vals, LAMBDA a, b : a < b)
      n == Len(s)
      h == p * (n - 1)                \* position, in hundredths
      k == h \div 100
  IN IF k + 1 >= n THEN 100 * s[n] ELSE 100 * s[k + 1] + (h % 100) * (s[k + 2] - s[k + 1])
=============================================================================
