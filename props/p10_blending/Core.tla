-------------------------------- MODULE Core --------------------------------
(* Blended values.                                                            *)
EXTENDS Weights, Directions

(* Weighted mean of the unmasked values; Masked where there is none.            *)
Mean(v, w, sc) ==
  LET K == {k \in 1..Len(v) : v[k] # Masked}
      t == SumOver(w, K)
  IN IF K = {} \/ t = 0 THEN Masked
     ELSE RoundDiv(sc * SumOver([k \in K |-> w[k] * v[k]], K), t)
MeanOk(got, v, w, sc) ==
  LET K == {k \in 1..Len(v) : v[k] # Masked}
      t == SumOver(w, K)
  IN IF K = {} THEN got = Masked
     ELSE t = 0 \/ Near(got, Mean(v, w, sc), 2)

(* ---- percentiles: the mixture of the distributions, each piecewise-linear ----*)
(* Fraction (thousandths of a percent) of a distribution at x (thousandths of a  *)
(* unit), held at its first and last percentile beyond its ends.                 *)
Frac(v, P, x) ==
  LET n == Len(v) IN
  IF x <= 1000 * v[1] THEN 1000 * P[1]
  ELSE IF x >= 1000 * v[n] THEN 1000 * P[n]
  ELSE LET k == CHOOSE i \in 1..(n - 1) : 1000 * v[i] <= x /\ x < 1000 * v[i + 1]
       IN 1000 * P[k] + RoundDiv((P[k + 1] - P[k]) * (x - 1000 * v[k]), v[k + 1] - v[k])
Mixture(vs, w, P, x) == RoundDiv(SumTo([k \in 1..Len(vs) |-> w[k] * Frac(vs[k], P, x)], Len(vs)), SumSeq(w))
(* r (thousandths) is the value at percentile p of the mixture.                  *)
AtPercentile(r, p, vs, w, P) ==
  LET u == {k \in 1..Len(vs) : w[k] > 0}
  IN /\ Mixture(vs, w, P, r - 3) <= 1000 * p + 60
     /\ Mixture(vs, w, P, r + 3) >= 1000 * p - 60

(* Percentiles of one input that coincide (a jump of its distribution) are       *)
(* blended approximately: then only the range is certain.                        *)
Increasing(v) == \A i \in 1..(Len(v) - 1) : v[i] < v[i + 1]
InRange(r, vs) ==
  /\ \E k \in 1..Len(vs) : 1000 * vs[k][1] <= r + 1
  /\ \E k \in 1..Len(vs) : r <= 1000 * vs[k][Len(vs[k])] + 1

(* ---- what contributes: records  name -> share (1/1000), through any blends -----*)
Scaled(rec, share) == [i \in 1..Len(rec) |-> [id |-> rec[i].id, w |-> RoundDiv(rec[i].w * share, S)]]
RECURSIVE Flatten(_)
Flatten(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flatten(Tail(ss))
(* Records of a blend of inputs with records recs and weights w (1/S); inputs of  *)
(* no weight leave no record.                                                    *)
Blend(recs, w) == Flatten([k \in 1..Len(recs) |-> IF w[k] = 0 THEN <<>> ELSE Scaled(recs[k], w[k])])
SameRecord(a, b, tol) == /\ Len(a) = Len(b)
                         /\ \A i \in 1..Len(a) : \E j \in 1..Len(b) : a[i].id = b[j].id /\ Near(a[i].w, b[j].w, tol)
                         /\ \A j \in 1..Len(b) : \E i \in 1..Len(a) : a[i].id = b[j].id
=============================================================================
