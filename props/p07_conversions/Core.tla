-------------------------------- MODULE Core --------------------------------
(* Probability distributions and what may be read from them.  A distribution  *)
(* is an increasing sequence of thresholds t with probabilities c (twentieths)*)
(* of lying below them.                                                       *)
EXTENDS Nbhood

U == 20
(* Ends added where the smallest and largest possible values are known.       *)
WithEnds(t, lo, hi) == <<lo>> \o t \o <<hi>>
CdfEnds(c) == <<0>> \o c \o <<U>>

(* Piecewise linear x -> y, constant beyond the ends; x at n/d.  Where several *)
(* nodes share the same x anything between their values is right.             *)
Interp(xs, ys, n, d) ==      \* a set of two: least and greatest right answer
  LET k == Len(xs)
      at == {i \in 1..k : xs[i] * d = n}
  IN IF at # {} THEN <<SetMin({ys[i] : i \in at}), SetMax({ys[i] : i \in at})>>
     ELSE IF n < xs[1] * d THEN <<ys[1], ys[1]>>
     ELSE IF n > xs[k] * d THEN <<ys[k], ys[k]>>
     ELSE LET i == CHOOSE j \in 1..(k - 1) : xs[j] * d < n /\ n < xs[j + 1] * d
              v == ys[i] + RoundDiv((ys[i + 1] - ys[i]) * (n - xs[i] * d), (xs[i + 1] - xs[i]) * d)
          IN <<v, v>>
Within(v, r, tol) == IsNum(v) /\ v >= r[1] - tol /\ v <= r[2] + tol

(* Value at percentile n/d (percent).                                         *)
Quantile(t, c, n, d) == Interp(Tup([i \in 1..Len(c) |-> 5 * c[i]]), t, n, d)

Below(c, above) == Tup([i \in 1..Len(c) |-> IF above THEN U - c[i] ELSE c[i]])

(* Expected value: probability mass at the middle of its interval, the rest   *)
(* at the outermost thresholds.  Times 2 U.                                   *)
Expected2U(t, c) ==
  2 * t[1] * c[1] + 2 * t[Len(t)] * (U - c[Len(c)])
  + SumTo([i \in 1..(Len(t) - 1) |-> (c[i + 1] - c[i]) * (t[i] + t[i + 1])], Len(t) - 1)

Between(t, c, above, lo, hi) ==
  LET i == CHOOSE j \in 1..Len(t) : t[j] = lo
      k == CHOOSE j \in 1..Len(t) : t[j] = hi
  IN IF above THEN c[i] - c[k] ELSE c[k] - c[i]

Mono(c) == \A i \in 1..(Len(c) - 1) : c[i] <= c[i + 1]

Inverse == [greater_than |-> "less_than_or_equal_to", greater_than_or_equal_to |-> "less_than",
            less_than |-> "greater_than_or_equal_to", less_than_or_equal_to |-> "greater_than"]
IsAbove(r) == r \in {"greater_than", "greater_than_or_equal_to"}
=============================================================================
