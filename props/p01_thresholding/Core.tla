-------------------------------- MODULE Core --------------------------------
(* Thresholding: the exceedance probability of each point.                   *)
(*                                                                           *)
(* A field is a function from (slice, y, x) to a value or Masked; slices are  *)
(* taken in one at a time (an ensemble is never held whole), each adding its  *)
(* truth values and its count of valid points: the transition Take below.     *)
(* The result of a point is the mean of the contributions it received.        *)
(* Values and thresholds are integers on a common scale; probabilities are    *)
(* fixed point with unit ONE.                                                *)
EXTENDS Integers, Sequences, FiniteSets, Fixed

ONE == 100000

Above(cmp) == cmp \in {">", "gt", "GT", ">=", "ge", "GE"}
Relative(cmp) == CASE cmp \in {">", "gt", "GT"}  -> "greater_than"
                   [] cmp \in {">=", "ge", "GE"} -> "greater_than_or_equal_to"
                   [] cmp \in {"<", "lt", "LT"}  -> "less_than"
                   [] cmp \in {"<=", "le", "LE"} -> "less_than_or_equal_to"

Exceeds(x, t, cmp) == CASE Relative(cmp) = "greater_than" -> x > t
                        [] Relative(cmp) = "greater_than_or_equal_to" -> x >= t
                        [] Relative(cmp) = "less_than" -> x < t
                        [] Relative(cmp) = "less_than_or_equal_to" -> x <= t

Clip(p) == Max2(0, Min2(ONE, p))

(* Membership of x for threshold t with bounds lo <= t <= hi.                 *)
Fuzzy(x, t, lo, hi) ==
  IF x < t THEN Clip(RoundDiv((ONE \div 2) * (x - lo), t - lo))
           ELSE Clip((ONE \div 2) + RoundDiv((ONE \div 2) * (x - t), hi - t))

Truth(x, t, lo, hi, cmp) ==
  IF lo = hi THEN IF Exceeds(x, t, cmp) THEN ONE ELSE 0
  ELSE IF Above(cmp) THEN Fuzzy(x, t, lo, hi) ELSE ONE - Fuzzy(x, t, lo, hi)

(* The window of grid cells within r of (y, x), inside an ny by nx grid.      *)
Window(y, x, r, ny, nx) ==
  {<<j, i>> \in (Max2(1, y - r)..Min2(ny, y + r)) \X (Max2(1, x - r)..Min2(nx, x + r)) : TRUE}

(* Truth at (y, x) of one slice (rows of values), spread over a vicinity of   *)
(* radius r among unmasked points of the same surface type.  r = 0: none.     *)
(* land is "none" or rows of 0/1.                                            *)
PointTruth(slice, land, r, y, x, t, lo, hi, cmp) ==
  IF r = 0 THEN Truth(slice[y][x], t, lo, hi, cmp)
  ELSE SetMax({Truth(slice[w[1]][w[2]], t, lo, hi, cmp) :
         w \in {v \in Window(y, x, r, Len(slice), Len(slice[1])) :
                   /\ slice[v[1]][v[2]] # Masked
                   /\ land = <<>> \/ land[v[1]][v[2]] = land[y][x]}})

(* One step of the accumulation at a point.                                   *)
Contribution(acc, slice, land, r, y, x, t, lo, hi, cmp) ==
  IF slice[y][x] = Masked THEN acc
  ELSE [sum |-> acc.sum + PointTruth(slice, land, r, y, x, t, lo, hi, cmp), n |-> acc.n + 1]

RECURSIVE Accumulate(_, _, _, _, _, _, _, _, _, _)
Accumulate(slices, k, land, r, y, x, t, lo, hi, cmp) ==
  IF k = 0 THEN [sum |-> 0, n |-> 0]
  ELSE Contribution(Accumulate(slices, k - 1, land, r, y, x, t, lo, hi, cmp), slices[k],
                    land, r, y, x, t, lo, hi, cmp)

Result(acc) == IF acc.n = 0 THEN Masked ELSE RoundDiv(acc.sum, acc.n)
=============================================================================
