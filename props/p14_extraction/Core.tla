-------------------------------- MODULE Core --------------------------------
(* Extraction of parts of a cube by constraints on its coordinates, of levels    *)
(* from columns, and of values from tables.                                      *)
EXTENDS Fixed

(* ---- constraints: [coord, kind, vals, step] ---------------------------------*)
Meets(p, c) ==
  CASE c.kind = "any" -> TRUE
    [] c.kind = "eq" -> p = c.vals[1]
    [] c.kind = "list" -> p \in Range1(c.vals)
    [] c.kind = "range" -> /\ p >= Min2(c.vals[1], c.vals[2])
                           /\ p <= Max2(c.vals[1], c.vals[2])
RECURSIVE Every(_, _)
Every(s, k) == IF s = <<>> THEN <<>> ELSE <<Head(s)>> \o Every(IF Len(s) <= k THEN <<>> ELSE SubSeq(s, k + 1, Len(s)), k)
Thinned(s, k) == IF k <= 1 THEN s ELSE Every(s, k)
(* indices of a dimension that all the constraints on it select, in order         *)
Chosen(pts, cs) ==
  LET idx == SelectSeq([i \in 1..Len(pts) |-> i], LAMBDA i : \A k \in 1..Len(cs) : Meets(pts[i], cs[k]))
      step == IF \E k \in 1..Len(cs) : cs[k].step > 1
              THEN (CHOOSE k \in {cs[j].step : j \in 1..Len(cs)} : k > 1) ELSE 1
  IN Thinned(idx, step)

(* Longitudes wrap: those in [lo, hi] give or take full circles, from lo upwards.  *)
Wrapped(p, lo) == lo + ((p - lo) % 3600)
RECURSIVE ByValue(_, _)
ByValue(I, v) == IF I = {} THEN <<>>
  ELSE LET m == CHOOSE i \in I : \A j \in I : v[i] <= v[j] IN <<m>> \o ByValue(I \ {m}, v)
Around(pts, lo, hi) ==
  LET w == [i \in 1..Len(pts) |-> Wrapped(pts[i], lo)]
  IN ByValue({i \in 1..Len(pts) : w[i] <= hi}, w)

(* ---- levels ---------------------------------------------------------------------*)
(* Missing values are filled from above (later levels), then from below, stepping   *)
(* by inc (hundredths) so that columns stay monotonic.                               *)
RECURSIVE FillDown(_, _, _), FillUp(_, _, _)
FillDown(v, i, inc) == IF i = 0 THEN v
  ELSE FillDown(IF v[i] = Masked /\ v[i + 1] # Masked THEN [v EXCEPT ![i] = v[i + 1] - inc] ELSE v, i - 1, inc)
FillUp(v, i, inc) == IF i > Len(v) THEN v
  ELSE FillUp(IF v[i] = Masked /\ v[i - 1] # Masked THEN [v EXCEPT ![i] = v[i - 1] + inc] ELSE v, i + 1, inc)
Filled(v, inc) == FillUp(FillDown(v, Len(v) - 1, inc), 2, inc)
(* Height (or pressure) z at which the falling column v first reaches t; clamped.    *)
Level(v, z, t) ==
  IF t >= v[1] THEN 100 * z[1]
  ELSE IF \A k \in 1..Len(v) : t < v[k] THEN 100 * z[Len(v)]
  ELSE LET k == CHOOSE j \in 2..Len(v) : v[j] <= t /\ \A i \in 2..(j - 1) : v[i] > t
       IN 100 * z[k - 1] + RoundDiv(100 * (z[k] - z[k - 1]) * (v[k - 1] - t), v[k - 1] - v[k])

(* Levels in either order and columns that rise or fall: always searched upwards from the surface *)
Back(v) == [i \in 1..Len(v) |-> v[Len(v) + 1 - i]]
FromSurface(v, z, t, last, rising) ==
  LET v1 == IF last THEN Back(v) ELSE v
      z1 == IF last THEN Back(z) ELSE z
  IN IF rising THEN Level([i \in 1..Len(v1) |-> -v1[i]], z1, -t) ELSE Level(v1, z1, t)

(* ---- tables -----------------------------------------------------------------------*)
Lower(labels, x) == LET below == {i \in 1..Len(labels) : labels[i] <= x}
                    IN IF below = {} THEN 1 ELSE SetMax(below)
Lookup(t, rows, cols, r, c) == IF r = NaN \/ c = NaN THEN NaN ELSE t[Lower(rows, r)][Lower(cols, c)]
=============================================================================
