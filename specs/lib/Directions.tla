------------------------------ MODULE Directions ----------------------------
(* Directions, in sixteenths of a turn.                                       *)
EXTENDS Fixed
Sin == <<0, 3827, 7071, 9239, 10000, 9239, 7071, 3827, 0, -3827, -7071, -9239, -10000, -9239, -7071, -3827>>
Sn(d) == Sin[(d % 16) + 1]
Cs(d) == Sin[((d + 4) % 16) + 1]
(* sin and cos (in 1/S) of the blended direction point along the mean vector.    *)
DirectionOk(sn, cs, v, w) ==
  LET n == Len(v)
      y == SumTo([k \in 1..n |-> w[k] * Sn(v[k])], n) \div 100
      x == SumTo([k \in 1..n |-> w[k] * Cs(v[k])], n) \div 100
  IN Abs(x) + Abs(y) < 60 \/ (/\ Abs(x * sn - y * cs) <= 60 * (Abs(x) + Abs(y)) + 40000
                               /\ x * cs + y * sn > 0)
=============================================================================
