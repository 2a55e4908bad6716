--------------------------------- MODULE MCb ---------------------------------
(* A profile grows level by level; its positive part is integrated, a line is    *)
(* fitted through it and its values are rescaled.                                 *)
EXTENDS Core, Json
CONSTANTS MaxN, Vals, Steps
SomeVals == {-3, 0, 1, 4}
VARIABLES c, v
vars == <<c, v>>
Init == c = <<>> /\ v = <<>>
Level == \E d \in Steps : \E w \in Vals : Len(c) < MaxN /\ c' = Append(c, IF c = <<>> THEN -2 ELSE c[Len(c)] + d) /\ v' = Append(v, w)
Next == Level
Spec == Init /\ [][Next]_vars
N == Len(c)
All == Tup(Strides(c, 1, TRUE, None, None))
(* integrals add over ranges, do not fall, and do not depend on the direction       *)
Additive == N >= 2 => \A k \in 1..N :
   LET a == Tup(Strides(c, 1, TRUE, None, c[k]))
       b == Tup(Strides(c, 1, TRUE, c[k], None))
   IN /\ Len(a) + Len(b) = Len(All)
      /\ Integral2(v, c, a, Len(a)) + Integral2(v, c, b, Len(b)) = Integral2(v, c, All, Len(All))
Rising == \A n \in 1..Len(All) : Integral2(v, c, All, n) >= Integral2(v, c, All, n - 1)
Symmetric == N >= 2 => LET rc == Tup(Rev(c))
                           rv == Tup(Rev(v))
                           k == Tup(Strides(rc, 1, FALSE, None, None)) IN Integral2(rv, rc, k, Len(k)) = Integral2(v, c, All, Len(All))
(* a line through points on a line is that line; shifting shifts the intercept        *)
Exact == N >= 2 => Slope(c, [i \in 1..N |-> 3 * c[i] + 5], 1) = 3 /\ Intercept(c, [i \in 1..N |-> 3 * c[i] + 5], 1) = 5
Shift == N >= 2 => FitN(c, v) = FitN(c, [i \in 1..N |-> v[i] + 7])
(* rescaling carries ends to ends and clipping keeps it between                        *)
Ends == N >= 2 => LET d == <<c[1], c[N]>> IN Rescale(c[1], d, <<2, 9>>, FALSE, 10) = 20 /\ Rescale(c[N], d, <<9, 2>>, FALSE, 10) = 20
Between == N >= 2 => \A x \in -12..12 : Rescale(x, <<c[1], c[N]>>, <<9, 2>>, TRUE, 10) \in 20..90
Emit == N >= 2 => PrintT("CASE " \o ToJson([c |-> c, v |-> v]))
===============================================================================
