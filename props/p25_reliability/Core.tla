-------------------------------- MODULE Core --------------------------------
(* Reliability calibration. Probabilities are counted in units of 2^-22.           *)
EXTENDS Fixed
One == 4194304
Tiny == 4  (* the width of a single-valued bin, a little under 1e-6                 *)
(* --- the bin a forecast probability belongs to, n bins with the ends single or not *)
BinOf(p, n, lo, hi) ==
  LET m == n - (IF lo THEN 1 ELSE 0) - (IF hi THEN 1 ELSE 0)
      k == Min2((p * m) \div One, m - 1)
  IN IF ~IsNum(p) THEN 0
     ELSE IF lo /\ p <= Tiny THEN 1
     ELSE IF hi /\ p >= One - Tiny THEN n
     ELSE (IF lo THEN 2 ELSE 1) + k
(* what the forecasts f (by time) and truths t (0, 1 or missing) add up to in bin b  *)
Counted(f, t, k, b, n, lo, hi) == IsNum(f[k]) /\ IsNum(t[k]) /\ BinOf(f[k], n, lo, hi) = b
Table(f, t, b, n, lo, hi) ==
  LET ks == {k \in 1..Len(f) : Counted(f, t, k, b, n, lo, hi)}
  IN <<Cardinality({k \in ks : t[k] = 1}), SumOver(f, ks), Cardinality(ks)>>
Unseen(t) == \A k \in 1..Len(t) : ~IsNum(t[k])
(* --- tables as sequences of bins <<observed, summed forecasts, count, first, last>> *)
(* where first and last are the original bins it is made of                          *)
Both(a, b) == <<a[1] + b[1], a[2] + b[2], a[3] + b[3], a[4], b[5]>>
Merge(q, u) == Tup([i \in 1..(Len(q) - 1) |-> IF i < u - 1 THEN q[i] ELSE IF i = u - 1 THEN Both(q[i], q[u]) ELSE q[i + 1]])
(* the undersampled bin nearest to enough, joined to its smaller neighbour           *)
Under(q, min) == {i \in 1..Len(q) : q[i][3] < min}
Worst(q, min) == LET s == Under(q, min)
                     c == SetMax({q[i][3] : i \in s})
                 IN SetMin({i \in s : q[i][3] = c})
Upper(q, i) == IF i = 1 THEN 2 ELSE IF i = Len(q) THEN i ELSE IF q[i + 1][3] > q[i - 1][3] THEN i ELSE i + 1
RECURSIVE Combine(_, _)
Combine(q, min) == IF Under(q, min) = {} \/ Len(q) = 1 THEN q ELSE Combine(Merge(q, Upper(q, Worst(q, min))), min)
(* observed frequency falls from bin i to bin i + 1                                  *)
Falls(q, i) == q[i + 1][1] * q[i][3] < q[i][1] * q[i + 1][3]
Rising(q) == \A i \in 1..(Len(q) - 1) : ~Falls(q, i)
TopFall(q) == SetMax({i \in 1..(Len(q) - 1) : Falls(q, i)}) + 1
(* frequencies as <<observed, count>> pairs, made level going away from the end with *)
(* the greater count                                                                *)
Less(a, b) == a[1] * b[2] < b[1] * a[2]
RECURSIVE LevelUp(_, _), LevelDown(_, _)
LevelUp(fr, i) == IF i > Len(fr) THEN fr
                  ELSE LevelUp(IF Less(fr[i], fr[i - 1]) THEN [fr EXCEPT ![i] = fr[i - 1]] ELSE fr, i + 1)
LevelDown(fr, i) == IF i < 1 THEN fr
                    ELSE LevelDown(IF Less(fr[i + 1], fr[i]) THEN [fr EXCEPT ![i] = fr[i + 1]] ELSE fr, i - 1)
Freqs(q) == Tup([i \in 1..Len(q) |-> <<q[i][1], q[i][3]>>])
Level(q) == IF q[1][3] < q[Len(q)][3] THEN LevelDown(Freqs(q), Len(q) - 1) ELSE LevelUp(Freqs(q), 2)
(* bins with enough in them, then frequencies that never fall: <<bins, frequencies>> *)
Manip(q, min) == LET c == Combine(q, min) IN
  IF Rising(c) THEN <<c, Freqs(c)>> ELSE LET m == Merge(c, TopFall(c)) IN <<m, Level(m)>>
(* --- calibrated probability of forecast x (64ths) given bins <<o, s (64ths), n>>,   *)
(* in ten-thousandths                                                                *)
Scale == 10000
Y(b) == RoundDiv(Scale * b[1], b[3])
Seg(x, a, b) ==  (* the line through two bins *)
  LET num == x * a[3] * b[3] - a[2] * b[3]
      den == b[2] * a[3] - a[2] * b[3]
  IN Y(a) + RoundDiv((Y(b) - Y(a)) * RoundDiv(10000 * num, den), 10000)
Below(x, b) == x * b[3] <= b[2]
Calib(x, q) ==
  IF ~IsNum(x) THEN Masked
  ELSE IF Len(q) < 2 THEN RoundDiv(Scale * x, 64)
  ELSE LET ks == {i \in 2..(Len(q) - 1) : Below(x, q[i])}
           k == IF ks = {} THEN Len(q) ELSE SetMin(ks)
       IN Max2(0, Min2(Scale, Seg(x, q[k - 1], q[k])))
RECURSIVE Sort(_)
Sort(s) == IF s = <<>> THEN <<>>
           ELSE LET i == CHOOSE j \in 1..Len(s) : \A k \in 1..Len(s) : s[j] <= s[k]
                IN <<s[i]>> \o Sort(SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s)))
Rev(s) == Tup([i \in 1..Len(s) |-> s[Len(s) + 1 - i]])
(* --- tables of different cycles may be added only if no cycle is in two of them     *)
Apart(b) == \A i, j \in 1..Len(b) : i # j => b[i][2] < b[j][1] \/ b[j][2] < b[i][1]
=============================================================================
