-------------------------------- MODULE Core --------------------------------
(* Fields at times between two given ones.  Times are integers.               *)
EXTENDS Directions

(* a * b / d in 1/s, for a * b and s * d within 32 bits.                        *)
MulDiv(a, b, d, s) == s * ((a * b) \div d) + RoundDiv(s * ((a * b) % d), d)

Linear1(v0, v1, t0, t1, t, sc) == RoundDiv(sc * (v0 * (t1 - t) + v1 * (t - t0)), t1 - t0)
Highest(v0, v1, t0, t1, t, sc) == Min2(sc * v1, Linear1(v0, v1, t0, t1, t, sc))
Lowest(v0, v1, t0, t1, t, sc)  == Max2(sc * v1, Linear1(v0, v1, t0, t1, t, sc))

(* Accumulations: the rate changes linearly; what falls in each period is in     *)
(* proportion to its mean rate and length, and all of them add to the whole.      *)
(* p0, p1: lengths of the periods of the two inputs; ts: ends of new periods.     *)
Rate(v0, v1, p0, p1, t0, t1, t) == v0 * p1 * (t1 - t) + v1 * p0 * (t - t0)
Share(v0, v1, p0, p1, t0, t1, ts) ==
  LET edge == <<t0>> \o ts IN
  Tup([i \in 1..Len(ts) |->
     (Rate(v0, v1, p0, p1, t0, t1, edge[i]) + Rate(v0, v1, p0, p1, t0, t1, edge[i + 1]))
       * (edge[i + 1] - edge[i])])
Accum(v0, v1, p0, p1, t0, t1, ts, sc) ==
  LET q == Share(v0, v1, p0, p1, t0, t1, ts)
      tot == SumSeq(q)
  IN [i \in 1..Len(ts) |-> IF tot = 0 THEN 0 ELSE MulDiv(v1, q[i], tot, sc)]

(* Quantities that follow the sun; s, s0, s1: sines of its elevation in 1/10000.  *)
Solar(v0, v1, s0, s1, s, t0, t1, t) ==
  LET a0 == IF v0 = 0 THEN 0 ELSE RoundDiv(v0 * 100000, s0)
      a1 == IF v1 = 0 THEN 0 ELSE RoundDiv(v1 * 100000, s1)
      a  == a0 + RoundDiv((a1 - a0) * (t - t0), t1 - t0)
  IN IF s <= 0 THEN 0 ELSE RoundDiv(RoundDiv(a, 10) * s, 10000)    \* v is whole: result 1/1
DayNight(v0, v1, s, t0, t1, t, sc) == IF s <= 0 THEN 0 ELSE Linear1(v0, v1, t0, t1, t, sc)

(* The times wanted: every step, or those listed, and always the later time.      *)
Steps(t0, t1, k) == [i \in 1..((t1 - t0) \div k) |-> t0 + i * k]
RECURSIVE Ascending(_)
Ascending(T) == IF T = {} THEN <<>> ELSE <<SetMin(T)>> \o Ascending(T \ {SetMin(T)})
Wanted(t0, t1, times) == Ascending(Range1(times) \cup {t1})
=============================================================================
