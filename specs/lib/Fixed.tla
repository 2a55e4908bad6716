------------------------------- MODULE Fixed --------------------------------
(* Fixed-point numbers recorded from the implementation, with sentinels for  *)
(* values that are not finite numbers, and helpers on integer sequences.     *)
EXTENDS Integers, Sequences, FiniteSets

NaN    == 2000000001
Masked == 2000000002
PInf   == 2000000003
NInf   == 2000000004
Over   == 2000000005

(* A sequence evaluated once (TLC would otherwise recompute its elements).     *)
Tup(f) == <<>> \o f

IsNum(x) == x < 2000000000 /\ x > -2000000000
Abs(x) == IF x < 0 THEN -x ELSE x
Max2(a, b) == IF a >= b THEN a ELSE b
Min2(a, b) == IF a <= b THEN a ELSE b
Near(a, b, tol) == IF IsNum(a) /\ IsNum(b) THEN Abs(a - b) <= tol ELSE a = b

RECURSIVE SumSeq(_)
SumSeq(s) == IF s = <<>> THEN 0 ELSE s[1] + SumSeq(Tail(s))

RECURSIVE SumTo(_, _)
SumTo(f, n) == IF n = 0 THEN 0 ELSE f[n] + SumTo(f, n - 1)

RECURSIVE SumOver(_, _)
SumOver(f, S) == IF S = {} THEN 0
                 ELSE LET x == CHOOSE y \in S : TRUE IN f[x] + SumOver(f, S \ {x})

SetMax(S) == CHOOSE x \in S : \A y \in S : x >= y
SetMin(S) == CHOOSE x \in S : \A y \in S : x <= y

(* Division rounding to nearest (half away from zero); d > 0.                *)
RoundDiv(n, d) == IF n >= 0 THEN (2 * n + d) \div (2 * d) ELSE -((2 * (-n) + d) \div (2 * d))

RECURSIVE SetToSeq0(_)
SetToSeq0(S) == IF S = {} THEN <<>>
                ELSE LET x == CHOOSE y \in S : TRUE IN <<x>> \o SetToSeq0(S \ {x})

Count(s, v) == Cardinality({i \in 1..Len(s) : s[i] = v})
SameBag(s, t) == Len(s) = Len(t) /\ \A i \in 1..Len(s) : Count(s, s[i]) = Count(t, s[i])
Range1(s) == {s[i] : i \in 1..Len(s)}
=============================================================================
