-------------------------------- MODULE Core --------------------------------
(* Combining fields, their time coordinates and their realizations.            *)
EXTENDS Fixed
Num(vs) == SelectSeq(vs, LAMBDA x : x # Masked)
RECURSIVE Prod(_)
Prod(s) == IF s = <<>> THEN 1 ELSE s[1] * Prod(Tail(s))
(* One cell: what the operation makes of its values, times sc.                 *)
Comb(op, vs, sc) ==
  LET n == Num(vs) IN
  IF op = "masked_add" THEN IF n = <<>> THEN Masked ELSE sc * SumSeq(n)
  ELSE IF n # vs THEN Masked
  ELSE CASE op \in {"+", "add"} -> sc * SumSeq(vs)
         [] op \in {"-", "subtract"} -> sc * (2 * vs[1] - SumSeq(vs))
         [] op \in {"*", "multiply"} -> sc * Prod(vs)
         [] op = "max" -> sc * SetMax(Range1(vs))
         [] op = "min" -> sc * SetMin(Range1(vs))
         [] op = "mean" -> RoundDiv(sc * SumSeq(vs), Len(vs))
(* Stepwise, as a running result meets the next field.                         *)
Step1(op, acc, v) ==
  IF op = "masked_add" THEN IF acc = Masked THEN v ELSE IF v = Masked THEN acc ELSE acc + v
  ELSE IF acc = Masked \/ v = Masked THEN Masked
  ELSE CASE op \in {"+", "add", "mean"} -> acc + v
         [] op \in {"-", "subtract"} -> acc - v
         [] op \in {"*", "multiply"} -> acc * v
         [] op = "max" -> Max2(acc, v)
         [] op = "min" -> Min2(acc, v)

(* ---- scalar coordinates [p, b]: b = <<>> or <<lo, hi>>                       *)
Bounded(c) == c.b # <<>>
AllBounds(cs) == UNION {IF Bounded(cs[i]) THEN {cs[i].b[1], cs[i].b[2]} ELSE {cs[i].p} : i \in 1..Len(cs)}
Expanded(cs) ==
  IF \A i \in 1..Len(cs) : cs[i] = cs[1] THEN cs[1]
  ELSE [p |-> SetMax(AllBounds(cs)), b |-> <<SetMin(AllBounds(cs)), SetMax(AllBounds(cs))>>]
Mixed(cs) == (\E i \in 1..Len(cs) : Bounded(cs[i])) /\ \E i \in 1..Len(cs) : ~Bounded(cs[i])

(* ---- realizations common to every time ---------------------------------------*)
Common(rs) == {r \in Range1(rs[1]) : \A i \in 1..Len(rs) : r \in Range1(rs[i])}

(* ---- order statistics ----------------------------------------------------------*)
RECURSIVE SortInts(_)
SortInts(s) == IF s = <<>> THEN <<>>
               ELSE LET m == SetMin(Range1(s))
                        k == CHOOSE i \in 1..Len(s) : s[i] = m
                    IN <<m>> \o SortInts(SubSeq(s, 1, k - 1) \o SubSeq(s, k + 1, Len(s)))
Median2(s) == LET t == SortInts(s) n == Len(s)       \* twice the median
              IN IF n % 2 = 1 THEN 2 * t[(n + 1) \div 2] ELSE t[n \div 2] + t[n \div 2 + 1]
(* n(n-1) times the sample variance                                              *)
Spread(s) == Len(s) * SumSeq([i \in 1..Len(s) |-> s[i] * s[i]]) - SumSeq(s) * SumSeq(s)
(* got (hundredths) is the standard deviation of s.                              *)
StdOk(got, s) ==
  LET d == Len(s) * (Len(s) - 1)
      lo == Max2(got - 1, 0)
  IN IsNum(got) /\ lo * lo * d <= 10000 * Spread(s) /\ (got + 1) * (got + 1) * d >= 10000 * Spread(s)
CollapseOk(got, method, s) ==
  LET n == Num(s) IN
  IF n = <<>> THEN got = Masked
  ELSE CASE method = "mean" -> Near(got, RoundDiv(100 * SumSeq(n), Len(n)), 1)
         [] method = "sum" -> got = 100 * SumSeq(n)
         [] method = "min" -> got = 100 * SetMin(Range1(n))
         [] method = "max" -> got = 100 * SetMax(Range1(n))
         [] method = "median" -> got = 50 * Median2(n)
         [] method = "std_dev" -> IF Len(n) = 1 THEN ~IsNum(got) ELSE StdOk(got, n)

(* indices in ascending order of the first entries                                 *)
SortIdx(rs) == LET ks == SortInts([i \in 1..Len(rs) |-> rs[i][1]])
               IN [i \in 1..Len(rs) |-> CHOOSE j \in 1..Len(rs) : rs[j][1] = ks[i]]

(* ---- heights --------------------------------------------------------------------*)
InLayer(h, lo, hi) == SelectSeq([i \in 1..Len(h) |-> i],
                                LAMBDA i : h[i] >= lo /\ h[i] <= hi)
=============================================================================
