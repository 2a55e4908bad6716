-------------------------------- MODULE Core --------------------------------
(* Categories from decision trees, and the category of a period.                  *)
EXTENDS Fixed
(* --- trees: a function from names to nodes -----------------------------------  *)
(* leaf: [kind, code, night]   (night = code if there is no night variant)        *)
(* node: [kind, t, f, miss, cmp, comb, tests, needs]                               *)
Leaf(T, n) == T[n].kind = "leaf"
Lacks(T, n, absent) == ~Leaf(T, n) /\ \E d \in Range1(T[n].needs) : d \in absent
(* where a way into n leads when optional nodes are passed over                    *)
RECURSIVE Through(_, _, _)
Through(T, n, absent) ==
  IF ~Lacks(T, n, absent) THEN n
  ELSE Through(T, IF T[n].miss = "t" THEN T[n].t ELSE T[n].f, absent)
Lost(T, absent) == \E n \in DOMAIN T : Lacks(T, n, absent) /\ T[n].miss = ""
(* arithmetic: signed terms of a field times mul over div (1, 2 or 4), quarters    *)
Fields(tst) == {tst.terms[i].field : i \in 1..Len(tst.terms)}
Known(tst, v) == \A g \in Fields(tst) : IsNum(v[g])
Sum4(tst, v) == SumTo([i \in 1..Len(tst.terms) |-> tst.terms[i].s * v[tst.terms[i].field] * tst.terms[i].mul * (4 \div tst.terms[i].div)], Len(tst.terms))
Cmp(a, op, b) == CASE op = "<" -> a < b [] op = ">" -> a > b [] op = "<=" -> a <= b [] op = ">=" -> a >= b
Holds(nd, v) ==
  IF \E i \in 1..Len(nd.tests) : ~Known(nd.tests[i], v) THEN "U"
  ELSE LET h(i) == Cmp(Sum4(nd.tests[i], v), nd.cmp, 4 * nd.tests[i].p)
           all == \A i \in 1..Len(nd.tests) : h(i)
           any == \E i \in 1..Len(nd.tests) : h(i)
       IN IF (IF nd.comb = "OR" THEN any ELSE all) THEN "T" ELSE "F"
(* a node that leads the same way whatever its answer may or may not be asked      *)
RECURSIVE Walk(_, _, _, _)
Walk(T, n, absent, H) ==
  LET m == Through(T, n, absent)
  IN IF Leaf(T, m) THEN m
     ELSE IF H[m] = "U" THEN "none" ELSE Walk(T, IF H[m] = "T" THEN T[m].t ELSE T[m].f, absent, H)
Easy(T, absent, H) ==
  [n \in DOMAIN H |-> IF Through(T, T[n].t, absent) = Through(T, T[n].f, absent) THEN "T" ELSE H[n]]
(* the code of a point: v its values, day whether the sun is up                    *)
Categories(T, start, absent, v, day) ==
  LET H == [n \in {k \in DOMAIN T : ~Leaf(T, k) /\ ~Lacks(T, k, absent)} |-> Holds(T[n], v)]
      code(m) == IF m = "none" THEN Masked ELSE IF day THEN T[m].code ELSE T[m].night
  IN {code(Walk(T, start, absent, H)), code(Walk(T, start, absent, Easy(T, absent, H)))}
(* --- routes through a tree, as an implementation may enumerate them -----------  *)
RECURSIVE Routes(_, _, _, _)
Routes(T, n, absent, target) ==
  LET m == Through(T, n, absent)
  IN IF m = target THEN {<<>>}
     ELSE IF Leaf(T, m) THEN {}
     ELSE {<<<<m, TRUE>>>> \o r : r \in Routes(T, T[m].t, absent, target)} \cup {<<<<m, FALSE>>>> \o r : r \in Routes(T, T[m].f, absent, target)}
(* --- the category of a period -------------------------------------------------  *)
DayOf(c, nights) == IF \E i \in 1..Len(nights) : nights[i][2] = c THEN nights[CHOOSE i \in 1..Len(nights) : nights[i][2] = c][1] ELSE c
Times(s, c) == Cardinality({i \in 1..Len(s) : s[i] = c})
Often(s) == SetMax({Times(s, c) : c \in Range1(s)})
Top(s) == SetMax({c \in Range1(s) : Times(s, c) = Often(s)})
Merged(s, groups) ==
  LET lowest(g) == SetMin({s[i] : i \in {j \in 1..Len(s) : s[j] \in Range1(groups[g])}})
      grp(c) == {g \in 1..Len(groups) : c \in Range1(groups[g])}
  IN Tup([i \in 1..Len(s) |-> IF grp(s[i]) = {} THEN s[i] ELSE lowest(CHOOSE g \in grp(s[i]) : TRUE)])
Period(s0, nights, groups) ==
  LET s == Tup([i \in 1..Len(s0) |-> DayOf(s0[i], nights)])
  IN IF Len(s) = 1 THEN s[1] ELSE IF 10 * Often(s) < 3 * Len(s) THEN Top(Merged(s, groups)) ELSE Top(s)
(* What a result was made from: every run any input stands for, once.           *)
Runs(ins) == UNION {{ins[k][i] : i \in 1..Len(ins[k])} : k \in 1..Len(ins)}
=============================================================================
