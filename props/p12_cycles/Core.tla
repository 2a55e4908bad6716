-------------------------------- MODULE Core --------------------------------
(* Cycles, lead times and periods.  Times are minutes since 1970.              *)
EXTENDS Fixed

(* ---- the calendar -----------------------------------------------------------*)
Days(y, m, d) ==
  LET yy == IF m <= 2 THEN y - 1 ELSE y
      era == yy \div 400
      yoe == yy - era * 400
      doy == (153 * (IF m > 2 THEN m - 3 ELSE m + 9) + 2) \div 5 + d - 1
  IN era * 146097 + yoe * 365 + yoe \div 4 - yoe \div 100 + doy - 719468
Minutes(y, m, d, h, mi) == (Days(y, m, d) * 24 + h) * 60 + mi

(* ---- lead times ---------------------------------------------------------------*)
(* one lead time for every time (and cycle); bounds likewise                      *)
Pick(s, i) == IF Len(s) = 1 THEN s[1] ELSE s[i]
Lead(ts, frts) == [i \in 1..Max2(Len(ts), Len(frts)) |-> Pick(ts, i) - Pick(frts, i)]
LeadBounds(tb, frts) ==
  IF tb = <<>> THEN <<>>
  ELSE [i \in 1..Max2(Len(tb), Len(frts)) |->
          <<Pick(tb, i)[1] - Pick(frts, i), Pick(tb, i)[2] - Pick(frts, i)>>]

(* ---- one cycle for all ----------------------------------------------------------*)
Latest(fs) == SetMax({fs[i].frt : i \in 1..Len(fs)})
Rebadged(fs, cycle) == [i \in 1..Len(fs) |->
  [frt |-> cycle, ts |-> fs[i].ts, tb |-> fs[i].tb,
   fp |-> Lead(fs[i].ts, <<cycle>>), fb |-> LeadBounds(fs[i].tb, <<cycle>>)]]

(* ---- a lagged ensemble -------------------------------------------------------------*)
(* ms: for every forecast the realization numbers; members are named <<i, j>>.          *)
RECURSIVE Members(_, _)
Members(ms, i) == IF i > Len(ms) THEN <<>> ELSE [j \in 1..Len(ms[i]) |-> <<i, j>>] \o Members(ms, i + 1)
RECURSIVE Cat(_)
Cat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Cat(Tail(ss))
Unique(s) == \A i, j \in 1..Len(s) : s[i] = s[j] => i = j
Before(s, k) == {j \in 1..Len(s) : s[j] < s[k]}
Sorted(s) == [r \in 1..Len(s) |-> CHOOSE k \in 1..Len(s) : Cardinality(Before(s, k)) = r - 1]
Numbers(ms) == LET all == Cat(ms) IN IF Unique(all) THEN all ELSE [i \in 1..Len(all) |-> i - 1]
(* realization numbers in order, and the member behind each *)
Lagged(ms) == LET n == Tup(Numbers(ms)) m == Tup(Members(ms, 1)) o == Tup(Sorted(n))
              IN [i \in 1..Len(n) |-> [r |-> n[o[i]], m |-> m[o[i]]]]

(* ---- the nearest time -----------------------------------------------------------------*)
Nearest(ts, t) == SetMin({Abs(ts[i] - t) : i \in 1..Len(ts)})
=============================================================================
