------------------------------- MODULE Trace --------------------------------
EXTENDS Core, TraceKit
VARIABLES l, st, fails
Pts(q) == 1..Len(q)
Dist2(i, j, nx) == LET y == ((i - 1) \div nx) - ((j - 1) \div nx)  x == ((i - 1) % nx) - ((j - 1) % nx) IN y * y + x * x
FieldOk(e) ==
  LET n == Len(e.cols)
      raw == Tup([i \in 1..n |-> Level(e.cols[i], e.th)])
      slack == Tup([i \in 1..n |-> LevelSlack(e.cols[i], e.th)])
      orog == Tup([i \in 1..n |-> e.cols[i].orog])
      known == {i \in 1..n : raw[i] # NaN}
      lost == (1..n) \ known
      ground == Tup([i \in 1..n |-> MaxGround(orog, i, e.nx, e.radius)])
      use == {i \in known : raw[i] <= ground[i]}
      unsure == {i \in known : Abs(raw[i] - ground[i]) <= slack[i] + 2}
      worst == SetMax({0} \cup {slack[i] : i \in known})
      Is(i, v) == Near(e.got[i], v, worst + 2)
      nearest(i, S) == LET d == SetMin({Dist2(i, j, e.nx) : j \in S}) IN {j \in S : Dist2(i, j, e.nx) = d}
      Filled(i) == IF ~IsNum(e.got[i]) \/ e.got[i] > orog[i] + 2 THEN FALSE
                   ELSE IF unsure # {} THEN TRUE
                   ELSE IF use = {} THEN \E j \in nearest(i, known) : Is(i, Min2(orog[i], raw[j]))
                   ELSE IF Cardinality(use) = 1 THEN \E j \in use : Is(i, Min2(orog[i], raw[j]))
                   ELSE /\ e.got[i] <= SetMax({raw[j] : j \in use}) + worst + 2
                        /\ e.got[i] >= Min2(SetMin({raw[j] : j \in use}), SetMin({orog[j] : j \in lost})) - worst - 2
  IN {<<"melting_level_found", \A i \in known : Near(e.got[i], raw[i], slack[i])>>,
      <<"unknown_masked", e.fill \/ \A i \in lost : e.got[i] = Masked>>,
      <<"holes_filled_from_low_levels", ~e.fill \/ (IF known = {} THEN \A i \in lost : e.got[i] = Masked ELSE \A i \in lost : Filled(i))>>}
Clauses(s0, e) ==
  IF e.op = "rejected" THEN {<<"refused_" \o e.why, e.out = "error">>}
  ELSE IF e.out = "error" THEN {<<"completes", FALSE>>}
  ELSE {<<"described", e.meta>>} \cup
  CASE e.op = "field" ->
        IF Len(e.got) # Len(e.cols) THEN {<<"every_column", FALSE>>}
        ELSE IF \E i \in Pts(e.cols) : ~Clear(e.cols[i], e.th) THEN {}
        ELSE FieldOk(e)
    [] e.op = "hail" ->
        {<<"stone_from_table", Len(e.got) = Len(e.t) /\ \A i \in Pts(e.t) : e.got[i] \in Hails(e.t[i], e.p[i], e.pl, e.env[i], e.wb[i])>>}
    [] e.op = "lookup" ->
        {<<"stone_from_table", Len(e.got) = Len(e.v) /\ \A i \in Pts(e.v) : e.got[i] = Stone(e.v[i], e.h[i], e.wb[i])>>}
Same(s0, e) == s0
INSTANCE TraceRun WITH Judge <- Clauses, Step <- Same, St0 <- 0
=============================================================================
