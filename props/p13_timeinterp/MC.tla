-------------------------------- MODULE MC ----------------------------------
(* A run of forecasts is interpolated pair by pair.                            *)
EXTENDS Core, Json, TLC
CONSTANTS Vals, Gaps, NPairs, Kinds
VARIABLES kind, run, cuts, out
(* run: sequence of [t, v]; cuts: the times asked of each pair; out: what is made *)
Init == kind \in Kinds /\ (\E v \in Vals, g \in Gaps : run = <<[t |-> g, v |-> v, p |-> g]>>) /\ cuts = <<>> /\ out = <<>>
Last == run[Len(run)]
Value(a, b, ts, i) ==
  CASE kind = "linear" -> Linear1(a.v, b.v, a.t, b.t, ts[i], 1000)
    [] kind = "max" -> Highest(a.v, b.v, a.t, b.t, ts[i], 1000)
    [] kind = "min" -> Lowest(a.v, b.v, a.t, b.t, ts[i], 1000)
    [] kind = "accumulation" -> Accum(a.v, b.v, a.p, b.p, a.t, b.t, ts, 1000)[i]
Extend == \E v \in Vals, g \in Gaps : \E C \in SUBSET ((Last.t + 1)..(Last.t + g - 1)) :
  LET b == [t |-> Last.t + g, v |-> v, p |-> g]
      ts == Ascending(C \cup {b.t})
  IN /\ Len(run) <= NPairs
     /\ run' = Append(run, b) /\ cuts' = Append(cuts, Ascending(C)) /\ kind' = kind
     /\ out' = out \o [i \in 1..Len(ts) |-> [lo |-> IF i = 1 THEN Last.t ELSE ts[i - 1], hi |-> ts[i],
                                           v |-> Value(Last, b, ts, i), src |-> Len(run) + 1]]
Next == Extend
Spec == Init /\ [][Next]_<<kind, run, cuts, out>>
(* every instant after the first time falls in exactly one new period             *)
Covered == \A i \in 1..Len(out) : out[i].lo = (IF i = 1 THEN run[1].t ELSE out[i - 1].hi) /\ out[i].hi > out[i].lo
Part(k) == {i \in 1..Len(out) : out[i].src = k}
(* totals are kept, to rounding                                                   *)
Conserved == kind = "accumulation" => \A k \in 2..Len(run) :
   LET tot == SumOver([i \in Part(k) |-> out[i].v], Part(k))
       r == Share(run[k - 1].v, run[k].v, run[k - 1].p, run[k].p, run[k - 1].t, run[k].t, <<run[k].t>>)
   IN Abs(tot - 1000 * run[k].v) <= Cardinality(Part(k))
(* the extremes of a long period are those of the short ones it is made of        *)
Extremes == \A k \in 2..Len(run) : Part(k) # {} =>
   /\ kind = "max" => SetMax({out[i].v : i \in Part(k)}) = 1000 * run[k].v
   /\ kind = "min" => SetMin({out[i].v : i \in Part(k)}) = 1000 * run[k].v
(* given times are hit exactly                                                    *)
Hit == kind = "linear" => \A i \in 1..Len(out) : \A k \in 1..Len(run) : run[k].t = out[i].hi => out[i].v = 1000 * run[k].v
NotNegative == \A i \in 1..Len(out) : out[i].v >= 0
Emit == Len(run) >= 2 => PrintT("CASE " \o ToJson([kind |-> kind, run |-> run, cuts |-> cuts]))
=============================================================================
