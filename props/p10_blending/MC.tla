-------------------------------- MODULE MC ----------------------------------
(* Forecasts of two models, blended over cycles and then over models: each      *)
(* forecast is a single run or a blend, with the record of what it is made of.   *)
EXTENDS Core, Json, TLC
CONSTANTS Vals, MaxRuns
VARIABLES pool, log
vars == <<pool, log>>
(* a forecast: [v, rec]; v in thousandths                                        *)
Run(m, c, v) == [v |-> 1000 * v, rec |-> <<[id |-> <<m, c>>, w |-> 1000]>>, model |-> m]
Init == pool = <<>> /\ log = <<>>
Arrive == /\ Len(pool) < MaxRuns /\ log = <<>>
          /\ \E v \in Vals, m \in {1, 2} : pool' = Append(pool, Run(m, Len(pool) + 1, v))
          /\ UNCHANGED log
ByModel(m) == SelectSeq(pool, LAMBDA f : f.model = m)
W(y0, yn, n) == Linear(y0, yn, n)
Combine(fs, w, m) == [v |-> Mean([k \in 1..Len(fs) |-> fs[k].v], w, 1),
                      rec |-> Blend([k \in 1..Len(fs) |-> fs[k].rec], w), model |-> m]
CycleBlend == \E m \in {1, 2}, y0 \in 0..1 :
   /\ Len(ByModel(m)) > 1
   /\ pool' = SelectSeq(pool, LAMBDA f : f.model # m) \o <<Combine(ByModel(m), W(y0, 1, Len(ByModel(m))), m)>>
   /\ log' = Append(log, [kind |-> "cycle", y0 |-> y0])
ModelBlend == \E a \in 0..3 :
   /\ Len(pool) = 2 /\ pool[1].model # pool[2].model
   /\ pool' = <<Combine(pool, Normalised(<<a, 3 - a>>), 3)>>
   /\ log' = Append(log, [kind |-> "model", a |-> a])
Next == Arrive \/ ((log = <<>> => Len(pool) = MaxRuns) /\ (CycleBlend \/ (log # <<>> /\ ModelBlend)))
Spec == Init /\ [][Next]_vars
RecordsSumToOne == \A i \in 1..Len(pool) :
   Near(SumTo([k \in 1..Len(pool[i].rec) |-> pool[i].rec[k].w], Len(pool[i].rec)), 1000, 2 * MaxRuns)
WithinInputs == \A i \in 1..Len(pool) : pool[i].v >= 1000 * SetMin(Vals) - 2 /\ pool[i].v <= 1000 * SetMax(Vals) + 2
OneRecordEach == \A i \in 1..Len(pool) : \A j, k \in 1..Len(pool[i].rec) : j # k => pool[i].rec[j].id # pool[i].rec[k].id
Emit == (Len(pool) = 1 /\ log # <<>>) => PrintT("CASE " \o ToJson([log |-> log, f |-> pool[1]]))
=============================================================================
