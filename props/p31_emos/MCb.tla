---------------------------------- MODULE MCb ---------------------------------
(* Inputs arrive one at a time, in any order, and are sorted by what they are.          *)
EXTENDS Core, Json, TLC
CONSTANTS Kinds, Most
VARIABLES items
Init == items = <<>>
Next == Len(items) < Most /\ \E k \in Kinds : items' = Append(items, k)
Spec == Init /\ [][Next]_items
Swapped == IF Len(items) < 2 THEN items ELSE [k \in 1..Len(items) |-> items[IF k = 1 THEN 2 ELSE IF k = 2 THEN 1 ELSE k]]
OrderOfInputs == \A n \in BOOLEAN : Sorted(Swapped, n) = Sorted(items, n)
NothingLost == \A n \in BOOLEAN : LET s == Sorted(items, n) IN s.out = "ok" =>
   Len(items) = 1 + (IF s.template THEN 1 ELSE 0) + s.coefs + s.statics + (IF n THEN Cardinality({i \in 1..Len(items) : items[i] = "mask"}) ELSE 0)
NoForecastNoResult == (\A i \in 1..Len(items) : ~IsForecast(items[i])) => \A n, v, p \in BOOLEAN : Outcome(items, n, v, p) = "error"
OnlyWithCoefs == \A n, v, p \in BOOLEAN : Outcome(items, n, v, p) = "calibrated" => v /\ \E i \in 1..Len(items) : items[i] = "coef"
Emit == Len(items) > 0 => PrintT("CASE " \o ToJson([items |-> items]))
===============================================================================
