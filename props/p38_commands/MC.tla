---------------------------------- MODULE MC ----------------------------------
(* Options are given to a command one after another.                                      *)
EXTENDS Core, Json, TLC, FiniteSets
CONSTANTS N
VARIABLES cmd, given, left
(* some are of use only with several options: begin with those too                        *)
Linear == << <<"y0val", "20">>, <<"ynval", "2">> >>
Cycles == << <<"coordinate", "forecast_reference_time">>, <<"cycletime", "20171110T0100Z">> >>
Model == << <<"coordinate", "model_id">>, <<"model-id-attr", "mosg__model_configuration">>, <<"cycletime", "20171110T0000Z">> >>
Runs == << <<"record-run-attr", "model_runs">> >>
Named == << <<"new-name", "something_else">> >>
Dictionary == << <<"weighting-method", "dict">>, <<"weighting-config", "json:weights">> >>
Uneven == << <<"weighting-method", "nonlinear">>, <<"cval", "0.85">> >>
Members == << <<"coordinate", "realization">> >>
Blends == {Cycles \o Linear, Model \o Linear, Model \o Runs \o Linear, Model \o Dictionary, Cycles \o Uneven, Model \o Uneven, Members \o Linear, Members \o Uneven, Model \o Runs \o Dictionary}
Bases(c) ==
  CASE c = "weighted-blending" -> Blends
    [] c = "blend-with-vicinity-and-rename" -> Blends \cup {b \o Named : b \in Blends}
    [] c = "blend-adjacent-points" -> {<< <<"coordinate", "forecast_period">>, <<"central-point", p>>, <<"units", "hours">>, <<"width", "2">> >> : p \in {"4", "5"}}
                                     \cup {<< <<"coordinate", "forecast_period">>, <<"central-point", "18000">>, <<"units", "s">>, <<"width", "7200">> >>}
                                     \cup {<< <<"coordinate", "realization">>, <<"central-point", "4">>, <<"units", "1">>, <<"width", "2">> >>}
    [] c = "extract-from-table" -> {<< <<"table", "json:table">>, <<"row-name", "air_temperature">> >>}
    [] c = "between-thresholds" -> {<< <<"threshold-ranges", "json:finer">>, <<"threshold-units", "km">> >>}
    [] c = "nbhood" -> {<< <<"neighbourhood-output", o>>, <<"radii", r>>, <<"lead-times", t>> >> : o \in {"probabilities", "percentiles"}, r \in {"2000,4000", "4000,2000"}, t \in {"1,6", "3,6"}}
                       \cup {<< <<"neighbourhood-output", o>>, <<"radii", "2000">> >> : o \in {"probabilities", "percentiles"}}
                       \cup {<< <<"neighbourhood-output", "probabilities">>, <<"neighbourhood-shape", "circular">>, <<"radii", r>> >> : r \in {"2000", "6000"}}
    [] c = "nbhood-iterate-with-mask" -> {<< <<"coord-for-masking", "topographic_zone">>, <<"radii", r>>, <<"lead-times", t>> >> : r \in {"2000,4000", "4000,2000"}, t \in {"1,6", "3,6"}}
                       \cup {<< <<"coord-for-masking", "topographic_zone">>, <<"radii", "2000">> >>}
    [] c = "temporal-interpolate" -> {<< <<"interval-in-mins", i>> >> : i \in {"60", "90"}} \cup {<< <<"times", i>> >> : i \in {"20171110T0500Z", "20171110T0600Z,20171110T0500Z"}}
    [] c = "threshold" -> {<< <<"threshold-values", t>> >> : t \in {"280", "275,285.5"}} \cup {<< <<"threshold-config", "json:thresholds">> >>}
    [] OTHER -> {}
Init == cmd \in Commands /\ left = N /\ (given = <<>> \/ given \in Bases(cmd))
Next == left > 0 /\ left' = left - 1 /\ \E k \in 1..Len(Options(cmd)) : LET o == Options(cmd)[k] IN
          /\ ~Given(given, o[1])
          /\ \E v \in {o[4][j] : j \in 1..Len(o[4])} : given' = Append(given, <<o[1], v>>)
          /\ UNCHANGED cmd
Spec == Init /\ [][Next]_<<cmd, given, left>>
Rev == [k \in 1..Len(given) |-> given[Len(given) + 1 - k]]
AnyOrder == Meaning(cmd, given) = Meaning(cmd, Rev) /\ Refuses(cmd, given) = Refuses(cmd, Rev)
OnceEach == Cardinality({Options(cmd)[k][1] : k \in 1..Len(Options(cmd))}) = Len(Options(cmd))
Kept == \A k \in 1..Len(given) : \E j \in 1..Len(Options(cmd)) : Meaning(cmd, given)[j] = given[k]
Untouched == \A j \in 1..Len(Options(cmd)) : ~Given(given, Options(cmd)[j][1]) => Meaning(cmd, given)[j][2] = Options(cmd)[j][3]
DefaultIsNothing == \A j \in 1..Len(Options(cmd)) : (~Given(given, Options(cmd)[j][1]) /\ Options(cmd)[j][2] = "v" /\ ~Lacking(cmd, given)) => Meaning(cmd, Append(given, <<Options(cmd)[j][1], Options(cmd)[j][3]>>)) = Meaning(cmd, given)
Emit == PrintT("CASE " \o ToJson([cmd |-> cmd, given |-> given, meaning |-> Meaning(cmd, given), lacks |-> Lacking(cmd, given), no |-> Refuses(cmd, given)]))
===============================================================================
