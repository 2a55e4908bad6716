-------------------------------- MODULE Core --------------------------------
(* What the description of a file says, and which descriptions are at fault.              *)
EXTENDS Sequences, Integers, FiniteSets
Prob == {"above", "below", "between", "vicinity", "prob_accumulation"}
Standard == Prob \cup {"percentile", "members", "accumulation"}
Kinds == Standard \cup {"ancillary", "weather", "direction", "intermediate"}
Handled(k) == k # "intermediate"
Period(d) == d.top \/ d.kind \in {"accumulation", "prob_accumulation"}
Sources == {"none", "uk_ens", "uk_det", "blend"}
Sensible(d) ==
  /\ d.top => d.kind \in Standard \ {"accumulation", "prob_accumulation"}
  /\ d.kind = "ancillary" => d.source = "none" /\ ~d.post /\ d.place = "grid"
  /\ d.kind = "intermediate" => d.source = "none" /\ d.place = "grid" /\ ~d.post
  /\ d.warn = "method" => d.kind \in Standard
(* ---- each fault, and what it can be found in                                           *)
Faults == {"prob_units", "threshold_renamed", "threshold_not_marked", "no_relative", "relative_unknown", "relative_conflict", "percentile_units", "percentile_renamed", "no_sum", "sum_elsewhere", "point_method",
  "weighted_method", "member_mean", "no_comment", "wrong_comment", "no_bounds", "forbidden_attribute", "data_type", "no_title", "no_source", "no_institution", "blend_no_model", "blend_no_runs", "blend_unknown", "blend_run_missing",
  "unknown_model", "title_conflict", "no_time", "no_reference", "no_period", "no_blend_time", "time_not_at_end", "period_not_at_end", "time_type", "member_count", "spot_title", "no_wmo_id", "no_altitude", "altitude_scalar",
  "ancillary_method", "mode_hours", "no_meaning", "direction_method"}
CanHave(d, f) ==
  Handled(d.kind) /\
  CASE f \in {"prob_units", "threshold_renamed", "threshold_not_marked", "no_relative", "relative_unknown", "relative_conflict"} -> d.kind \in Prob
    [] f \in {"percentile_units", "percentile_renamed"} -> d.kind = "percentile"
    [] f \in {"no_sum", "sum_elsewhere"} -> d.kind \in {"accumulation", "prob_accumulation"}
    [] f \in {"point_method", "weighted_method", "member_mean"} -> d.kind \in Standard
    [] f \in {"no_comment", "wrong_comment"} -> d.kind \in Prob /\ Period(d)
    [] f = "no_bounds" -> Period(d)
    [] f \in {"forbidden_attribute", "data_type"} -> TRUE
    [] f \in {"no_title", "no_source", "no_institution"} -> d.kind # "ancillary"
    [] f \in {"blend_no_model", "blend_no_runs", "blend_unknown", "blend_run_missing", "no_blend_time"} -> d.source = "blend"
    [] f \in {"unknown_model", "title_conflict"} -> d.source \in {"uk_ens", "uk_det"}
    [] f \in {"no_reference", "no_period"} -> d.kind # "ancillary" /\ d.source # "blend"
    [] f = "no_time" -> d.kind # "ancillary"
    [] f = "time_type" -> d.kind # "ancillary"
    [] f = "time_not_at_end" -> Period(d)
    [] f = "period_not_at_end" -> Period(d) /\ d.source # "blend"
    [] f = "member_count" -> d.kind \in {"members", "accumulation"} /\ d.source = "uk_det"
    [] f \in {"spot_title", "no_wmo_id", "no_altitude", "altitude_scalar"} -> d.place = "spot"
    [] f = "ancillary_method" -> d.kind = "ancillary"
    [] f \in {"mode_hours", "no_meaning"} -> d.kind = "weather"
    [] f = "direction_method" -> d.kind = "direction"
(* faults about the same thing                                                            *)
Apart(f, g) == \A s \in {{"no_time", "time_type", "time_not_at_end", "no_bounds"}, {"no_bounds", "period_not_at_end", "no_period"}, {"no_relative", "relative_unknown", "relative_conflict"}, {"no_sum", "sum_elsewhere", "no_comment", "wrong_comment"},
                        {"no_title", "title_conflict", "spot_title"}, {"blend_no_model", "blend_no_runs", "blend_unknown", "blend_run_missing", "no_title"}, {"no_altitude", "altitude_scalar"}, {"unknown_model", "title_conflict", "member_count"},
                        {"blend_no_model", "blend_run_missing"}} : ~({f, g} \subseteq s)
Refused(d) == d.faults # {}
(* ---- what is said of a file without faults                                             *)
Diagnostic(k) ==
  CASE k \in {"accumulation", "prob_accumulation"} -> "lwe thickness of precipitation amount"
    [] k = "ancillary" -> "surface altitude" [] k = "weather" -> "weather code" [] k = "direction" -> "wind from direction" [] k = "intermediate" -> "grid_neighbours" [] OTHER -> "air temperature"
Field(k) == CASE k \in Prob -> "probabilities" [] k = "percentile" -> "percentiles" [] k \in {"members", "accumulation"} -> "realizations" [] k = "ancillary" -> "ancillary" [] OTHER -> Diagnostic(k)
Product(d) == IF d.place = "grid" THEN "gridded" ELSE "spot"
Relative(k) == CASE k = "below" -> "less than or equal to" [] k = "between" -> "between thresholds" [] OTHER -> "greater than"
First(d) == "This is a " \o Product(d) \o (IF d.kind \in {"members", "accumulation"} THEN " file containing one or more realizations" ELSE " " \o Field(d.kind) \o " file")
Methods(d) == (IF d.kind \in {"accumulation", "prob_accumulation"} THEN " sum over time" ELSE "") \o (IF d.top THEN " maximum over time" ELSE "")
Source(v, text) == IF v THEN << "    Source: " \o text >> ELSE <<>>
Contains(d, v) ==
  IF d.kind \notin Standard THEN <<>>
  ELSE << "It contains " \o Field(d.kind) \o " of " \o Diagnostic(d.kind) \o (IF d.kind \in Prob THEN " " \o Relative(d.kind) \o " thresholds" ELSE "") >> \o Source(v, "name, threshold coordinate (probabilities only)")
       \o (IF Methods(d) = "" THEN <<>> ELSE << "These " \o Field(d.kind) \o " are of " \o Diagnostic(d.kind) \o Methods(d) >> \o Source(v, "cell methods"))
       \o << "It has undergone " \o (IF d.post \/ d.source = "blend" THEN "some" ELSE "no") \o " significant post-processing" >> \o Source(v, "title attribute")
Mode(d, v) == IF d.kind = "weather" /\ d.warn = "mode" THEN << "These weather code are mode of 1 hour weather code over time" >> \o Source(v, "cell methods") ELSE <<>>
Origin(d, v) ==
  IF d.kind = "ancillary" THEN << "This is a static ancillary with no time information" >>
  ELSE CASE d.source = "blend" -> << "It contains blended data from models: UKV (cycle: 20171110T0000Z), MOGREPS-UK (cycle: 20171109T1800Z)" >> \o Source(v, "title attribute, model ID attribute, model run attribute")
    [] d.source = "none" -> << "It has no source model information and cannot be blended" >> \o Source(v, "model ID attribute (missing)")
    [] d.source = "uk_ens" -> << "It contains data from MOGREPS-UK" >> \o Source(v, "model ID attribute")
    [] OTHER -> << "It contains data from UKV" >> \o Source(v, "model ID attribute")
Said(d, v) ==
  IF ~Handled(d.kind) THEN << Diagnostic(d.kind) \o " is not handled by this interpreter" >>
  ELSE << First(d) >> \o Source(v, "name, coordinates") \o Contains(d, v) \o Mode(d, v) \o Origin(d, v)
Warned(d) == Handled(d.kind) /\ (d.kind = "between" \/ d.warn \in {"attribute", "method"})
=============================================================================
