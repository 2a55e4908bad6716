-------------------------------- MODULE Core --------------------------------
(* What each command makes of the options it is given.                                    *)
EXTENDS Sequences, Integers
(* v: an option with a value; f: a flag; n: an option that must be given; p: a last input *)
V(name, default, some) == <<name, "v", default, some>>
F(name) == <<name, "f", "false", <<"true">>>>
R(name, some) == <<name, "n", "none", some>>
P(name, some) == <<name, "p", "none", some>>
ModelId == V("model-id-attr", "none", <<"mosg__model_configuration">>)
NewName == V("new-name", "none", <<"something_else">>)
Neighbour == <<F("land-constraint"), F("similar-altitude")>>
Blending == <<R("coordinate", <<"forecast_reference_time", "model_id", "realization">>), V("weighting-method", "linear", <<"linear", "nonlinear", "dict">>),
              V("weighting-coord", "forecast_period", <<"forecast_period">>), V("weighting-config", "none", <<"json:weights">>), V("attributes-config", "none", <<"json:attributes">>),
              V("cycletime", "none", <<"20171110T0000Z", "20171110T0100Z">>), V("y0val", "none", <<"20">>), V("ynval", "none", <<"2">>), V("cval", "none", <<"0.85">>),
              ModelId, V("record-run-attr", "none", <<"model_runs">>), F("spatial-weights-from-mask"), V("fuzzy-length", "20000", <<"4000">>)>>
Radii == <<R("radii", <<"2000", "6000", "2000,4000", "4000,2000">>), V("lead-times", "none", <<"1,6", "3,6">>)>>
Options(c) ==
  CASE c = "apply-height-adjustment" -> Neighbour
    [] c = "apply-mask" -> <<R("mask-name", <<"land_binary_mask">>), V("invert-mask", "false", <<"true", "false">>)>>
    [] c = "between-thresholds" -> <<R("threshold-ranges", <<"json:ranges", "json:finer">>), V("threshold-units", "none", <<"m", "km">>)>>
    [] c = "blend-adjacent-points" -> <<R("coordinate", <<"forecast_period", "time", "realization">>), R("central-point", <<"4", "5", "18000">>), V("units", "none", <<"hours", "s", "1">>), V("width", "none", <<"2", "7200">>), F("blend-time-using-forecast-period")>>
    [] c = "blend-cycles-and-realizations" -> <<V("cycletime", "none", <<"20171110T0000Z", "20171110T0100Z">>)>>
    [] c = "weighted-blending" -> Blending
    [] c = "blend-with-vicinity-and-rename" -> Blending \o <<NewName, V("vicinity-radius", "none", <<"10000">>)>>
    [] c = "clip" -> <<V("min-value", "none", <<"280", "0">>), V("max-value", "none", <<"290">>)>>
    [] c \in {"cloud-condensation-level", "cloud-top-temperature", "feels-like-temp", "uv-index", "wet-bulb-temperature-integral", "vertical-updraught"} -> <<ModelId>>
    [] c = "collapse-realizations" -> <<V("method", "mean", <<"mean", "max", "min", "median", "sum">>), NewName>>
    [] c = "combine" -> <<V("operation", "+", <<"+", "-", "*", "max", "min", "mean">>), NewName, V("broadcast", "none", <<"realization">>), V("minimum-realizations", "none", <<"1", "9">>), V("cell-method-coordinate", "none", <<"time">>), V("expand-bound", "true", <<"false", "true">>)>>
    [] c = "copy-attributes" -> <<R("attributes", <<"title", "title,source", "unknown">>)>>
    [] c = "create-grid-with-halo" -> <<V("halo-radius", "162000", <<"2000", "6000">>)>>
    [] c = "extract" -> <<R("constraints", <<"realization=1", "realization=[1,2]", "projection_x_coordinate=[0:4000]", "realization=77">>), V("units", "none", <<"1">>), F("ignore-failure")>>
    [] c = "extract-from-table" -> <<R("table", <<"json:table">>), R("row-name", <<"air_temperature">>), NewName>>
    [] c = "field-texture" -> <<V("nbhood-radius", "20000", <<"4000", "2000">>), V("textural-threshold", "0.05", <<"0.2">>), V("diagnostic-threshold", "0.8125", <<"0.5">>), ModelId>>
    [] c = "height-of-max-vertical-velocity" -> <<V("find-lowest", "true", <<"false", "true">>), V("new-name", "height_of_maximum_upward_air_velocity", <<"something_else">>)>>
    [] c = "integrate-time-bounds" -> <<NewName>>
    [] c = "interpolate-using-difference" -> <<V("limit-as-maximum", "true", <<"false", "true">>)>>
    [] c = "max-in-time-window" -> <<V("minimum-realizations", "none", <<"1", "2", "9">>)>>
    [] c = "max-in-height" -> <<V("lower-height-bound", "none", <<"50", "0">>), V("upper-height-bound", "none", <<"150", "0">>), NewName>>
    [] c = "nbhood" -> <<R("neighbourhood-output", <<"probabilities", "percentiles">>), V("neighbourhood-shape", "square", <<"square", "circular">>)>> \o Radii
                       \o <<F("degrees-as-complex"), F("weighted-mode"), F("area-sum"), V("percentiles", "standard", <<"10,50">>), V("halo-radius", "none", <<"2000">>)>>
    [] c = "nbhood-iterate-with-mask" -> <<R("coord-for-masking", <<"topographic_zone">>), V("neighbourhood-shape", "square", <<"square", "circular">>)>> \o Radii \o <<F("area-sum")>>
    [] c = "neighbour-finding" -> <<F("all-methods")>> \o Neighbour \o <<V("search-radius", "none", <<"3000">>), V("node-limit", "none", <<"20">>), V("unique-site-id-key", "none", <<"local_id">>)>>
    [] c = "orographic-enhancement" -> <<V("boundary-height", "1000", <<"500", "1", "750">>), V("boundary-height-units", "m", <<"km">>)>>
    [] c = "recursive-filter" -> <<V("iterations", "1", <<"2", "3">>)>>
    [] c = "regrid" -> <<V("regrid-mode", "bilinear", <<"nearest", "nearest-2", "bilinear-2", "nearest-with-mask", "nearest-with-mask-2", "bilinear-with-mask-2">>), V("extrapolation-mode", "nanmask", <<"extrapolate", "error", "nan">>),
                         V("land-sea-mask-vicinity", "25000", <<"3000">>), V("regridded-title", "none", <<"Regridded">>)>>
    [] c = "relabel-to-period" -> <<V("period", "none", <<"1", "3", "0">>)>>
    [] c = "spot-extract" -> <<F("apply-lapse-rate-correction"), V("fixed-lapse-rate", "none", <<"-0.006">>)>> \o Neighbour \o <<V("extract-percentiles", "none", <<"50", "20,50,80">>), F("ignore-ecc-bounds-exceedance"), F("skip-ecc-bounds"),
                         V("new-title", "none", <<"Spots">>), F("suppress-warnings"), F("realization-collapse"), V("subset-coord", "none", <<"wmo_id">>)>>
    [] c = "standardise" -> <<V("attributes-config", "none", <<"json:attributes">>), V("coords-to-remove", "none", <<"height", "height,forecast_period">>), V("coord-modification", "none", <<"json:coords">>), NewName, V("new-units", "none", <<"celsius">>)>>
    [] c = "temp-lapse-rate" -> <<V("max-height-diff", "35", <<"10", "-1">>), V("nbhood-radius", "7", <<"2", "-2">>), V("max-lapse-rate", "0.0294", <<"0.01", "0">>), V("min-lapse-rate", "-0.0098", <<"-0.006", "0.02">>), F("dry-adiabatic"), ModelId>>
    [] c = "temporal-interpolate" -> <<V("interval-in-mins", "none", <<"60", "90", "100">>), V("times", "none", <<"20171110T0500Z", "20171110T0600Z,20171110T0500Z">>), V("interpolation-method", "linear", <<"linear", "daynight">>), F("accumulation"), F("max"), F("min")>>
    [] c = "threshold" -> <<V("threshold-values", "none", <<"280", "275,285.5">>), V("threshold-config", "none", <<"json:thresholds">>), V("threshold-units", "none", <<"celsius">>), V("comparison-operator", ">", <<">=", "lt", "le">>), V("fuzzy-factor", "none", <<"0.99">>),
                            V("collapse-coord", "none", <<"realization">>), V("vicinity", "none", <<"2000", "2000,4000">>), V("fill-masked", "none", <<"0", "1">>)>>
    [] c = "vicinity" -> <<P("vicinity", <<"2000", "2000,4000">>)>>
    [] c = "wet-bulb-temperature" -> <<V("convergence-condition", "0.05", <<"0.5", "0.001">>), ModelId>>
    [] c = "wind-direction" -> <<V("backup-method", "neighbourhood", <<"first_realization", "neighbourhood">>)>>
    [] c = "wind-gust-diagnostic" -> <<V("wind-gust-percentile", "50", <<"90">>), V("wind-speed-percentile", "95", <<"80">>)>>
    [] OTHER -> <<>>        \* apply-lapse-rate, expected-value, merge, resolve-wind-components, time-lagged-ensembles, wet-bulb-freezing-level
Commands == {"apply-height-adjustment", "apply-lapse-rate", "apply-mask", "between-thresholds", "blend-adjacent-points", "blend-cycles-and-realizations", "weighted-blending", "blend-with-vicinity-and-rename", "clip",
  "cloud-condensation-level", "cloud-top-temperature", "feels-like-temp", "uv-index", "wet-bulb-temperature-integral", "vertical-updraught", "collapse-realizations", "combine", "copy-attributes", "create-grid-with-halo", "expected-value",
  "extract", "extract-from-table", "field-texture", "height-of-max-vertical-velocity", "integrate-time-bounds", "interpolate-using-difference", "max-in-time-window", "max-in-height", "merge", "nbhood", "nbhood-iterate-with-mask",
  "neighbour-finding", "orographic-enhancement", "recursive-filter", "regrid", "relabel-to-period", "resolve-wind-components", "spot-extract", "standardise", "temp-lapse-rate", "temporal-interpolate", "threshold",
  "time-lagged-ensembles", "vicinity", "wet-bulb-freezing-level", "wet-bulb-temperature", "wind-direction", "wind-gust-diagnostic"}
(* ---- given: the options in the order they were given; m: what is meant by every option  *)
Given(given, name) == \E k \in 1..Len(given) : given[k][1] = name
Value(given, name) == LET k == CHOOSE j \in 1..Len(given) : given[j][1] = name IN given[k][2]
Meaning(c, given) == [k \in 1..Len(Options(c)) |-> <<Options(c)[k][1], IF Given(given, Options(c)[k][1]) THEN Value(given, Options(c)[k][1]) ELSE Options(c)[k][3]>>]
Of(c, given, name) == IF Given(given, name) THEN Value(given, name) ELSE LET k == CHOOSE j \in 1..Len(Options(c)) : Options(c)[j][1] = name IN Options(c)[k][3]
Thousandths(s) == CASE s = "-1" -> -1000 [] s = "-2" -> -2000 [] s = "0" -> 0 [] s = "0.01" -> 10 [] s = "0.02" -> 20 [] s = "0.0294" -> 29 [] s = "-0.0098" -> -10 [] s = "-0.006" -> -6 [] OTHER -> 1
Lacking(c, given) == \E k \in 1..Len(Options(c)) : Options(c)[k][2] \in {"n", "p"} /\ ~Given(given, Options(c)[k][1])
(* combinations refused whatever the inputs                                               *)
Senseless(c, given) ==
  LET o(name) == Of(c, given, name) IN
  CASE c = "blend-adjacent-points" -> o("coordinate") = "time" \/ (o("blend-time-using-forecast-period") = "true" /\ o("coordinate") # "forecast_period")
    [] c \in {"weighted-blending", "blend-with-vicinity-and-rename"} ->
         \/ o("weighting-method") = "linear" /\ o("cval") # "none"
         \/ o("weighting-method") = "nonlinear" /\ (o("y0val") # "none" \/ o("ynval") # "none")
         \/ o("weighting-method") = "dict" /\ o("weighting-config") = "none"
         \/ o("coordinate") = "model_id" /\ o("model-id-attr") = "none"
         \/ o("record-run-attr") # "none" /\ o("model-id-attr") = "none"
         \/ c = "blend-with-vicinity-and-rename" /\ o("new-name") = "none" /\ o("vicinity-radius") = "none"
    [] c = "copy-attributes" -> o("attributes") = "unknown"
    [] c = "clip" -> o("min-value") = "none" /\ o("max-value") = "none"
    [] c \in {"nbhood", "nbhood-iterate-with-mask"} -> (o("radii") \notin {"2000", "6000"}) # (o("lead-times") # "none")
    [] c = "neighbour-finding" -> o("all-methods") = "true" /\ (o("land-constraint") = "true" \/ o("similar-altitude") = "true")
    [] c = "temp-lapse-rate" -> o("dry-adiabatic") = "false" /\ (Thousandths(o("min-lapse-rate")) > Thousandths(o("max-lapse-rate")) \/ o("max-height-diff") = "-1" \/ o("nbhood-radius") = "-2")
    [] c = "temporal-interpolate" -> (o("interval-in-mins") = "none") = (o("times") = "none") \/ o("interval-in-mins") = "100"
    [] c = "threshold" -> (o("threshold-values") = "none") = (o("threshold-config") = "none")
    [] c = "relabel-to-period" -> o("period") \in {"0", "none"}
    [] OTHER -> FALSE
Refuses(c, given) == IF Lacking(c, given) THEN TRUE ELSE Senseless(c, given)
=============================================================================
