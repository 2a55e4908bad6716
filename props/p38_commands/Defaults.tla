------------------------------ MODULE Defaults -----------------------------
(* every option of every command: what leaving it out means ("needed": it may not be) *)
OptionsOf == [
  aggregate_reliability_tables |-> {<<"coordinates", "none">>},
  apply_bias_correction |-> {<<"lower-bound", "none">>, <<"upper-bound", "none">>, <<"fill-masked-bias-data", "false">>},
  apply_dz_rescaling |-> {<<"site-id-coord", "wmo_id">>},
  apply_emos_coefficients |-> {<<"validity-times", "none">>, <<"realizations-count", "none">>, <<"randomise", "false">>, <<"random-seed", "none">>, <<"ignore-ecc-bounds-exceedance", "false">>, <<"tolerate-time-mismatch", "false">>, <<"predictor", "mean">>, <<"land-sea-mask-name", "none">>, <<"percentiles", "none">>},
  apply_height_adjustment |-> {<<"land-constraint", "false">>, <<"similar-altitude", "false">>},
  apply_lapse_rate |-> {},
  apply_mask |-> {<<"mask-name", "needed">>, <<"invert-mask", "none">>},
  apply_night_mask |-> {},
  apply_rainforests_calibration |-> {<<"model-config", "needed">>, <<"output-thresholds", "none">>, <<"output-threshold-config", "none">>, <<"threshold-units", "none">>, <<"threads", "1">>, <<"bin-data", "false">>},
  apply_reliability_calibration |-> {<<"reliability-table", "none">>, <<"point-by-point", "false">>},
  between_thresholds |-> {<<"threshold-ranges", "needed">>, <<"threshold-units", "none">>},
  blend_adjacent_points |-> {<<"coordinate", "needed">>, <<"central-point", "needed">>, <<"units", "none">>, <<"width", "none">>, <<"calendar", "gregorian">>, <<"blend-time-using-forecast-period", "false">>},
  blend_cycles_and_realizations |-> {<<"cycletime", "none">>},
  blend_with_vicinity_and_rename |-> {<<"coordinate", "needed">>, <<"new-name", "none">>, <<"vicinity-radius", "none">>, <<"weighting-method", "linear">>, <<"weighting-coord", "forecast_period">>, <<"weighting-config", "none">>, <<"attributes-config", "none">>, <<"cycletime", "none">>, <<"y0val", "none">>, <<"ynval", "none">>, <<"cval", "none">>, <<"model-id-attr", "none">>, <<"record-run-attr", "none">>, <<"spatial-weights-from-mask", "false">>, <<"fuzzy-length", "20000">>},
  calculate_forecast_bias |-> {<<"truth-attribute", "needed">>},
  categorical |-> {<<"decision-tree", "none">>, <<"model-id-attr", "none">>, <<"record-run-attr", "none">>, <<"target-period", "none">>, <<"check-tree", "false">>, <<"title", "none">>},
  categorical_modes |-> {<<"decision-tree", "none">>, <<"model-id-attr", "none">>, <<"record-run-attr", "none">>},
  clip |-> {<<"min-value", "none">>, <<"max-value", "none">>},
  cloud_condensation_level |-> {<<"model-id-attr", "none">>},
  cloud_top_temperature |-> {<<"model-id-attr", "none">>},
  collapse_realizations |-> {<<"method", "mean">>, <<"new-name", "none">>},
  combine |-> {<<"operation", "+">>, <<"new-name", "none">>, <<"broadcast", "none">>, <<"minimum-realizations", "none">>, <<"cell-method-coordinate", "none">>, <<"expand-bound", "true">>},
  compare |-> {<<"rtol", "0.0001">>, <<"atol", "0.0001">>, <<"ignored-attributes", "none">>},
  construct_reliability_tables |-> {<<"truth-attribute", "needed">>, <<"n-probability-bins", "5">>, <<"single-value-lower-limit", "false">>, <<"single-value-upper-limit", "false">>, <<"aggregate-coordinates", "none">>},
  convection_ratio |-> {<<"model-id-attr", "none">>},
  copy_attributes |-> {<<"attributes", "needed">>},
  create_grid_with_halo |-> {<<"halo-radius", "162000">>},
  enforce_consistent_forecasts |-> {<<"ref-name", "none">>, <<"additive-amount", "0">>, <<"multiplicative-amount", "1">>, <<"comparison-operator", ">=">>, <<"diff-for-warning", "none">>},
  estimate_dz_rescaling |-> {<<"forecast-period", "needed">>, <<"dz-lower-bound", "none">>, <<"dz-upper-bound", "none">>, <<"land-constraint", "false">>, <<"similar-altitude", "false">>, <<"site-id-coord", "wmo_id">>},
  estimate_emos_coefficients |-> {<<"distribution", "needed">>, <<"truth-attribute", "needed">>, <<"point-by-point", "false">>, <<"use-default-initial-guess", "false">>, <<"units", "none">>, <<"predictor", "mean">>, <<"tolerance", "0.02">>, <<"max-iterations", "1000">>},
  estimate_emos_coefficients_from_table |-> {<<"additional-predictors", "none">>, <<"diagnostic", "needed">>, <<"cycletime", "needed">>, <<"forecast-period", "needed">>, <<"training-length", "needed">>, <<"distribution", "needed">>, <<"point-by-point", "false">>, <<"use-default-initial-guess", "false">>, <<"units", "none">>, <<"predictor", "mean">>, <<"tolerance", "0.02">>, <<"max-iterations", "1000">>, <<"percentiles", "none">>, <<"experiment", "none">>},
  expected_value |-> {},
  extend_radar_mask |-> {},
  extract |-> {<<"constraints", "needed">>, <<"units", "none">>, <<"ignore-failure", "false">>},
  extract_from_table |-> {<<"table", "needed">>, <<"row-name", "needed">>, <<"new-name", "none">>},
  feels_like_temp |-> {<<"model-id-attr", "none">>},
  field_texture |-> {<<"nbhood-radius", "20000">>, <<"textural-threshold", "0.05">>, <<"diagnostic-threshold", "0.8125">>, <<"model-id-attr", "none">>},
  fill_radar_holes |-> {},
  freezing_rain |-> {<<"model-id-attr", "none">>},
  generate_clearsky_solar_radiation |-> {<<"surface-altitude", "none">>, <<"linke-turbidity", "none">>, <<"time", "needed">>, <<"accumulation-period", "needed">>, <<"temporal-spacing", "30">>, <<"new-title", "none">>},
  generate_landmask_ancillary |-> {},
  generate_metadata_cube |-> {<<"name", "air_pressure_at_sea_level">>, <<"units", "none">>, <<"spatial-grid", "latlon">>, <<"time-period", "none">>, <<"json-input", "none">>, <<"ensemble-members", "8">>, <<"x-grid-spacing", "none">>, <<"y-grid-spacing", "none">>, <<"domain-corner", "none">>, <<"npoints", "71">>},
  generate_orographic_smoothing_coefficients |-> {<<"mask", "none">>, <<"min-gradient-smoothing-coefficient", "0.5">>, <<"max-gradient-smoothing-coefficient", "0">>, <<"power", "1">>, <<"use-mask-boundary", "false">>, <<"invert-mask", "false">>},
  generate_percentiles |-> {<<"coordinates", "none">>, <<"percentiles", "none">>, <<"ignore-ecc-bounds-exceedance", "false">>, <<"skip-ecc-bounds", "false">>, <<"mask-percentiles", "false">>, <<"optimal-crps-percentiles", "false">>},
  generate_realizations |-> {<<"raw-cube", "none">>, <<"realizations-count", "none">>, <<"random-seed", "none">>, <<"ignore-ecc-bounds-exceedance", "false">>, <<"skip-ecc-bounds", "false">>},
  generate_solar_time |-> {<<"time", "needed">>, <<"new-title", "none">>},
  generate_topography_bands_mask |-> {<<"land-sea-mask", "none">>, <<"bands-config", "none">>},
  generate_topography_bands_weights |-> {<<"land-sea-mask", "none">>, <<"bands-config", "none">>},
  hail_fraction |-> {<<"model-id-attr", "none">>},
  hail_size |-> {<<"model-id-attr", "none">>},
  height_of_max_vertical_velocity |-> {<<"find-lowest", "true">>, <<"new-name", "height_of_maximum_upward_air_velocity">>},
  integrate_time_bounds |-> {<<"new-name", "none">>},
  interpolate_using_difference |-> {<<"limit", "none">>, <<"limit-as-maximum", "true">>},
  interpret_metadata |-> {<<"verbose", "false">>, <<"failures-only", "false">>},
  lightning_from_cape_and_precip |-> {<<"model-id-attr", "none">>},
  lightning_multivariate_probability_usaf2024 |-> {<<"model-id-attr", "none">>},
  manipulate_reliability_table |-> {<<"minimum-forecast-count", "200">>, <<"point-by-point", "false">>},
  max_in_height |-> {<<"lower-height-bound", "none">>, <<"upper-height-bound", "none">>, <<"new-name", "none">>},
  max_in_time_window |-> {<<"minimum-realizations", "none">>},
  merge |-> {},
  nbhood |-> {<<"mask", "none">>, <<"neighbourhood-output", "needed">>, <<"neighbourhood-shape", "square">>, <<"radii", "needed">>, <<"lead-times", "none">>, <<"degrees-as-complex", "false">>, <<"weighted-mode", "false">>, <<"area-sum", "false">>, <<"percentiles", "0,5,10,20,25,30,40,50,60,70,75,80,90,95,100">>, <<"halo-radius", "none">>},
  nbhood_iterate_with_mask |-> {<<"weights", "none">>, <<"coord-for-masking", "needed">>, <<"neighbourhood-shape", "square">>, <<"radii", "needed">>, <<"lead-times", "none">>, <<"area-sum", "false">>},
  nbhood_land_and_sea |-> {<<"weights", "none">>, <<"neighbourhood-shape", "square">>, <<"radii", "needed">>, <<"lead-times", "none">>, <<"area-sum", "false">>},
  neighbour_finding |-> {<<"all-methods", "false">>, <<"land-constraint", "false">>, <<"similar-altitude", "false">>, <<"search-radius", "none">>, <<"node-limit", "none">>, <<"site-coordinate-system", "none">>, <<"site-coordinate-options", "none">>, <<"site-x-coordinate", "none">>, <<"site-y-coordinate", "none">>, <<"unique-site-id-key", "none">>},
  normalise_to_reference |-> {<<"reference-name", "needed">>, <<"return-name", "needed">>, <<"ignore-zero-total", "false">>},
  nowcast_accumulate |-> {<<"attributes-config", "none">>, <<"max-lead-time", "360">>, <<"lead-time-interval", "15">>, <<"accumulation-period", "15">>, <<"accumulation-units", "m">>},
  nowcast_extrapolate |-> {<<"orographic-enhancement", "none">>, <<"attributes-config", "none">>, <<"max-lead-time", "360">>, <<"lead-time-interval", "15">>},
  nowcast_optical_flow |-> {},
  nowcast_optical_flow_from_winds |-> {},
  orographic_enhancement |-> {<<"boundary-height", "1000">>, <<"boundary-height-units", "m">>},
  phase_change_level |-> {<<"phase-change", "needed">>, <<"grid-point-radius", "2">>, <<"horizontal-interpolation", "true">>, <<"model-id-attr", "none">>},
  phase_mask |-> {<<"model-id-attr", "none">>},
  phase_probability |-> {},
  recursive_filter |-> {<<"iterations", "1">>},
  regrid |-> {<<"land-sea-mask", "none">>, <<"regrid-mode", "bilinear">>, <<"extrapolation-mode", "nanmask">>, <<"land-sea-mask-vicinity", "25000">>, <<"regridded-title", "none">>},
  relabel_to_period |-> {<<"period", "none">>},
  remake_as_shower_condition |-> {},
  resolve_wind_components |-> {},
  shower_condition_probability |-> {<<"cloud-threshold", "needed">>, <<"convection-threshold", "needed">>, <<"model-id-attr", "none">>},
  sleet_probability |-> {},
  snow_fraction |-> {<<"model-id-attr", "none">>},
  snow_splitter |-> {<<"output-is-rain", "needed">>},
  spot_extract |-> {<<"apply-lapse-rate-correction", "false">>, <<"fixed-lapse-rate", "none">>, <<"land-constraint", "false">>, <<"similar-altitude", "false">>, <<"extract-percentiles", "none">>, <<"ignore-ecc-bounds-exceedance", "false">>, <<"skip-ecc-bounds", "false">>, <<"new-title", "none">>, <<"suppress-warnings", "false">>, <<"realization-collapse", "false">>, <<"subset-coord", "none">>},
  standardise |-> {<<"attributes-config", "none">>, <<"coords-to-remove", "none">>, <<"coord-modification", "none">>, <<"new-name", "none">>, <<"new-units", "none">>},
  temp_lapse_rate |-> {<<"orography", "none">>, <<"land-sea-mask", "none">>, <<"max-height-diff", "35">>, <<"nbhood-radius", "7">>, <<"max-lapse-rate", "0.0294">>, <<"min-lapse-rate", "-0.0098">>, <<"dry-adiabatic", "false">>, <<"model-id-attr", "none">>},
  temporal_interpolate |-> {<<"interval-in-mins", "none">>, <<"times", "none">>, <<"interpolation-method", "linear">>, <<"accumulation", "false">>, <<"max", "false">>, <<"min", "false">>},
  threshold |-> {<<"land-sea-mask", "none">>, <<"threshold-values", "none">>, <<"threshold-config", "none">>, <<"threshold-units", "none">>, <<"comparison-operator", ">">>, <<"fuzzy-factor", "none">>, <<"collapse-coord", "none">>, <<"vicinity", "none">>, <<"fill-masked", "none">>},
  time_lagged_ensembles |-> {},
  uv_index |-> {<<"model-id-attr", "none">>},
  vertical_updraught |-> {<<"model-id-attr", "none">>},
  vicinity |-> {<<"vicinity", "none">>},
  visibility_combine_cloud_base |-> {<<"initial-scaling-value", "needed">>, <<"first-unscaled-threshold", "needed">>},
  weighted_blending |-> {<<"coordinate", "needed">>, <<"weighting-method", "linear">>, <<"weighting-coord", "forecast_period">>, <<"weighting-config", "none">>, <<"attributes-config", "none">>, <<"cycletime", "none">>, <<"y0val", "none">>, <<"ynval", "none">>, <<"cval", "none">>, <<"model-id-attr", "none">>, <<"record-run-attr", "none">>, <<"spatial-weights-from-mask", "false">>, <<"fuzzy-length", "20000">>},
  wet_bulb_freezing_level |-> {},
  wet_bulb_temperature |-> {<<"convergence-condition", "0.05">>, <<"model-id-attr", "none">>},
  wet_bulb_temperature_integral |-> {<<"model-id-attr", "none">>},
  wind_direction |-> {<<"backup-method", "neighbourhood">>},
  wind_downscaling |-> {<<"vegetative-roughness", "none">>, <<"model-resolution", "needed">>, <<"output-height-level", "none">>, <<"output-height-level-units", "m">>},
  wind_gust_diagnostic |-> {<<"wind-gust-percentile", "50">>, <<"wind-speed-percentile", "95">>}]
=============================================================================
