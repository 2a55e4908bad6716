"""Stand-in for iris.std_names (a subset of the CF standard name table)."""

STD_NAMES = {
    'time': {"canonical_units": 's'},
    'forecast_period': {"canonical_units": 's'},
    'forecast_reference_time': {"canonical_units": 's'},
    'realization': {"canonical_units": '1'},
    'latitude': {"canonical_units": 'degrees'},
    'longitude': {"canonical_units": 'degrees'},
    'grid_latitude': {"canonical_units": 'degrees'},
    'grid_longitude': {"canonical_units": 'degrees'},
    'projection_x_coordinate': {"canonical_units": 'm'},
    'projection_y_coordinate': {"canonical_units": 'm'},
    'projection_x_angular_coordinate': {"canonical_units": 'radian'},
    'projection_y_angular_coordinate': {"canonical_units": 'radian'},
    'height': {"canonical_units": 'm'},
    'altitude': {"canonical_units": 'm'},
    'depth': {"canonical_units": 'm'},
    'surface_altitude': {"canonical_units": 'm'},
    'air_temperature': {"canonical_units": 'K'},
    'air_temperature_lapse_rate': {"canonical_units": 'K m-1'},
    'air_temperature_anomaly': {"canonical_units": 'K'},
    'air_pressure': {"canonical_units": 'Pa'},
    'air_pressure_anomaly': {"canonical_units": 'Pa'},
    'air_pressure_at_sea_level': {"canonical_units": 'Pa'},
    'air_pressure_at_mean_sea_level': {"canonical_units": 'Pa'},
    'air_density': {"canonical_units": 'kg m-3'},
    'air_potential_temperature': {"canonical_units": 'K'},
    'surface_air_pressure': {"canonical_units": 'Pa'},
    'surface_temperature': {"canonical_units": 'K'},
    'sea_surface_temperature': {"canonical_units": 'K'},
    'soil_temperature': {"canonical_units": 'K'},
    'dew_point_temperature': {"canonical_units": 'K'},
    'wet_bulb_temperature': {"canonical_units": 'K'},
    'wet_bulb_potential_temperature': {"canonical_units": 'K'},
    'brightness_temperature': {"canonical_units": 'K'},
    'virtual_temperature': {"canonical_units": 'K'},
    'relative_humidity': {"canonical_units": '1'},
    'specific_humidity': {"canonical_units": '1'},
    'humidity_mixing_ratio': {"canonical_units": '1'},
    'rainfall_rate': {"canonical_units": 'm s-1'},
    'rainfall_flux': {"canonical_units": 'kg m-2 s-1'},
    'rainfall_amount': {"canonical_units": 'kg m-2'},
    'convective_rainfall_rate': {"canonical_units": 'm s-1'},
    'convective_rainfall_flux': {"canonical_units": 'kg m-2 s-1'},
    'convective_rainfall_amount': {"canonical_units": 'kg m-2'},
    'convective_precipitation_amount': {"canonical_units": 'kg m-2'},
    'convective_precipitation_rate': {"canonical_units": 'm s-1'},
    'convective_precipitation_flux': {"canonical_units": 'kg m-2 s-1'},
    'convective_snowfall_amount': {"canonical_units": 'kg m-2'},
    'convective_snowfall_flux': {"canonical_units": 'kg m-2 s-1'},
    'lwe_convective_precipitation_rate': {"canonical_units": 'm s-1'},
    'lwe_convective_snowfall_rate': {"canonical_units": 'm s-1'},
    'lwe_large_scale_precipitation_rate': {"canonical_units": 'm s-1'},
    'lwe_large_scale_snowfall_rate': {"canonical_units": 'm s-1'},
    'lwe_stratiform_precipitation_rate': {"canonical_units": 'm s-1'},
    'lwe_stratiform_snowfall_rate': {"canonical_units": 'm s-1'},
    'lwe_precipitation_rate': {"canonical_units": 'm s-1'},
    'lwe_snowfall_rate': {"canonical_units": 'm s-1'},
    'lwe_thickness_of_precipitation_amount': {"canonical_units": 'm'},
    'lwe_thickness_of_convective_precipitation_amount': {"canonical_units": 'm'},
    'lwe_thickness_of_convective_snowfall_amount': {"canonical_units": 'm'},
    'lwe_thickness_of_large_scale_precipitation_amount': {"canonical_units": 'm'},
    'lwe_thickness_of_stratiform_precipitation_amount': {"canonical_units": 'm'},
    'lwe_thickness_of_snowfall_amount': {"canonical_units": 'm'},
    'lwe_thickness_of_surface_snow_amount': {"canonical_units": 'm'},
    'thickness_of_rainfall_amount': {"canonical_units": 'm'},
    'thickness_of_convective_rainfall_amount': {"canonical_units": 'm'},
    'thickness_of_large_scale_rainfall_amount': {"canonical_units": 'm'},
    'thickness_of_stratiform_rainfall_amount': {"canonical_units": 'm'},
    'thickness_of_snowfall_amount': {"canonical_units": 'm'},
    'thickness_of_convective_snowfall_amount': {"canonical_units": 'm'},
    'precipitation_amount': {"canonical_units": 'kg m-2'},
    'precipitation_flux': {"canonical_units": 'kg m-2 s-1'},
    'large_scale_precipitation_amount': {"canonical_units": 'kg m-2'},
    'large_scale_precipitation_flux': {"canonical_units": 'kg m-2 s-1'},
    'large_scale_rainfall_rate': {"canonical_units": 'm s-1'},
    'large_scale_rainfall_flux': {"canonical_units": 'kg m-2 s-1'},
    'large_scale_snowfall_flux': {"canonical_units": 'kg m-2 s-1'},
    'stratiform_precipitation_amount': {"canonical_units": 'kg m-2'},
    'stratiform_precipitation_flux': {"canonical_units": 'kg m-2 s-1'},
    'stratiform_rainfall_rate': {"canonical_units": 'm s-1'},
    'stratiform_rainfall_flux': {"canonical_units": 'kg m-2 s-1'},
    'stratiform_snowfall_flux': {"canonical_units": 'kg m-2 s-1'},
    'stratiform_snowfall_amount': {"canonical_units": 'kg m-2'},
    'snowfall_flux': {"canonical_units": 'kg m-2 s-1'},
    'snowfall_amount': {"canonical_units": 'kg m-2'},
    'solid_precipitation_flux': {"canonical_units": 'kg m-2 s-1'},
    'hail_fall_amount': {"canonical_units": 'kg m-2'},
    'hail_fall_rate': {"canonical_units": 'm s-1'},
    'graupel_fall_amount': {"canonical_units": 'kg m-2'},
    'graupel_fall_flux': {"canonical_units": 'kg m-2 s-1'},
    'graupel_and_hail_fall_amount': {"canonical_units": 'kg m-2'},
    'wind_speed': {"canonical_units": 'm s-1'},
    'wind_speed_of_gust': {"canonical_units": 'm s-1'},
    'wind_from_direction': {"canonical_units": 'degree'},
    'wind_to_direction': {"canonical_units": 'degree'},
    'wind_gust_from_direction': {"canonical_units": 'degree'},
    'eastward_wind': {"canonical_units": 'm s-1'},
    'northward_wind': {"canonical_units": 'm s-1'},
    'grid_eastward_wind': {"canonical_units": 'm s-1'},
    'grid_northward_wind': {"canonical_units": 'm s-1'},
    'x_wind': {"canonical_units": 'm s-1'},
    'y_wind': {"canonical_units": 'm s-1'},
    'upward_air_velocity': {"canonical_units": 'm s-1'},
    'visibility_in_air': {"canonical_units": 'm'},
    'fog_area_fraction': {"canonical_units": '1'},
    'cloud_area_fraction': {"canonical_units": '1'},
    'cloud_area_fraction_in_atmosphere_layer': {"canonical_units": '1'},
    'low_type_cloud_area_fraction': {"canonical_units": '1'},
    'medium_type_cloud_area_fraction': {"canonical_units": '1'},
    'high_type_cloud_area_fraction': {"canonical_units": '1'},
    'convective_cloud_area_fraction': {"canonical_units": '1'},
    'stratiform_cloud_area_fraction': {"canonical_units": '1'},
    'cloud_base_altitude': {"canonical_units": 'm'},
    'cloud_top_altitude': {"canonical_units": 'm'},
    'cloud_binary_mask': {"canonical_units": '1'},
    'convective_cloud_base_altitude': {"canonical_units": 'm'},
    'convective_cloud_base_height': {"canonical_units": 'm'},
    'air_temperature_at_cloud_top': {"canonical_units": 'K'},
    'air_pressure_at_cloud_base': {"canonical_units": 'Pa'},
    'air_pressure_at_cloud_top': {"canonical_units": 'Pa'},
    'air_pressure_at_convective_cloud_base': {"canonical_units": 'Pa'},
    'air_pressure_at_convective_cloud_top': {"canonical_units": 'Pa'},
    'air_pressure_at_freezing_level': {"canonical_units": 'Pa'},
    'land_binary_mask': {"canonical_units": '1'},
    'land_area_fraction': {"canonical_units": '1'},
    'sea_area_fraction': {"canonical_units": '1'},
    'area_fraction': {"canonical_units": '1'},
    'region': {"canonical_units": '1'},
    'lake_area_fraction': {"canonical_units": '1'},
    'surface_snow_thickness': {"canonical_units": 'm'},
    'surface_snow_amount': {"canonical_units": 'kg m-2'},
    'surface_roughness_length': {"canonical_units": 'm'},
    'wet_bulb_freezing_level_altitude': {"canonical_units": 'm'},
    'freezing_level_altitude': {"canonical_units": 'm'},
    'freezing_level_height': {"canonical_units": 'm'},
    'altitude_at_top_of_dry_convection': {"canonical_units": 'm'},
    'atmosphere_boundary_layer_thickness': {"canonical_units": 'm'},
    'atmosphere_convective_available_potential_energy': {"canonical_units": 'J kg-1'},
    'atmosphere_specific_convective_available_potential_energy': {"canonical_units": 'J kg-1'},
    'atmosphere_convective_available_potential_energy_wrt_surface': {"canonical_units": 'J kg-1'},
    'atmosphere_convective_inhibition': {"canonical_units": 'J kg-1'},
    'atmosphere_convective_inhibition_wrt_surface': {"canonical_units": 'J kg-1'},
    'atmosphere_lifting_condensation_level_wrt_surface': {"canonical_units": 'm'},
    'atmosphere_mass_content_of_water_vapor': {"canonical_units": 'kg m-2'},
    'atmosphere_cloud_ice_content': {"canonical_units": 'kg m-2'},
    'temperature_difference_between_ambient_air_and_air_lifted_adiabatically': {"canonical_units": 'K'},
    'temperature_difference_between_ambient_air_and_air_lifted_adiabatically_from_the_surface': {"canonical_units": 'K'},
    'frequency_of_lightning_flashes_per_unit_area': {"canonical_units": 'm-2 s-1'},
    'thunderstorm_probability': {"canonical_units": '1'},
    'ultraviolet_index': {"canonical_units": '1'},
    'surface_downwelling_shortwave_flux_in_air': {"canonical_units": 'W m-2'},
    'surface_downwelling_shortwave_flux_in_air_assuming_clear_sky': {"canonical_units": 'W m-2'},
    'surface_downwelling_longwave_flux_in_air': {"canonical_units": 'W m-2'},
    'surface_net_downward_shortwave_flux': {"canonical_units": 'W m-2'},
    'surface_upwelling_shortwave_flux_in_air': {"canonical_units": 'W m-2'},
    'integral_wrt_time_of_surface_downwelling_shortwave_flux_in_air': {"canonical_units": 'W s m-2'},
    'integral_of_surface_downwelling_shortwave_flux_in_air_wrt_time': {"canonical_units": 'W s m-2'},
    'integral_wrt_time_of_surface_net_downward_shortwave_flux': {"canonical_units": 'W s m-2'},
    'surface_temperature_anomaly': {"canonical_units": 'K'},
    'solar_zenith_angle': {"canonical_units": 'degree'},
    'solar_azimuth_angle': {"canonical_units": 'degree'},
    'solar_elevation_angle': {"canonical_units": 'degree'},
    'solar_irradiance': {"canonical_units": 'W m-2'},
    'sunlit_binary_mask': {"canonical_units": '1'},
    'duration_of_sunshine': {"canonical_units": 's'},
    'model_level_number': {"canonical_units": '1'},
    'sea_surface_height_above_sea_level': {"canonical_units": 'm'},
    'sea_surface_wave_significant_height': {"canonical_units": 'm'},
    'sea_ice_area_fraction': {"canonical_units": '1'},
    'soil_moisture_content': {"canonical_units": 'kg m-2'},
    'gross_primary_productivity_of_biomass_expressed_as_carbon': {"canonical_units": 'kg m-2 s-1'},
    'angle_of_rotation_from_east_to_x': {"canonical_units": 'degree'},
    'angle_of_rotation_from_east_to_y': {"canonical_units": 'degree'},
    'number_of_observations': {"canonical_units": '1'},
    'quality_flag': {"canonical_units": '1'},
    'status_flag': {"canonical_units": '1'},
    'geopotential_height': {"canonical_units": 'm'},
    'equivalent_reflectivity_factor': {"canonical_units": 'dBZ'},
    'ertel_potential_vorticity': {"canonical_units": 'K m2 kg-1 s-1'},
    'tendency_of_air_temperature': {"canonical_units": 'K s-1'},
    'toa_incoming_shortwave_flux': {"canonical_units": 'W m-2'},
    'toa_outgoing_longwave_flux': {"canonical_units": 'W m-2'},
    'platform_name': {"canonical_units": '1'},
    'platform_id': {"canonical_units": '1'},
    'probability_distribution_of_wind_from_direction_over_time': {"canonical_units": '1'},
    'canopy_height': {"canonical_units": 'm'},
    'leaf_area_index': {"canonical_units": '1'},
    'vegetation_area_fraction': {"canonical_units": '1'},
    'age_of_surface_snow': {"canonical_units": 's'},
    'wind_chill_of_air_temperature': {"canonical_units": 'K'},
    'apparent_air_temperature': {"canonical_units": 'K'},
    'heat_index_of_air_temperature': {"canonical_units": 'K'},
}
