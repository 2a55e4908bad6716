"""Stand-in for iris.coord_systems."""


def _f(x):
    return None if x is None else float(x)


class CoordSystem:
    grid_mapping_name = None

    def __eq__(self, other):
        return self.__class__ is other.__class__ and self.__dict__ == other.__dict__

    def __ne__(self, other):
        return not self == other

    def __hash__(self):
        return hash(repr(self))

    def xml_element(self, doc=None, attrs=None):
        return repr(self)

    def _as(self, *names):
        return ", ".join("%s=%s" % (n, getattr(self, n)) for n in names)

    def __repr__(self):
        return "%s(%s)" % (
            type(self).__name__,
            ", ".join("%s=%r" % kv for kv in sorted(self.__dict__.items())),
        )

    def as_cartopy_projection(self):
        return self.as_cartopy_crs()


class GeogCS(CoordSystem):
    grid_mapping_name = "latitude_longitude"

    def __init__(
        self,
        semi_major_axis=None,
        semi_minor_axis=None,
        inverse_flattening=None,
        longitude_of_prime_meridian=None,
    ):
        if semi_major_axis is None and semi_minor_axis is None:
            raise ValueError("No ellipsoid specified")
        if semi_major_axis is None:
            semi_major_axis = semi_minor_axis if not inverse_flattening else (
                -semi_minor_axis / ((1.0 - inverse_flattening) / inverse_flattening)
            )
        if semi_minor_axis is None:
            semi_minor_axis = (
                semi_major_axis
                if not inverse_flattening
                else semi_major_axis - (1.0 / inverse_flattening) * semi_major_axis
            )
        if inverse_flattening is None:
            if semi_major_axis == semi_minor_axis:
                inverse_flattening = 0.0
            else:
                inverse_flattening = 1.0 / (
                    (semi_major_axis - semi_minor_axis) / semi_major_axis
                )
        self.semi_major_axis = float(semi_major_axis)
        self.semi_minor_axis = float(semi_minor_axis)
        self.inverse_flattening = float(inverse_flattening)
        self.longitude_of_prime_meridian = float(longitude_of_prime_meridian or 0)

    def as_cartopy_crs(self):
        import cartopy.crs as ccrs

        return ccrs.Geodetic(self.as_cartopy_globe())

    def as_cartopy_projection(self):
        import cartopy.crs as ccrs

        return ccrs.PlateCarree(
            central_longitude=self.longitude_of_prime_meridian,
            globe=self.as_cartopy_globe(),
        )

    def as_cartopy_globe(self):
        import cartopy.crs as ccrs

        return ccrs.Globe(
            semimajor_axis=self.semi_major_axis,
            semiminor_axis=self.semi_minor_axis,
            ellipse=None,
        )


def _globe(cs):
    import cartopy.crs as ccrs

    return cs.ellipsoid.as_cartopy_globe() if cs.ellipsoid is not None else ccrs.Globe()


class RotatedGeogCS(CoordSystem):
    grid_mapping_name = "rotated_latitude_longitude"

    def __init__(
        self,
        grid_north_pole_latitude,
        grid_north_pole_longitude,
        north_pole_grid_longitude=0,
        ellipsoid=None,
    ):
        self.grid_north_pole_latitude = float(grid_north_pole_latitude)
        self.grid_north_pole_longitude = float(grid_north_pole_longitude)
        self.north_pole_grid_longitude = float(north_pole_grid_longitude)
        self.ellipsoid = ellipsoid

    def as_cartopy_crs(self):
        import cartopy.crs as ccrs

        return ccrs.RotatedGeodetic(
            self.grid_north_pole_longitude,
            self.grid_north_pole_latitude,
            self.north_pole_grid_longitude,
            globe=_globe(self),
        )


class TransverseMercator(CoordSystem):
    grid_mapping_name = "transverse_mercator"

    def __init__(
        self,
        latitude_of_projection_origin,
        longitude_of_central_meridian,
        false_easting=0,
        false_northing=0,
        scale_factor_at_central_meridian=1,
        ellipsoid=None,
    ):
        self.latitude_of_projection_origin = float(latitude_of_projection_origin)
        self.longitude_of_central_meridian = float(longitude_of_central_meridian)
        self.false_easting = float(false_easting or 0)
        self.false_northing = float(false_northing or 0)
        self.scale_factor_at_central_meridian = float(
            scale_factor_at_central_meridian
        )
        self.ellipsoid = ellipsoid

    def as_cartopy_crs(self):
        import cartopy.crs as ccrs

        return ccrs.TransverseMercator(
            central_longitude=self.longitude_of_central_meridian,
            central_latitude=self.latitude_of_projection_origin,
            false_easting=self.false_easting,
            false_northing=self.false_northing,
            scale_factor=self.scale_factor_at_central_meridian,
            globe=_globe(self),
        )


class OSGB(TransverseMercator):
    def __init__(self):
        TransverseMercator.__init__(
            self, 49, -2, 400000, -100000, 0.9996012717,
            GeogCS(6377563.396, 6356256.909),
        )

    def as_cartopy_crs(self):
        import cartopy.crs as ccrs

        return ccrs.OSGB()


class LambertAzimuthalEqualArea(CoordSystem):
    grid_mapping_name = "lambert_azimuthal_equal_area"

    def __init__(
        self,
        latitude_of_projection_origin=0.0,
        longitude_of_projection_origin=0.0,
        false_easting=0.0,
        false_northing=0.0,
        ellipsoid=None,
    ):
        self.latitude_of_projection_origin = float(latitude_of_projection_origin)
        self.longitude_of_projection_origin = float(longitude_of_projection_origin)
        self.false_easting = float(false_easting or 0)
        self.false_northing = float(false_northing or 0)
        self.ellipsoid = ellipsoid

    def as_cartopy_crs(self):
        import cartopy.crs as ccrs

        return ccrs.LambertAzimuthalEqualArea(
            central_longitude=self.longitude_of_projection_origin,
            central_latitude=self.latitude_of_projection_origin,
            false_easting=self.false_easting,
            false_northing=self.false_northing,
            globe=_globe(self),
        )
