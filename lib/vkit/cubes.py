"""Cubes in the conventions IMPROVER documents, built on the iris API directly (none of the
repository's own cube factories, so that these stay out of the trusted path)."""
import datetime

import iris
import numpy as np
from iris.coord_systems import GeogCS, LambertAzimuthalEqualArea
from iris.coords import AuxCoord, CellMethod, DimCoord  # noqa: F401
from iris.cube import Cube, CubeList  # noqa: F401

TUNITS = "seconds since 1970-01-01 00:00:00"
ATTRS = {"title": "Model Forecast", "source": "IMPROVER", "institution": "Met Office"}
EARTH = GeogCS(semi_major_axis=6378137.0, semi_minor_axis=6356752.314140356)
LAEA = LambertAzimuthalEqualArea(
    latitude_of_projection_origin=54.9, longitude_of_projection_origin=-2.5, false_easting=0.0,
    false_northing=0.0, ellipsoid=EARTH)
GEOG = GeogCS(6371229.0)
T0 = 1510286400  # 2017-11-10T04:00:00Z


def secs(y, mo, d, h=0, mi=0):
    return int(datetime.datetime(y, mo, d, h, mi, tzinfo=datetime.timezone.utc).timestamp())


def _bounds1d(pts):
    d = (pts[1] - pts[0]) / 2 if len(pts) > 1 else 1000.0
    return np.array([[p - d, p + d] for p in pts], dtype=np.float32)


def xy(ny, nx, space="xy", dy=2000.0, dx=2000.0, y0=None, x0=None, bounds=False, y=None, x=None):
    if space == "xy":
        names, units, cs = ("projection_y_coordinate", "projection_x_coordinate"), "m", LAEA
    else:
        names, units, cs = ("latitude", "longitude"), "degrees", GEOG
        if dy == 2000.0:
            dy = 1.0
        if dx == 2000.0:
            dx = 1.0
    out = []
    for n, step, start, name, given in ((ny, dy, y0, names[0], y), (nx, dx, x0, names[1], x)):
        if given is not None:
            pts = np.array(given, dtype=np.float32)
        else:
            start = -(n - 1) * step / 2 if start is None else start
            pts = np.array([start + i * step for i in range(n)], dtype=np.float32)
        out.append(DimCoord(pts, name, units=units, coord_system=cs,
                            bounds=_bounds1d(pts) if bounds else None))
    return out


def time_coords(t, frt=None, tb=None):
    """time, forecast_reference_time, forecast_period scalar coords; t may be a list."""
    seq = isinstance(t, (list, tuple))
    ts = np.array(t if seq else [t], dtype=np.int64)
    tc = (DimCoord if seq else AuxCoord)(ts, "time", units=TUNITS)
    if tb is not None:
        tc.bounds = np.array(tb if seq else [tb], dtype=np.int64)
    out = [tc]
    if frt is not None:
        out.append(AuxCoord(np.array([frt], dtype=np.int64), "forecast_reference_time",
                            units=TUNITS))
        fp = AuxCoord((ts - frt).astype(np.int32), "forecast_period", units="seconds")
        if tb is not None:
            fp.bounds = (tc.bounds - frt).astype(np.int32)
        out.append(fp)
    return out


def grid(data, name="air_temperature", units="K", lead=(), space="xy", t=T0, frt=T0 - 14400,
         tb=None, attrs=None, dtype=np.float32, spots=None, tdim=None, **kw):
    """A gridded (or spot) cube.  lead: coords of the leading dimensions in order; a list t
    makes time a dimension: its place among the leading dimensions is tdim (default: last)."""
    data = np.ma.masked_array(np.ma.getdata(data).astype(dtype), np.ma.getmaskarray(data)) \
        if np.ma.isMaskedArray(data) else np.asarray(data).astype(dtype)
    cube = Cube(data, units=units)
    cube.rename(name)
    cube.attributes.update(ATTRS if attrs is None else attrs)
    lead = list(lead)
    tcs = time_coords(t, frt, tb) if t is not None else []
    if isinstance(t, (list, tuple)):
        pos = len(lead) if tdim is None else tdim
        lead.insert(pos, tcs[0])
    else:
        pos = None
    for i, c in enumerate(lead):
        cube.add_dim_coord(c.copy(), i)
    n = len(lead)
    if space in ("xy", "ll"):
        yc, xc = xy(data.shape[n], data.shape[n + 1], space, **kw)
        cube.add_dim_coord(yc, n)
        cube.add_dim_coord(xc, n + 1)
    elif space == "spot":
        add_spot(cube, n, **kw)
    for c in tcs:
        if pos is not None and c.name() == "time":
            continue
        if c.shape[0] > 1 or (pos is not None and c.name() == "forecast_period"):
            cube.add_aux_coord(c, pos)
        else:
            cube.add_aux_coord(c)
    return cube


def add_spot(cube, dim, ids=None, alt=None, lat=None, lon=None, unique=None):
    n = cube.shape[dim]
    cube.add_dim_coord(DimCoord(np.arange(n, dtype=np.int32), long_name="spot_index",
                                units="1"), dim)
    ids = ids if ids is not None else ["%05d" % (i + 100) for i in range(n)]
    cube.add_aux_coord(AuxCoord(np.array(ids), long_name="wmo_id", units="no_unit"), dim)
    for nm, v, u, dflt in (("altitude", alt, "m", [10.0 * i for i in range(n)]),
                           ("latitude", lat, "degrees", [50.0 + i for i in range(n)]),
                           ("longitude", lon, "degrees", [float(i) for i in range(n)])):
        cube.add_aux_coord(AuxCoord(np.array(dflt if v is None else v, dtype=np.float32), nm,
                                    units=u), dim)
    if unique is not None:
        c = AuxCoord(np.array(unique), long_name="station_id", units="no_unit")
        c.attributes["unique_site_identifier"] = "true"
        cube.add_aux_coord(c, dim)


def realization(n, start=0):
    pts = list(range(start, start + n)) if isinstance(n, int) else list(n)
    return DimCoord(np.array(pts, dtype=np.int32), "realization", units="1")


def percentiles(ps):
    return DimCoord(np.array(ps, dtype=np.float32), long_name="percentile", units="%")


def thresholds(ts, name="air_temperature", units="K", relative="greater_than"):
    c = DimCoord(np.array(ts, dtype=np.float32), units=units)
    c.rename(name)
    c.var_name = "threshold"
    c.attributes["spp__relative_to_threshold"] = relative
    return c


def prob(data, ts, name="air_temperature", units="K", relative="greater_than", lead=(),
         lead_first=False, **kw):
    tc = thresholds(ts, name, units, relative)
    ab = "above" if "greater" in relative else "below"
    lead = list(lead) + [tc] if lead_first else [tc] + list(lead)
    vic = kw.pop("vicinity", False)
    return grid(data, "probability_of_%s_%s%s_threshold" % (name, "in_vicinity_" if vic else "",
                                                          ab), "1", lead=lead, **kw)


def describe(cube):
    """Shape of a cube as plain values: names, dims, dtypes."""
    dims = []
    for d in range(cube.ndim):
        cs = [c.name() for c in cube.coords(dim_coords=True) if d in cube.coord_dims(c)]
        dims.append(cs[0] if cs else "anon")
    scal = sorted(c.name() for c in cube.coords() if not cube.coord_dims(c))
    return {"cname": cube.name(), "cunits": str(cube.units), "dims": dims, "scalars": scal,
            "shape": [int(n) for n in cube.shape], "dtype": str(cube.dtype)}


def attrs_post(before, after):
    """Attributes as a post-processing plugin leaves them: all kept, but for the title."""
    want = dict(before)
    if "title" in want and not str(want["title"]).startswith("Post-Processed") \
            and want["title"] != "unknown":
        want["title"] = "Post-Processed " + str(want["title"])
    return dict(after) == want
