"""Fields that follow the sun: local solar time, day and night, night masking, clear sky radiation."""
import datetime
import warnings

import numpy as np
from vkit import cubes as C
from vkit.main import Failed

from improver.cli import apply_night_mask as nmcli
from improver.cli import generate_clearsky_solar_radiation as cscli
from improver.cli import generate_solar_time as stcli
from improver.generate_ancillaries.generate_derived_solar_fields import GenerateClearskySolarRadiation, GenerateSolarTime
from improver.utilities.solar import DayNightMask, calc_solar_elevation
from improver.utilities.spatial import transform_grid_to_lat_lon

MASKED, NAN = 2000000002, 2000000001
STATIC = {"title": "Static", "source": "IMPROVER", "institution": "Met Office"}
YEARS = {2016: 366, 2017: 365, 2019: 365, 2020: 366, 2021: 365}


def unwrap(fn):
    fn = getattr(fn, "__wrapped__", fn)
    return getattr(fn, "__wrapped__", fn)


def out(r):
    return "error" if isinstance(r, Failed) else "ok"


def whole(a, scale):
    m = np.ma.getmaskarray(a)
    v = np.asarray(np.ma.getdata(a), dtype=float)
    return [MASKED if mm else NAN if np.isnan(x) else int(np.clip(np.rint(x * scale), -1.9e9, 1.9e9)) for x, mm in zip(v.flat, m.flat)]


def snap(cubes):
    return [c.copy() for c in cubes if c is not None]


def same(before, after):
    after = [c for c in after if c is not None]
    return all(a.metadata == b.metadata and a.coords() == b.coords() and a.shape == b.shape
               and np.array_equal(np.ma.getmaskarray(a.data), np.ma.getmaskarray(b.data))
               and np.array_equal(np.ma.filled(a.data, 0), np.ma.filled(b.data, 0), equal_nan=True) for a, b in zip(before, after))



def moment(ctx):
    """A year, seconds since it began, and the seconds of the year before."""
    rng = ctx.rng
    y = int(rng.choice(list(YEARS)))
    c = ctx.cases[rng.randint(len(ctx.cases))]
    day = int(c["day"]) if rng.rand() < 0.4 else int(rng.randint(0, YEARS[y]))
    day = min(day, YEARS[y] - 1)
    minute = int(c["minute"]) if rng.rand() < 0.3 else int(rng.randint(0, 1440))
    return y, day * 86400 + minute * 60, (366 if y in (2017, 2021) else 365) * 86400


def start(y):
    return C.secs(y, 1, 1)


def points(ctx, ny, nx, space):
    """Keywords for the grid."""
    rng = ctx.rng
    if space == "xy":
        d = [2000.0, 20000.0, 200000.0][rng.randint(3)]
        return dict(space="xy", dx=d, dy=d, x0=float(rng.randint(-3, 3)) * 100000, y0=float(rng.randint(-6, 3)) * 100000)
    c = ctx.cases[rng.randint(len(ctx.cases))]
    dy, dx = [(25, 50), (100, 200), (700, 1500), (1300, 3100)][rng.randint(4)]
    lat0 = int(np.clip(c["lat"] if rng.rand() < 0.4 else rng.randint(-9000, 9000), -9000, 9000 - dy * (ny - 1)))
    lon0 = int(np.clip(c["lon"] if rng.rand() < 0.4 else rng.randint(-18000, 18000), -18000, 18000 - dx * (nx - 1)))
    y = [(lat0 + k * dy) / 100 for k in range(ny)]
    return dict(space="ll", y=y[::-1] if rng.rand() < 0.2 else y, x=[(lon0 + k * dx) / 100 for k in range(nx)])


def where(c, space):
    """Latitudes and longitudes of the points, y before x, in hundredths."""
    if space == "xy":
        lats, lons = transform_grid_to_lat_lon(c)
    elif space == "ll":
        lons, lats = np.meshgrid(c.coord("longitude").points.astype(float), c.coord("latitude").points.astype(float))
    else:
        lats, lons = c.coord("latitude").points, c.coord("longitude").points
    return [[int(np.rint(a * 100)), int(np.rint(b * 100))] for a, b in zip(np.asarray(lats, dtype=float).flat, np.asarray(lons, dtype=float).flat)]


def spots(ctx, n):
    rng = ctx.rng
    lat = [int(q) for q in rng.randint(-9000, 9001, n)]
    lon = [int(q) for q in rng.randint(-18000, 18001, n)]
    return dict(space="spot", lat=[q / 100 for q in lat], lon=[q / 100 for q in lon])


def target(ctx, ny, nx, space):
    """A target grid, perhaps with x first or other dimensions."""
    rng = ctx.rng
    kw = points(ctx, ny, nx, space)
    lead = [C.realization(2)] if rng.rand() < 0.25 else []
    c = C.grid(rng.rand(*([2] * len(lead) + [ny, nx])), "surface_altitude", "m", lead=lead, t=None, attrs=dict(STATIC, history="made"), **kw)
    at = where(c, space)
    if rng.rand() < 0.3:
        n = c.ndim
        c.transpose(list(range(n - 2)) + [n - 1, n - 2] if rng.rand() < 0.6 else list(range(n))[::-1])
    return c, at, kw


def when(y, t):
    return datetime.datetime.utcfromtimestamp(start(y) + t)


def attributes(r, title):
    return r.attributes == dict({"source": "IMPROVER", "institution": "Met Office"}, **({} if title is None else {"title": title}))


def solar_time(ctx, s):
    rng = ctx.rng
    ny, nx = int(rng.randint(1, 4)), int(rng.randint(1, 5))
    space = ["xy", "ll"][rng.randint(2)]
    c, at, _ = target(ctx, ny, nx, space)
    y, t, _ = moment(ctx)
    t += int(rng.choice([0, 0, 29, 30, 31, 59, rng.randint(60)]))
    if rng.rand() < 0.1:
        t = t - t % 86400 + 86400 - int(rng.choice([1, 30, 31, 60]))
    title = [None, "Solar time"][rng.randint(2)]
    before = snap([c])
    fn = unwrap(stcli.process) if rng.rand() < 0.4 else GenerateSolarTime()
    r = ctx.call(lambda: fn(c, time=when(y, t), new_title=title))
    rec = dict(at=at, t=t)
    if isinstance(r, Failed):
        s.event("solar_time", out="error", err=r.text[:200], **rec)
        return
    meta = r.name() == "local_solar_time" and r.units == "hours" and r.dtype == np.float32 and r.shape == (ny, nx) and attributes(r, title) and \
        r.coord(axis="y") == c.coord(axis="y") and r.coord(axis="x") == c.coord(axis="x") and list(r.coord("time").points) == [start(y) + t] and r.coord("time").units == C.TUNITS
    s.event("solar_time", got=whole(r.data, 10000), meta=bool(meta), kept=bool(same(before, [c])), **rec)


def elevation(ctx, s):
    rng = ctx.rng
    n = int(rng.randint(1, 6))
    lat, lon = [int(q) for q in rng.choice([-9000, 9000, 0, 5000, *rng.randint(-9000, 9001, 4)], n)], [int(q) for q in rng.choice([-18000, 18000, 0, *rng.randint(-18000, 18001, 4)], n)]
    day, minute = int(rng.randint(0, 366)), int(rng.choice([0, 1440, 720, rng.randint(0, 1441)]))
    args = (np.array(lat) / 100, np.array(lon) / 100) if rng.rand() < 0.7 or n > 1 else (lat[0] / 100, lon[0] / 100)
    r = ctx.call(lambda: (calc_solar_elevation(*args, day, minute / 60, return_sine=True), calc_solar_elevation(*args, day, minute / 60)))
    rec = dict(at=[list(q) for q in zip(lat, lon)], day=day, minute=minute)
    if isinstance(r, Failed):
        s.event("elevation", out="error", err=r.text[:200], **rec)
        return
    s.event("elevation", got=whole(np.atleast_1d(r[0]), 10000), deg=whole(np.atleast_1d(r[1]), 100), **rec)


def scene(ctx, space):
    """Times and their limits for a cube; (keywords, times for the record, year, past)."""
    rng = ctx.rng
    y, t, past = moment(ctx)
    nt = int(rng.choice([1, 1, 2, 3]))
    step = int(rng.choice([3600, 3 * 3600, 6 * 3600]))
    ts = [t + k * step for k in range(nt)]
    year = YEARS[y] * 86400
    if ts[-1] >= year:
        ts = [q - nt * step for q in ts]
    length = int(rng.choice([0, 0, 3600, 7200, 21600]))
    off = start(y)
    tdim = rng.rand() < 0.3 or nt > 1
    kw = dict(t=[off + q for q in ts] if tdim else off + ts[0], frt=off + ts[0] - 86400)
    if length:
        tb = [[off + q - length, off + q] for q in ts]
        kw["tb"] = tb if tdim else tb[0]
    return kw, [[q - length, q] if length else [q] for q in (ts if tdim else ts[:1])], y, past, tdim


def field(ctx, name):
    """A cube with time and other dimensions in some order; values by (time, rest, point)."""
    rng = ctx.rng
    space = ["xy", "ll", "ll", "spot"][rng.randint(4)]
    tk, ts, y, past, tdim = scene(ctx, space)
    nt = len(ts)
    kind = ["plain", "plain", "prob", "realization", "both"][rng.randint(5)]
    if kind in ("prob", "both"):
        lead = [C.thresholds([0.1, 0.5, 1.0][:int(rng.randint(1, 4))], name, "1")]
    else:
        lead = []
    if kind in ("realization", "both"):
        lead.insert(int(rng.randint(len(lead) + 1)), C.realization(int(rng.randint(1, 4))))
    shape = [c.shape[0] for c in lead]
    pk = spots(ctx, int(rng.randint(1, 5))) if space == "spot" else points(ctx, int(rng.randint(1, 4)), int(rng.randint(1, 4)), space)
    n = 1 if space == "spot" else 2
    dims = [len(pk["lat"])] if space == "spot" else [len(pk["y"]), len(pk["x"])] if space == "ll" else [int(rng.randint(1, 4)), int(rng.randint(1, 4))]
    pos = int(rng.randint(len(shape) + 1)) if tdim else None
    full = shape[:pos] + [nt] + shape[pos:] + dims if tdim else shape + dims
    total = int(np.prod(full))
    v = rng.randint(1, 1000, total).reshape(full)
    mask = rng.rand(*full) < 0.2 if rng.rand() < 0.2 else None
    data = v / 1000 if mask is None else np.ma.masked_array(v / 1000, mask)
    title = "probability_of_%s_above_threshold" % name if kind in ("prob", "both") else name
    c = C.grid(data, title, "1", lead=lead, tdim=pos, **tk, **pk)
    at = where(c, space)
    if rng.rand() < 0.3 and space != "spot":
        p = list(rng.permutation(c.ndim))
        c.transpose([int(q) for q in p])
    return c, at, ts, y, past, space


def lined(c, array, space, scale=1000):
    """Values by (time, rest, point), from an array with the dimensions of c."""
    if space == "spot":
        sp = [c.coord_dims("spot_index")[0]]
    else:
        sp = [c.coord_dims(c.coord(axis=a))[0] for a in "yx"]
    td = list(c.coord_dims("time"))
    rest = sorted((q for q in range(c.ndim) if q not in sp + td), key=lambda q: c.coord(dimensions=q, dim_coords=True).name())
    a = np.ma.transpose(array, td + rest + sp) if np.ma.isMaskedArray(array) else np.transpose(array, td + rest + sp)
    npt = int(np.prod([c.shape[q] for q in sp]))
    nt = c.shape[td[0]] if td else 1
    a = a.reshape((nt, -1, npt))
    return [[whole(a[i, j], scale) for j in range(a.shape[1])] for i in range(nt)]


def daynight(ctx, s):
    rng = ctx.rng
    plugin = DayNightMask()
    for _ in range(int(rng.choice([1, 1, 2]))):
        c, at, ts, y, past, space = field(ctx, "lwe_precipitation_rate")
        before = snap([c])
        r = ctx.call(lambda: plugin(c))
        rec = dict(at=at, ts=ts, past=past, space=space)
        if isinstance(r, Failed):
            s.event("daynight", out="error", err=r.text[:200], **rec)
            continue
        n = 1 if space == "spot" else 2
        g = np.asarray(r.data)
        td = list(r.coord_dims("time"))
        sp = [r.coord_dims("spot_index")[0]] if space == "spot" else [r.coord_dims(r.coord(axis=a))[0] for a in "yx"]
        g = np.transpose(g, td + sp).reshape((len(ts), -1))
        meta = r.name() == "day_night_mask" and r.units == "1" and r.dtype == np.int32 and r.attributes["title"] == "Day-Night mask" and r.attributes["source"] == c.attributes["source"] and \
            set(r.attributes) == {"title", "source", "institution"} and np.array_equal(r.coord("time").points, before[0].coord("time").points) and \
            np.array_equal(r.coord("time").bounds, before[0].coord("time").bounds) and r.ndim == n + len(td) and not r.coords("realization", dim_coords=True)
        s.event("daynight", got=[whole(q, 1) for q in g], meta=bool(meta), kept=bool(same(before, [c])), **rec)


def night_mask(ctx, s):
    c, at, ts, y, past, space = field(ctx, "lwe_precipitation_rate")
    before = c.copy()
    v = lined(c, c.data, space)
    r = ctx.call(lambda: unwrap(nmcli.process)(c))
    rec = dict(at=at, ts=ts, past=past, v=v)
    if isinstance(r, Failed):
        s.event("night_mask", out="error", err=r.text[:200], **rec)
        return
    meta = r.metadata == before.metadata and r.coords() == before.coords() and r.shape == before.shape and r.dtype == np.float32
    s.event("night_mask", got=lined(before, r.data, space), meta=bool(meta), **rec)


def clearsky(ctx, s):
    rng = ctx.rng
    ny, nx = int(rng.randint(1, 3)), int(rng.randint(1, 4))
    space = ["xy", "ll"][rng.randint(2)]
    c, at, kw = target(ctx, ny, nx, space)
    y, t, past = moment(ctx)
    hours = int(rng.choice([1, 2, 3, 6]))
    spacing = int(rng.choice([15, 20, 30, 60]))
    alt = turb = ac = tc = None
    if rng.rand() < 0.5:
        alt = [int(q) for q in rng.choice([0, 100, 500, 1500, 3000, rng.randint(0, 4000)], ny * nx)] if rng.rand() < 0.8 else [0] * (ny * nx)
        ac = C.grid(np.array(alt).reshape(ny, nx), "surface_altitude", "m", t=None, attrs=STATIC, **kw)
    if rng.rand() < 0.5:
        turb = [int(q) for q in rng.randint(150, 700, ny * nx)]
        tc = C.grid(np.array(turb).reshape(ny, nx) / 100, "linke_turbidity", "1", t=None, attrs=STATIC, **kw)
    for q in (ac, tc):
        if q is not None and rng.rand() < 0.25:
            q.transpose([1, 0])
    title = [None, "Clear sky"][rng.randint(2)]
    args = dict(surface_altitude=ac, linke_turbidity=tc, new_title=title)
    if spacing != 30 or rng.rand() < 0.5:
        args["temporal_spacing"] = spacing
    before = snap([c, ac, tc])
    fn = unwrap(cscli.process) if rng.rand() < 0.4 else GenerateClearskySolarRadiation()
    r = ctx.call(lambda: fn(c, time=when(y, t), accumulation_period=hours, **args))
    rec = dict(at=at, end=t, past=past, hours=hours, spacing=spacing, alt=alt or [0] * len(at), turb=turb or [300] * len(at))
    if isinstance(r, Failed):
        s.event("clearsky", out="error", err=r.text[:200], **rec)
        return
    level = "height" if alt and any(alt) else "altitude"
    z = r.coord(level) if r.coords(level) else None
    meta = r.name() == "integral_of_surface_downwelling_shortwave_flux_in_air_assuming_clear_sky_wrt_time" and r.units == "W s m-2" and r.dtype == np.float32 and r.shape == (ny, nx) and attributes(r, title) and \
        r.coord(axis="y") == c.coord(axis="y") and r.coord(axis="x") == c.coord(axis="x") and list(r.coord("time").points) == [start(y) + t] and \
        r.coord("time").bounds.tolist() == [[start(y) + t - hours * 3600, start(y) + t]] and z is not None and z.points.tolist() == [0.0] and z.units == "m" and z.attributes.get("positive") == "up" and \
        not r.coords("height" if level == "altitude" else "altitude")
    got = np.asarray(r.data, dtype=float) * 2 * 10 / 60 / spacing
    s.event("clearsky", got=whole(got, 1), meta=bool(meta), kept=bool(same(before, [c, ac, tc])), **rec)


def rejected(ctx, s):
    rng = ctx.rng
    why = ["uneven_spacing", "other_grid_altitude", "other_grid_turbidity", "below_threshold", "latitude", "hour", "day", "percentile_of_night"][rng.randint(7)]
    kw = points(ctx, 2, 3, "ll")
    c = C.grid(np.zeros((2, 3)), "surface_altitude", "m", t=None, attrs=STATIC, **kw)
    y, t, _ = moment(ctx)
    o = c.copy()
    k = o.coord(axis=["x", "y"][rng.randint(2)])
    k.points = k.points * 0.5 + 0.125
    if why == "uneven_spacing":
        h, sp = [(1, 25), (2, 50), (1, 120), (3, 75 + 1)][rng.randint(4)]
        run = lambda: GenerateClearskySolarRadiation()(c, when(y, t), h, temporal_spacing=sp)
    elif why == "other_grid_altitude":
        run = lambda: GenerateClearskySolarRadiation()(c, when(y, t), 1, surface_altitude=o)
    elif why == "other_grid_turbidity":
        run = lambda: GenerateClearskySolarRadiation()(c, when(y, t), 1, linke_turbidity=o)
    elif why == "below_threshold":
        p = C.prob(rng.rand(2, 2, 3), [1.0, 2.0], "lwe_precipitation_rate", "mm h-1", relative="less_than", **kw)
        run = lambda: unwrap(nmcli.process)(p)
    elif why == "latitude":
        a = np.array([0.0, float(rng.choice([90.5, -91.0])), 10.0])
        run = lambda: calc_solar_elevation(a, np.zeros(3), 10, 12.0)
    elif why == "hour":
        run = lambda: calc_solar_elevation(np.zeros(2), np.zeros(2), 10, float(rng.choice([24.5, -0.5])))
    else:
        run = lambda: calc_solar_elevation(np.zeros(2), np.zeros(2), int(rng.choice([-1, 366])), 12.0)
    s.event("rejected", why=why, out=out(ctx.call(run)))


def drive(ctx):
    k = 5 if ctx.thorough else 1
    warnings.simplefilter("ignore")
    for name, fn, n in (("solar_time", solar_time, 80), ("elevation", elevation, 60), ("daynight", daynight, 140), ("night_mask", night_mask, 160), ("clearsky", clearsky, 80), ("rejected", rejected, 40)):
        with ctx.session(name) as s:
            for _ in range(n * k):
                fn(ctx, s)
