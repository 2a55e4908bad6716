import iris
import numpy as np
from vkit import fx
from vkit import cubes as C
from vkit.main import Failed

from improver.constants import R_WATER_VAPOUR
from improver.lapse_rate import ApplyGriddedLapseRate, LapseRate
from improver.nowcasting.utilities import ApplyOrographicEnhancement
from improver.orographic_enhancement import OrographicEnhancement
from improver.psychrometric_calculations.psychrometric_calculations import calculate_svp_in_air
from improver.utilities.cube_manipulation import enforce_coordinate_ordering


def out(r):
    return "error" if isinstance(r, Failed) else "ok"


def rows(a, k=1):
    return [fx(r, k) for r in a]


def alike(a, b):
    """Equal cubes, missing values included."""
    x, y = a.copy(data=np.ma.filled(a.data, 9e9)), b.copy(data=np.ma.filled(b.data, 9e9))
    x.data, y.data = np.nan_to_num(x.data, nan=8e9), np.nan_to_num(y.data, nan=8e9)
    return x == y


def members(cube, k):
    """The fields of a cube by member, rows and columns, in fixed point."""
    q = cube.copy()
    enforce_coordinate_ordering(q, ["realization", "percentile", q.coord(axis="y").name(), q.coord(axis="x").name()])
    return [rows(x, k) for x in q.data.reshape((-1,) + q.shape[-2:])]


def shuffle(rng, cube):
    o = list(range(cube.ndim))
    rng.shuffle(o)
    cube.transpose(o)
    return cube


def field(a, **kw):
    c = C.grid(np.asarray(a, dtype=np.float32), **kw)
    return c


def lapse_session(ctx, case):
    rng = ctx.rng
    if case is not None and rng.rand() < 0.5:
        k = 2 if rng.rand() < 0.5 else 3
        h = np.array([case["h"]] * k)
        land = np.array([case["land"]] * k)
        t = np.array([[case["t"]] * k])
        r = 1
    else:
        ny, nx = [int(v) for v in rng.randint(2, 6, 2)]
        if rng.rand() < 0.3:
            nx = ny
        r = int(rng.randint(0, 3))
        h = rng.randint(0, 9, (ny, nx))
        h[rng.rand(ny, nx) < 0.2] += 25
        land = (rng.rand(ny, nx) < 0.8).astype(int)
        t = rng.randint(-8, 9, (int(rng.randint(1, 3)), ny, nx))
        if rng.rand() < 0.2:
            t[0] = int(rng.randint(-8, 9))
        elif rng.rand() < 0.4:
            h, t = h // 3 * 3, t // 4 * 4
    maxd = int(rng.choice([2, 5, 10, 15]))
    lo, hi = [(-980, 2940), (-100000, 100000), (-3000, -100), (0, 500)][int(rng.randint(4))]
    lead = (C.realization(len(t)),) if len(t) > 1 or rng.rand() < 0.3 else ()
    tc = field((2800 + t if lead else 2800 + t[0]) / 10, lead=lead)
    rec = t.tolist()
    oc = field(h, name="surface_altitude", units="m")
    lc = C.grid(land, name="land_binary_mask", units="1", dtype=np.int8)
    if rng.rand() < 0.5:
        shuffle(rng, tc)
    for c in (oc, lc):
        if rng.rand() < 0.3:
            c.transpose()
    if rng.rand() < 0.2:
        oc.convert_units("km")
    t0 = tc.copy()
    kw = {} if (lo, hi) == (-980, 2940) else dict(min_lapse_rate=lo / 1e5, max_lapse_rate=hi / 1e5)
    p = LapseRate(max_height_diff=maxd + (0.5 if str(oc.units) == "km" or rng.rand() < 0.5 else 0), nbhood_radius=r, **kw)
    with ctx.session("lapse") as s:
        res = ctx.call(lambda: p(tc, oc, lc))
        base = dict(t=rec, h=h.tolist(), land=land.tolist(), r=r, maxd=maxd, lo=lo, hi=hi, same=tc == t0, dims=[c.name() for c in tc.coords(dim_coords=True)])
        if isinstance(res, Failed):
            s.event("lapse_rate", out="error", err=res.text, **base)
        else:
            meta = res.name() == "air_temperature_lapse_rate" and res.units == "K m-1" and res.dtype == np.float32 and \
                [c.name() for c in res.coords(dim_coords=True)] == base["dims"] and res.coord("time") == t0.coord("time") and \
                set(res.attributes) == {"title", "source", "institution"}
            s.event("lapse_rate", out="ok", got=members(res, 1e5), meta=bool(meta), **base)
        s.event("rejected", why="bounds_the_wrong_way_round", out=out(ctx.call(lambda: LapseRate(max_lapse_rate=-1, min_lapse_rate=1))))
        s.event("rejected", why="negative_radius", out=out(ctx.call(lambda: LapseRate(nbhood_radius=-1))))
        s.event("rejected", why="negative_height", out=out(ctx.call(lambda: LapseRate(max_height_diff=-1))))
        apply_event(ctx, s)


def apply_event(ctx, s):
    rng = ctx.rng
    n = int(rng.randint(1, 5))
    ny, nx = [int(v) for v in rng.randint(2, 5, 2)]
    t = rng.randint(2600, 3000, (n, ny, nx))
    lr = rng.randint(-980, 2940, (n, ny, nx))
    src = rng.randint(0, 40, (ny, nx)) * 5
    dst = src + rng.randint(-30, 31, (ny, nx)) * 4
    if rng.rand() < 0.4:
        dst = src + rng.choice([-51, -50, -49, 0, 49, 50, 51], (ny, nx))
    lead = (C.realization(n),) if n > 1 else ()
    shp = (ny, nx) if n == 1 else (n, ny, nx)
    if n == 4:
        lead, shp = (C.realization(2), C.percentiles([20, 80])), (2, 2, ny, nx)
    tc = field(t.reshape(shp) / 10, lead=lead)
    lc = field(lr.reshape(shp) / 1e5, name="air_temperature_lapse_rate", units="K m-1", lead=lead)
    sc, dc = [field(x, name="surface_altitude", units="m") for x in (src, dst)]
    if rng.rand() < 0.3:
        tc.convert_units("celsius")
    if rng.rand() < 0.3:
        sc.convert_units("km")
    if rng.rand() < 0.3:
        dc.convert_units("ft")
    if rng.rand() < 0.2:
        lc.convert_units("K km-1")
    if rng.rand() < 0.4:
        shuffle(rng, tc)
    if rng.rand() < 0.4:
        shuffle(rng, lc)
    for c in (sc, dc):
        if rng.rand() < 0.2:
            c.transpose()
    p = ApplyGriddedLapseRate()
    a0 = dict(tc.attributes)
    ins = [tc, lc, sc, dc]
    kept = [x.copy() for x in ins]
    r = ctx.call(lambda: p(tc, lc, sc, dc))
    # units may change in place, as documented; nothing else may
    same = all(a.shape == b.shape and [c.name() for c in a.coords(dim_coords=True)] == [c.name() for c in b.coords(dim_coords=True)]
               and a.attributes == b.attributes and a.name() == b.name() for a, b in zip(ins, kept))
    base = dict(same=bool(same), t=t.tolist(), lr=lr.tolist(), src=src.tolist(), dst=dst.tolist())
    if isinstance(r, Failed):
        s.event("apply", out="error", err=r.text, **base)
    else:
        meta = r.units == "K" and r.name() == "air_temperature" and r.dtype == np.float32 and C.attrs_post(a0, r.attributes) and \
            r.coord("time") == tc.coord("time")
        s.event("apply", out="ok", got=members(r, 1000), meta=bool(meta), **base)
    many = field(np.stack([lr[0]] * 2) / 1e5, name="air_temperature_lapse_rate", units="K m-1", lead=(C.realization(2),))
    one = field(t[0] / 10)
    mk = lambda: [field(x, name="surface_altitude", units="m") for x in (src, dst)]
    s.event("rejected", why="more_lapse_rates_than_temperatures", out=out(ctx.call(lambda: p(one, many, *mk()))))
    tm = field(np.stack([t[0]] * 2) / 10, lead=(C.realization(2),))
    s.event("rejected", why="fewer_lapse_rates_than_temperatures", out=out(ctx.call(lambda: p(tm, field(lr[0] / 1e5, name="air_temperature_lapse_rate", units="K m-1"), *mk()))))
    bad = field(dst, name="surface_altitude", units="m", x0=12345.0)
    s.event("rejected", why="another_grid", out=out(ctx.call(lambda: p(one, field(lr[0] / 1e5, name="air_temperature_lapse_rate", units="K m-1"), mk()[0], bad))))
    s.event("rejected", why="another_grid", out=out(ctx.call(lambda: p(one, field(lr[0] / 1e5, name="air_temperature_lapse_rate", units="K m-1"), bad, mk()[0]))))


WINDS = [(8, 15), (-8, 15), (15, -8), (-15, -8), (0, 10), (0, -14), (10, 0), (-12, 0), (0, 0), (8, -15), (0, 20), (0, 1), (-1, 0)]


def enhancement_session(ctx):
    rng = ctx.rng
    ny, nx = [int(v) for v in rng.randint(3, 8, 2)]
    cell = 2000 if rng.rand() < 0.7 else 3000
    h = rng.randint(0, 20, (ny, nx)) * 10
    if rng.rand() < 0.4:
        h = np.where(rng.rand(ny, nx) < 0.5, h, 0)
    rh = rng.choice([50, 79, 81, 95, 100], (ny, nx), p=[0.1, 0.1, 0.2, 0.3, 0.3])
    edge = bool(rng.rand() < 0.3)           # some points just humid enough
    if edge:
        rh = rng.choice([50, 79, 80, 81, 95], (ny, nx))
    few = rng.choice(len(WINDS), int(rng.randint(1, 4)))
    w = np.array(WINDS)[rng.choice(few, (ny, nx))]
    fast = rng.rand() < 0.3                  # influence from further upstream
    if fast:
        w, h = 3 * w, h // 50 * 10
        w[rng.rand(ny, nx) < 0.7] = [24, 45]
    km = rng.rand() < 0.25
    if km:
        h = h + 3                           # no mean height at the limit
    u, v = w[..., 0], w[..., 1]
    t, pr = float(rng.choice([275.0, 283.0, 290.0])), float(rng.choice([90000.0, 101325.0]))
    svp = float(np.atleast_1d(calculate_svp_in_air(np.array([t], dtype=np.float32), np.array([pr], dtype=np.float32)))[0])
    k = int(round(100 * 3600 / R_WATER_VAPOUR * svp / t))
    g = dict(dy=float(cell), dx=float(cell))
    full = lambda x: np.full((ny, nx), x)
    tc = field(full(t), name="air_temperature", units="K", **g)
    hc = field(rh / 100, name="relative_humidity", units="1", **g)
    pc = field(full(pr), name="air_pressure", units="Pa", **g)
    uc = field(u, name="eastward_wind", units="m s-1", **g)
    vc = field(v, name="northward_wind", units="m s-1", **g)
    oc = field(h, name="surface_altitude", units="m", **g)
    oc.attributes = dict(C.ATTRS, mosg__grid_domain="uk", mosg__grid_type="standard")
    if rng.rand() < 0.3:
        tc.convert_units("celsius")
    if rng.rand() < 0.3 and not edge:
        hc.convert_units("%")
    if rng.rand() < 0.3:
        pc.convert_units("hPa")
    if rng.rand() < 0.3:
        uc.convert_units("km h-1")
    if km:
        oc.convert_units(str(rng.choice(["km", "ft"])))
    if rng.rand() < 0.3:
        oc = oc[::-1]
    if rng.rand() < 0.3:
        oc.transpose()
    if rng.rand() < 0.25:
        tc, hc, pc, uc, vc = [c[:, ::-1] for c in (tc, hc, pc, uc, vc)]
    if rng.rand() < 0.25:
        tc, hc, pc, uc, vc = [c[::-1] for c in (tc, hc, pc, uc, vc)]
    if rng.rand() < 0.2:
        for c in (tc, hc, pc, uc, vc):
            c.transpose()
    if rng.rand() < 0.2:
        for c in (tc, hc, pc, uc, vc, oc):
            c.coord(axis="x").convert_units("km")
            c.coord(axis="y").convert_units("km")
    ins = [tc, hc, pc, uc, vc, oc]
    keep = [c.copy() for c in ins]
    r = ctx.call(lambda: OrographicEnhancement()(*ins))
    with ctx.session("enhancement") as s:
        same = all(a == b for a, b in zip(ins, keep))
        base = dict(h=h.tolist(), rh=rh.tolist(), u=u.tolist(), v=v.tolist(), k=k, cell=cell, same=bool(same))
        if isinstance(r, Failed):
            s.event("enhancement", out="error", err=r.text, **base)
        else:
            meta = r.name() == "orographic_enhancement" and r.units == "m s-1" and r.attributes.get("title") == "unknown" and \
                r.attributes.get("mosg__grid_domain") == "uk" and all(r.coord(c) == tc.coord(c) for c in ("time", "forecast_period", "forecast_reference_time")) and \
                r.coord_dims(r.coord(axis="y")) == (0,) and np.all(np.diff(r.coord(axis="x").points) > 0) and np.all(np.diff(r.coord(axis="y").points) > 0)
            s.event("enhancement", out="ok", got=rows(r.data.astype(float) * 3.6e6, 1000), meta=bool(meta), **base)
        late = pc.copy()
        late.coord("time").points = late.coord("time").points + 3600
        s.event("rejected", why="another_time", out=out(ctx.call(lambda: OrographicEnhancement()(tc, hc, late, uc, vc, oc))))
    enhance_session(ctx)


def enhance_session(ctx):
    """Precipitation at some times (1/8 mm/h) with enhancement (1/8 mm/h) from the nearest."""
    rng = ctx.rng
    ny, nx = [int(v) for v in rng.randint(2, 5, 2)]
    nt, no = int(rng.randint(1, 4)), int(rng.randint(1, 3))
    add = bool(rng.rand() < 0.5)
    p = rng.randint(0, 12, (nt, ny, nx))
    p[rng.rand(nt, ny, nx) < 0.3] = 0
    oe = rng.randint(0, 8, (no, ny, nx))
    frt = C.T0 - 7200
    ocs = iris.cube.CubeList([field(oe[i] / 8, name="orographic_enhancement", units="mm h-1", t=C.T0 + 3600 * i, frt=frt) for i in range(no)])
    oc = ocs.merge_cube()
    if rng.rand() < 0.5:
        oc.convert_units("m s-1")
    un = "mm h-1" if rng.rand() < 0.4 else "m s-1"
    pcs, at, rec = [], [], []
    for i in range(nt):
        k = int(rng.randint(no))
        off = int(rng.choice([-20, -5, 0, 15, 25])) * 60
        d = np.ma.masked_array(p[i] / 8, rng.rand(ny, nx) < 0.3) if rng.rand() < 0.5 else p[i] / 8
        if not np.ma.isMaskedArray(d) and rng.rand() < 0.3:
            d = np.where(rng.rand(ny, nx) < 0.2, np.nan, d)
        c = C.grid(d, name="lwe_precipitation_rate", units="mm h-1", t=C.T0 + 3600 * k + off, frt=C.T0 + 3600 * k + off)
        rec.append(rows(c.data, 8))
        c.convert_units(un)
        pcs.append(c)
        at.append(k + 1)
    keep, ok = [c.copy() for c in pcs], oc.copy()
    arg = pcs[0] if nt == 1 and rng.rand() < 0.5 else iris.cube.CubeList(pcs)
    r = ctx.call(lambda: ApplyOrographicEnhancement("add" if add else "subtract")(arg, oc))
    with ctx.session("enhance") as s:
        same = all(alike(a, b) for a, b in zip(pcs, keep)) and oc == ok
        base = dict(p=rec, oe=oe.tolist(), at=at, add=add, same=bool(same))
        if isinstance(r, Failed):
            s.event("enhance", out="error", err=r.text, **base)
        else:
            f = 1.0 if un == "mm h-1" else 3.6e6
            meta = all(x.units == un and x.name() == y.name() and x.attributes == y.attributes and x.coord("time") == y.coord("time") for x, y in zip(r, keep))
            s.event("enhance", out="ok", got=[rows(x.data.astype(float) * f, 8000) if not np.ma.isMaskedArray(x.data) else rows(np.ma.masked_array(x.data.data.astype(float) * f, x.data.mask), 8000) for x in r], meta=bool(meta), **base)
        far = pcs[0].copy()
        far.coord("time").points = far.coord("time").points + 7 * 86400
        s.event("rejected", why="no_enhancement_in_time", out=out(ctx.call(lambda: ApplyOrographicEnhancement("add")(far, oc))))
        s.event("rejected", why="unknown_operation", out=out(ctx.call(lambda: ApplyOrographicEnhancement("multiply")(pcs[0], oc))))


def drive(ctx):
    n = 900 if ctx.thorough else 60
    for case in ctx.pick([c for c in ctx.cases if "h" in c], n):
        lapse_session(ctx, case)
    for _ in range(n):
        lapse_session(ctx, None)
        enhancement_session(ctx)
