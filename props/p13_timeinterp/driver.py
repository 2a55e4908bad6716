import datetime
from functools import reduce
from math import gcd

import numpy as np
from vkit import fx
from vkit import cubes as C
from vkit.main import Failed

from improver.utilities.solar import calc_solar_elevation
from improver.utilities.temporal_interpolation import TemporalInterpolation

Q = 900          # a quarter of an hour


def dt(t):
    return datetime.datetime.utcfromtimestamp(int(t))


def same(a, b):
    return a == b and C.describe(a) == C.describe(b) and np.array_equal(a.data, b.data) and \
        all(x == y and x.dtype == y.dtype for x, y in zip(a.coords(), b.coords()))


def field(data, lead, t, frt, period=None, space="xy", name="air_temperature", units="K", **kw):
    tb = [t - period, t] if period else None
    return C.grid(data, name=name, units=units, lead=lead, t=t, frt=frt, tb=tb, space=space, **kw)


def sines(cube, t):
    y, x = cube.coord("latitude").points, cube.coord("longitude").points
    lat, lon = np.meshgrid(y, x, indexing="ij")
    d = dt(t)
    doy = (d - datetime.datetime(d.year, 1, 1)).days
    return calc_solar_elevation(lat, lon, doy, d.hour + d.minute / 60.0, return_sine=True)


def one(ctx, s, kind, a, b, va, vb, plugin, step, asked, p0, p1, base, first=True, sc=100, small=0):
    """Interpolate between cubes a and b, whose values are va and vb (integers)."""
    t0, t1 = int(a.coord("time").points[0]), int(b.coord("time").points[0])
    keep = [a.copy(), b.copy()]
    if small:                  # the same in a unit in which amounts are tiny
        a, b = a.copy(a.data * np.float32(2.0 ** -small)), b.copy(b.data * np.float32(2.0 ** -small))
        keep = [a.copy(), b.copy()]
    r = ctx.call(plugin, a, b)
    if small and not isinstance(r, Failed):
        r = C.CubeList([c.copy(c.data * np.float32(2.0 ** small)) for c in r])
    bounded = kind in ("accumulation", "max", "min")
    u = reduce(gcd, [t1 - t0, step or 0] + [t - base for t in (asked or [])] +
               [t0 - base] + ([p0, p1] if bounded else []))
    sc_t = lambda x: (int(x) - base) // u
    ev = dict(kind=kind, t0=sc_t(t0), t1=sc_t(t1), step=(step or 0) // u,
              asked=[sc_t(t) for t in (asked or [])], p0=(p0 or 0) // u, p1=(p1 or 0) // u,
              v0=va.ravel(), v1=vb.ravel(), sc=sc, first=first, bounded=bounded)
    if isinstance(r, Failed):
        s.event("pair", out="error", err=r.text, **ev)
        return None
    ok = all(c.coord("time").shape == (1,) for c in r)
    ts = [int(c.coord("time").points[0]) for c in r]
    frt = int(keep[0].coord("forecast_reference_time").points[0])
    leads = all(int(c.coord("forecast_period").points[0]) == t - frt and
                int(c.coord("forecast_reference_time").points[0]) == frt for c, t in zip(r, ts))
    bounds = []
    if bounded:
        for c in r:
            if c.coord("time").has_bounds() and c.coord("forecast_period").has_bounds():
                tb = [int(x) for x in c.coord("time").bounds[0]]
                leads = leads and [x - frt for x in tb] == \
                    [int(x) for x in c.coord("forecast_period").bounds[0]]
                bounds.append([sc_t(x) if (x - base) % u == 0 else -1 for x in tb])
    else:
        leads = leads and not any(c.coord("time").has_bounds() for c in r)
    d = C.describe(keep[1])
    meta = ok
    for c in r:
        e = C.describe(c)
        want = d["dtype"] if not keep[1].units == "degrees" else "float32"
        meta = meta and e["dims"] == d["dims"] and e["shape"] == d["shape"] and \
            e["cname"] == d["cname"] and e["cunits"] == d["cunits"] and \
            e["scalars"] == d["scalars"] and e["dtype"] == want and \
            c.attributes == keep[1].attributes and \
            str(c.coord("time").dtype) == "int64" and \
            str(c.coord("forecast_period").dtype) == "int32" and \
            str(c.coord("forecast_reference_time").dtype) == "int64" and \
            str(c.coord("time").units) == C.TUNITS and \
            str(c.coord("forecast_period").units) == "seconds"
    # coordinates other than time as they were
    for n in d["dims"]:
        if n != "anon" and meta:
            meta = all(c.coord(n) == keep[1].coord(n) for c in r)
    if kind == "direction":
        ang = [np.deg2rad(c.data.astype(np.float64)) for c in r]
        ev["sn"] = [fx(np.sin(x), 10000) for x in ang]
        ev["cs"] = [fx(np.cos(x), 10000) for x in ang]
        ev["got"] = [fx(c.data, 10) for c in r]
    else:
        ev["got"] = [fx(c.data, sc) for c in r]
    if kind in ("solar", "daynight"):
        full = lambda x: fx(np.broadcast_to(x, r[0].shape), 10000)
        ev["s"] = [full(sines(keep[0], t)) for t in ts]
        ev["s0"], ev["s1"] = full(sines(keep[0], t0)), full(sines(keep[0], t1))
    if bounded and len(bounds) == len(r) and r:
        ends = [int(r[0].coord("time").bounds[0][0]), int(r[-1].coord("time").bounds[0][1])]
    else:
        ends = [base, base]
    ev["from"], ev["to"] = [(x - base) // 60 for x in ends]
    s.event("pair", out="ok", ts=[sc_t(t) if (t - base) % u == 0 else -1 for t in ts],
            bounds=bounds, leads_ok=bool(leads), meta=bool(meta),
            same=all(same(x, y) for x, y in zip((a, b), keep)), **ev)
    return r


def shape(rng):
    r = rng.randint(4)
    ny, nx = int(rng.randint(1, 4)), int(rng.randint(2, 4))
    if r == 1:
        return [C.realization(int(rng.randint(2, 4)))], ny, nx
    if r == 2:
        return [C.percentiles([10, 50, 90])], ny, nx
    if r == 3:
        return [C.realization(2), C.percentiles([10, 90])], ny, nx
    return [], ny, nx


def mk(kind, **kw):
    method = kind if kind in ("solar", "daynight") else "linear"
    return TemporalInterpolation(
        interpolation_method=method, accumulation=kind == "accumulation", max=kind == "max",
        min=kind == "min", **kw)


def replay(ctx, s, rng, case):
    """A run of forecasts of the model, with more cells than one."""
    kind, run, cuts = case["kind"], case["run"], case["cuts"]
    unit = [Q, 4 * Q, 12 * Q, 96 * Q][rng.randint(4)]
    base = C.T0
    lead, ny, nx = shape(rng)
    shp = tuple(len(c.points) for c in lead) + (ny, nx)
    frt = base - 14400
    cubes, vals = [], []
    for f in run:
        v = rng.randint(0, 9, shp)
        v.ravel()[0] = f["v"]
        if rng.rand() < 0.2:
            v = v * 0
        p = f["p"] * unit if kind in ("accumulation", "max", "min") else None
        cubes.append(field(v, lead, base + f["t"] * unit, frt, p,
                           name="rainfall_accumulation" if p else "air_temperature",
                           units="m" if p else "K"))
        vals.append(v)
    for i, cut in enumerate(cuts):
        asked = [base + c * unit for c in cut]
        if not asked:
            asked = [base + run[i + 1]["t"] * unit]
            if rng.randint(2):
                asked = asked * 2
        given = [dt(t) for t in asked]
        if rng.randint(2):
            given = given[::-1]
        if len(cut) and rng.randint(2):
            given = given + [dt(base + run[i + 1]["t"] * unit)]
        pre = list(given)
        plugin = mk(kind, times=given)
        if cut:
            one(ctx, s, kind, cubes[i], cubes[i + 1], vals[i], vals[i + 1], plugin, None, asked,
                run[i]["p"] * unit, run[i + 1]["p"] * unit, base, first=i == 0 or not cuts[i - 1])
        else:
            keep = cubes[i + 1].copy()
            r = ctx.call(plugin, cubes[i], cubes[i + 1])
            s.event("unchanged", same=not isinstance(r, Failed) and len(r) == 1 and
                    same(r[0], keep))
        s.event("given", same=pre == given)


def stepped(ctx, s, rng, kind):
    """One plugin over a run of forecasts, by interval."""
    m = int(rng.choice([15, 20, 30, 60, 90, 180]))
    step = m * 60
    plugin = mk(kind, interval_in_minutes=m)
    lead, ny, nx = shape(rng)
    space = "xy"
    if kind in ("solar", "daynight"):
        space, lead, ny, nx = "ll", lead[:1], int(rng.randint(2, 5)), int(rng.randint(2, 5))
        if kind == "daynight" and lead and rng.rand() < 0.5:
            lead = []
    shp = tuple(len(c.points) for c in lead) + (ny, nx)
    base = C.T0 + 3600 * int(rng.randint(0, 8760))
    frt = base - 3600 * int(rng.randint(1, 30))
    t, prev, pp = base, None, None
    kw = {}
    if space == "ll":
        kw = dict(dy=float(rng.choice([2, 5, 10])), dx=float(rng.choice([2, 15, 40])),
                  y0=float(rng.randint(-60, 40)), x0=float(rng.randint(-180, 60)))
    units, name, top = "K", "air_temperature", 40
    if kind == "direction":
        units, name, top = "degrees", "wind_from_direction", 16
    small = 24 if kind == "accumulation" and rng.randint(2) else 0
    for k in range(4):
        p = step * int(rng.randint(2, 7))
        if kind in ("solar", "daynight"):
            p = min(p, 6 * 3600 // step * step)
            if p <= step:
                p = 2 * step
        if k:
            t += p
        v = rng.randint(0, top, shp)
        if kind == "linear":
            v = v - 20
        if kind == "direction" and prev is not None and rng.randint(2):
            v = (prev[1] + rng.randint(-3, 4, shp)) % 16
        bounded = kind in ("accumulation", "max", "min")
        cube = field(v * 22.5 if kind == "direction" else v, lead, t, frt, p if bounded else None,
                     space, name, units, **kw)
        if kind == "solar":
            v = np.where(np.broadcast_to(sines(cube, t), shp) > 0, v, 0)
            cube.data = v.astype(np.float32)
        if prev is not None:
            one(ctx, s, kind, prev[0], cube, prev[1], v, plugin, step, None, pp, p, base,
                first=k == 1, sc=1 if kind == "solar" else 100,
                small=small)
        prev, pp = (cube, v), p


def drive(ctx):
    rng = ctx.rng
    for case in ctx.pick(ctx.cases, 900 if ctx.thorough else 120):
        with ctx.session("run_" + case["kind"]) as s:
            replay(ctx, s, rng, case)
    n = 25 if ctx.thorough else 5
    for _ in range(n):
        for kind in ("linear", "direction", "accumulation", "max", "min", "solar", "daynight"):
            with ctx.session("stepped_" + kind) as s:
                stepped(ctx, s, rng, kind)
    h = 3600
    one_ = np.ones((2, 2))
    a, b = field(one_, [], C.T0, C.T0 - h), field(one_, [], C.T0 + 3 * h, C.T0 - h)
    b25 = field(one_, [], C.T0 + 25 * h, C.T0 - h)
    b26 = field(one_, [], C.T0 + 26 * h, C.T0 - h)
    pa = field(one_, [], C.T0, C.T0 - h, 3 * h)
    pb = field(one_, [], C.T0 + 3 * h, C.T0 - h, 3 * h)
    pl = field(one_, [], C.T0 + 3 * h, C.T0 - h, 6 * h)
    ps = field(one_, [], C.T0 + 3 * h, C.T0 - h, h)
    p24 = field(one_, [], C.T0 + 3 * h, C.T0 - h, 27 * h)
    two = C.grid(np.ones((2, 2, 2)), t=[C.T0, C.T0 + h], frt=C.T0 - h)
    timeless = C.grid(one_, t=None, frt=None)
    TI = TemporalInterpolation
    mid = [dt(C.T0 + h)]
    bad = {
        "no_times": lambda: TI(),
        "times_and_interval": lambda: TI(interval_in_minutes=60, times=mid),
        "unknown_method": lambda: TI(interval_in_minutes=60, interpolation_method="cubic"),
        "two_kinds_of_period": lambda: TI(interval_in_minutes=60, max=True, min=True),
        "accumulation_and_maximum": lambda: TI(interval_in_minutes=60, max=True,
                                               accumulation=True),
        "solar_accumulation": lambda: TI(interval_in_minutes=60, accumulation=True,
                                         interpolation_method="solar"),
        "daynight_maximum": lambda: TI(interval_in_minutes=60, max=True,
                                       interpolation_method="daynight"),
        "not_a_cube": lambda: TI(times=mid)(a, C.CubeList([b])),
        "no_time": lambda: TI(times=mid)(timeless, b),
        "several_times": lambda: TI(times=mid)(two, b),
        "wrong_order": lambda: TI(times=mid)(b, a),
        "uneven_interval": lambda: TI(interval_in_minutes=120)(a, b),
        "uneven_interval_over_a_day": lambda: TI(interval_in_minutes=120)(a, b25),
        "uneven_interval_over_more_than_a_day": lambda: TI(interval_in_minutes=180)(a, b26),
        "time_before": lambda: TI(times=[dt(C.T0 - h)] + mid)(a, b),
        "time_after": lambda: TI(times=mid + [dt(C.T0 + 4 * h)])(a, b),
        "period_and_instant": lambda: TI(times=mid, max=True)(a, pb),
        "instant_and_period": lambda: TI(times=mid)(pa, b),
        "period_undeclared": lambda: TI(times=mid)(pa, pb),
        "instants_declared_period": lambda: TI(times=mid, accumulation=True)(a, b),
        "overlapping_periods": lambda: TI(times=mid, accumulation=True)(pa, pl),
        "periods_apart": lambda: TI(times=mid, accumulation=True)(pa, ps),
        "overlap_of_a_day": lambda: TI(times=mid, max=True)(pa, p24),
    }
    for why, f in bad.items():
        with ctx.session("reject") as s:
            r = ctx.call(f)
            s.event("rejected", why=why, out="error" if isinstance(r, Failed) else "ok")
