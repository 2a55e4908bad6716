import datetime

import numpy as np
from iris.coords import CellMethod
from vkit import fx
from vkit import cubes as C
from vkit.main import Failed

from improver.metadata.forecast_times import (
    add_blend_time, forecast_period_coord, rebadge_forecasts_as_latest_cycle, unify_cycletime)
from improver.utilities.temporal import (
    cycletime_to_datetime, cycletime_to_number, datetime_to_cycletime, datetime_to_iris_time,
    datetime_constraint, extract_cube_at_time, extract_nearest_time_point, integrate_time, iris_time_to_datetime, relabel_to_period)
from improver.utilities.time_lagging import GenerateTimeLaggedEnsemble

B = C.T0 // 60              # base, in minutes
FRT, FP = "forecast_reference_time", "forecast_period"


def out(r):
    return "error" if isinstance(r, Failed) else "ok"


def dt(m):
    """minutes after the base -> datetime"""
    return datetime.datetime.utcfromtimestamp(C.T0 + int(m) * 60)


def cyc(m):
    return dt(m).strftime("%Y%m%dT%H%MZ")


def same(a, b):
    return a == b and C.describe(a) == C.describe(b) and \
        np.array_equal(np.ma.filled(a.data, -9), np.ma.filled(b.data, -9)) and \
        all(x == y and x.dtype == y.dtype and x.units == y.units
            for x, y in zip(a.coords(), b.coords()))


def mins(vals, off=0):
    out = []
    for v in np.asarray(vals).ravel():
        v = int(v) - off
        out.append(v // 60 if v % 60 == 0 else -99999)
    return out


def pairs(coord, off):
    if not coord.has_bounds():
        return []
    return [mins(b, off) for b in coord.bounds]


def std(cube):
    ok = True
    for n, t, u in (("time", "int64", C.TUNITS), (FRT, "int64", C.TUNITS), (FP, "int32", "seconds")):
        if cube.coords(n):
            c = cube.coord(n)
            ok = ok and str(c.dtype) == t and str(c.units) == u
            if c.has_bounds():
                ok = ok and str(c.bounds.dtype) == t
    return bool(ok)


def calendar(ctx, s, rng, date):
    y, mo, d = date
    h, mi = int(rng.randint(24)), int(rng.choice([0, 15, 30, 45, 59, 7]))
    text = "%04d%02d%02dT%02d%02dZ" % (y, mo, d, h, mi)
    r = ctx.call(cycletime_to_datetime, text)
    if isinstance(r, Failed):
        s.event("cycletime", out="error", err=r.text)
        return
    hours = cycletime_to_number(text)
    secs = cycletime_to_number(text, time_unit=C.TUNITS)
    iris_t = datetime_to_iris_time(r)
    cube = C.grid(np.ones((1, 1)), frt=None)
    add_blend_time(cube, text)
    b = cube.coord("blend_time")
    back = iris_time_to_datetime(b)[0]
    s.event("cycletime", out="ok", date=[y, mo, d, h, mi], text=text,
            parts=[r.year, r.month, r.day, r.hour, r.minute], back=datetime_to_cycletime(r),
            minutes=int(iris_t) // 60, hours60=int(round(float(hours) * 60)),
            secs60=int(round(float(secs) / 60)),
            whole=bool(int(iris_t) % 60 == 0 and float(secs) == int(iris_t) and
                       abs(float(hours) * 3600 - int(iris_t)) < 1e-3),
            blend=int(b.points[0]) // 60,
            blend_std=bool(str(b.dtype) == "int64" and str(b.units) == C.TUNITS and
                           back == r and cube.coord_dims("blend_time") == ()))


def lead(ctx, s, rng):
    kind = ["scalar", "times", "cycles", "both"][rng.randint(4)]
    n = 1 if kind == "scalar" else int(rng.randint(2, 4))
    nt = n if kind in ("times", "both") else 1
    nf = n if kind in ("cycles", "both") else 1
    ts = np.sort(rng.choice(np.arange(0, 3000, 15), nt, replace=False)).tolist()
    frts = np.sort(rng.choice(np.arange(-2000, 15, 15), nf, replace=False)).tolist()
    bounded = bool(rng.randint(2))
    per = 60 * int(rng.randint(1, 30))
    tb = [[t - per, t] for t in ts] if bounded else []
    cube = C.grid(rng.rand(n, 2, 2) if n > 1 else rng.rand(2, 2), frt=None, t=None,
                  lead=[C.DimCoord(np.arange(n, dtype=np.int32), long_name="k", units="1")]
                  if n > 1 else [])
    sec = lambda m: np.array(C.T0 + np.array(m) * 60, dtype=np.int64)
    tc = C.AuxCoord(sec(ts), "time", units=C.TUNITS, bounds=sec(tb) if bounded else None)
    cube.add_aux_coord(tc, 0 if nt > 1 else None)
    fc = C.AuxCoord(sec(frts), FRT, units=C.TUNITS)
    which = "frt"
    if nf == 1 and rng.rand() < 0.3:
        which = "blend"
        fc = C.AuxCoord(sec(frts), long_name="blend_time", units=C.TUNITS)
    cube.add_aux_coord(fc, 0 if nf > 1 else None)
    old = None
    if rng.randint(2):
        old = C.AuxCoord(np.full(n if n > 1 else 1, 77, dtype=np.int32), FP, units="seconds")
        if rng.randint(2):
            old.attributes["note"] = "kept"
        cube.add_aux_coord(old, 0 if n > 1 else None)
    if old is not None:
        r = ctx.call(forecast_period_coord, cube)
        s.event("kept_lead", same=not isinstance(r, Failed) and r == old and r is not
                cube.coord(FP))
    keep = cube.copy()
    r = ctx.call(forecast_period_coord, cube, force_lead_time_calculation=True) \
        if old is not None or rng.randint(2) else ctx.call(forecast_period_coord, cube)
    if isinstance(r, Failed):
        s.event("lead", out="error", err=r.text, ts=ts, frts=frts, which=which)
        return
    s.event("lead", out="ok", ts=ts, frts=frts, tb=tb, fp=mins(r.points), fb=pairs(r, 0),
            std=bool(str(r.dtype) == "int32" and str(r.units) == "seconds" and r.name() == FP and
                     r.attributes == ({} if old is None else old.attributes) and (not r.has_bounds() or str(r.bounds.dtype) == "int32")),
            same=same(cube, keep), which=which)


def rebadge(ctx, s, rng):
    n = int(rng.randint(1, 5))
    fs, cubes = [], []
    for i in range(n):
        nt = int(rng.choice([1, 1, 2, 3]))
        frt = 15 * int(rng.randint(-60, 10))
        ts = np.sort(rng.choice(np.arange(150, 3000, 15), nt, replace=False)).tolist()
        per = 60 * int(rng.randint(1, 5))
        tb = [[t - per, t] for t in ts] if rng.randint(2) else []
        data = rng.rand(nt, 2, 2) if nt > 1 else rng.rand(2, 2)
        sec = lambda m: C.T0 + m * 60
        cube = C.grid(data, t=[sec(t) for t in ts] if nt > 1 else sec(ts[0]), frt=sec(frt),
                      tb=None if not tb else [[sec(x) for x in b] for b in tb] if nt > 1
                      else [sec(x) for x in tb[0]])
        if rng.rand() < 0.2:
            cube.remove_coord(FP)
        if rng.rand() < 0.2:
            cube.coord(FRT).convert_units("hours since 1970-01-01 00:00:00")
        cubes.append(cube)
        fs.append(dict(frt=frt, ts=ts, tb=tb))
    keep = [c.copy() for c in cubes]
    cycle = None
    if rng.randint(2):
        cycle = 15 * int(rng.randint(-60, 10))
    if cycle is None and n == 1:
        r = ctx.call(rebadge_forecasts_as_latest_cycle, cubes)
        s.event("rebadged_alone", same=not isinstance(r, Failed) and len(r) == 1 and
                same(r[0], keep[0]))
        return
    if cycle is not None and rng.randint(2):
        r = ctx.call(unify_cycletime, cubes, dt(cycle))
    else:
        r = ctx.call(rebadge_forecasts_as_latest_cycle, C.CubeList(cubes),
                     cyc(cycle) if cycle is not None else None)
    if isinstance(r, Failed):
        s.event("rebadged", out="error", err=r.text, fs=fs)
        return
    outs = [dict(frt=mins(c.coord(FRT).points, C.T0)[0], ts=mins(c.coord("time").points, C.T0),
                 tb=pairs(c.coord("time"), C.T0), fp=mins(c.coord(FP).points),
                 fb=pairs(c.coord(FP), 0)) for c in r]
    s.event("rebadged", out="ok", fs=fs, cycle=-1 if cycle is None else cycle, outs=outs,
            std=all(std(c) for c in r) and all(
                c.coord_dims(FP) == c.coord_dims("time") and not c.coord_dims(FRT) and
                not c.coord(FRT).has_bounds() for c in r),
            data=all(np.array_equal(a.data, b.data) and C.describe(a)["dims"] ==
                     C.describe(b)["dims"] and a.attributes == b.attributes
                     for a, b in zip(r, keep)),
            same=all(same(a, b) for a, b in zip(cubes, keep)))


def lagged(ctx, s, rng, fs):
    t, per = 200 + 15 * int(rng.randint(10)), 60 * int(rng.randint(1, 4))
    bounded = bool(rng.randint(2))
    sec = lambda m: C.T0 + m * 60
    kind = rng.randint(3)
    ny, nx = int(rng.randint(1, 3)), int(rng.randint(2, 4))
    cubes, ids = [], []
    for i, f in enumerate(fs):
        rs = f["reals"]
        shp = (len(rs),) + ((3,) if kind == 1 else ()) + (ny, nx)
        data = np.zeros(shp)
        for j in range(len(rs)):
            data[j] = 10 * (i + 1) + j + 1
        lead = [C.realization(rs)] + ([C.percentiles([10, 50, 90])] if kind == 1 else [])
        cube = C.grid(data, lead=lead, t=sec(t), frt=sec(f["frt"]),
                      tb=[sec(t - per), sec(t)] if bounded else None)
        if len(rs) == 1 and rng.randint(2):
            cube = cube[0]
        cubes.append(cube)
    keep = [c.copy() for c in cubes]
    r = ctx.call(GenerateTimeLaggedEnsemble(), C.CubeList(cubes) if rng.randint(2) else cubes)
    ms = [f["reals"] for f in fs]
    if isinstance(r, Failed):
        s.event("lagged", out="error", err=r.text, ms=ms)
        return
    rd = r.coord_dims("realization")
    d = np.moveaxis(r.data, rd[0], 0) if rd else r.data[np.newaxis]
    who = []
    for row in d:
        v = int(row.flat[0])
        who.append([v // 10, v % 10] if (row == v).all() else [0, 0])
    ref = [c for c in keep if c.ndim == max(k.ndim for k in keep)][0]
    tc = r.coord("time")
    s.event("lagged", out="ok", ms=ms, frts=[f["frt"] for f in fs], t=t,
            tb=[t - per, t] if bounded else [], reals=[int(x) for x in r.coord("realization").points],
            who=who, frt=mins(r.coord(FRT).points, C.T0)[0], fp=mins(r.coord(FP).points)[0],
            fb=pairs(r.coord(FP), 0)[0] if r.coord(FP).has_bounds() else [],
            meta=bool(std(r) and mins(tc.points, C.T0) == [t] and
                      (pairs(tc, C.T0) == [[t - per, t]] if bounded else not tc.has_bounds()) and
                      str(r.coord("realization").dtype) == "int32" and
                      r.attributes == ref.attributes and r.name() == ref.name() and
                      r.units == ref.units and sorted(C.describe(r)["dims"]) == sorted(
                          set(C.describe(ref)["dims"]) | {"realization"})),
            same=all(same(a, b) for a, b in zip(cubes, keep)))


def nearest(ctx, s, rng):
    name = ["time", FRT][rng.randint(2)]
    n = int(rng.randint(1, 6))
    ts = np.sort(rng.choice(np.arange(0, 600, 5), n, replace=False)).tolist()
    pts = np.array([C.T0 + 60 * t for t in ts], dtype=np.int64)
    data = np.arange(n)[:, np.newaxis, np.newaxis] * np.ones((n, 2, 2))
    cube = C.grid(data, t=None, frt=None, lead=[C.DimCoord(pts, name, units=C.TUNITS)])
    if n == 1 and rng.randint(2):
        cube = cube[0]
    for _ in range(4):
        t = int(rng.randint(-20, 620))
        allowed = int(rng.choice([0, 60, 300, 1800, 3600]))
        if rng.randint(3) == 0:
            t = ts[rng.randint(n)]
        if rng.randint(4) == 0:        # on the edge of what is allowed
            allowed = 60 * min(abs(x - t) for x in ts)
        r = ctx.call(extract_nearest_time_point, cube, dt(t), name, allowed)
        if isinstance(r, Failed):
            s.event("nearest", out="error", ts=ts, t=t, allowed=allowed, err=r.text)
            continue
        got = mins(r.coord(name).points, C.T0)
        s.event("nearest", out="ok", ts=ts, t=t, allowed=allowed,
                got=got[0] if len(got) == 1 else -1,
                data=bool(got[0] in ts and (r.data == ts.index(got[0])).all()))


def at_time(ctx, s, rng):
    """One cube out of several by the hour it is valid in."""
    n = int(rng.randint(1, 6))
    ts = [int(q) for q in rng.choice([0, 15, 30, 60, 75, 119, 120, 180, 240, 1440, 1500, 44640, 44700], n, replace=False)]
    cubes = C.CubeList([C.grid(np.full((2, 2), float(k)), t=C.T0 + 60 * q, frt=C.T0 - 3600) for k, q in enumerate(ts)])
    t = ts[rng.randint(n)] + int(rng.choice([0, 0, 7, -7])) if rng.rand() < 0.7 else int(rng.choice([0, 60, 120, 300, 1440]))
    till = t + int(rng.choice([0, 30, 60, 61, 120, 1440])) if rng.rand() < 0.5 else None
    want = datetime_constraint(dt(t)) if till is None else datetime_constraint(dt(t), time_max=dt(till))
    r = ctx.call(extract_cube_at_time, cubes, dt(t), want)
    s.event("at_time", ts=ts, t=t, till=-1 if till is None else till, out=out(r), got=-1 if isinstance(r, Failed) or r is None else int(r.data[0, 0]) + 1)


def relabel(ctx, s, rng):
    sec = lambda m: C.T0 + m * 60
    t, frt, per = 60 * int(rng.randint(0, 30)), -60 * int(rng.randint(1, 9)), int(rng.randint(1, 25))
    cube = C.grid(rng.rand(2, 2), t=sec(t), frt=sec(frt),
                  tb=[sec(t - 60), sec(t)] if rng.randint(2) else None)
    keep = cube.copy()
    r = ctx.call(relabel_to_period, cube, per)
    if isinstance(r, Failed):
        s.event("relabelled", out="error", err=r.text)
        return
    one = lambda c, off: pairs(c, off)[0] if c.has_bounds() and len(c.bounds) == 1 else [0, 0]
    s.event("relabelled", out="ok", period=per, t0=t, fp0=t - frt,
            t=mins(r.coord("time").points, C.T0)[0], fp=mins(r.coord(FP).points)[0],
            tb=one(r.coord("time"), C.T0), fb=one(r.coord(FP), 0), std=std(r),
            data=bool(np.array_equal(r.data, keep.data)))


def integrate(ctx, s, rng):
    n = int(rng.randint(1, 4))
    lead = [C.realization(2)] if rng.randint(2) else []
    ts = np.sort(rng.choice(np.arange(0, 600, 30), n, replace=False)).tolist()
    tb = [[t - int(rng.choice([10, 15, 25] if n > 1 else [10, 60, 180, 1440])), t] for t in ts]
    shp = ((n,) if n > 1 else ()) + tuple(len(c.points) for c in lead) + (2, 2)
    v = rng.randint(0, 50, shp)
    sec = lambda m: C.T0 + m * 60
    units, to, name = [("s-1", "1", "number_of_lightning_flashes"), ("m s-1", "m", None)][
        rng.randint(2)]
    cube = C.grid(v / 60.0, name="rate", units=units, lead=lead, tdim=0,
                  t=[sec(t) for t in ts] if n > 1 else sec(ts[0]), frt=C.T0 - 36000,
                  tb=[[sec(x) for x in b] for b in tb] if n > 1 else [sec(x) for x in tb[0]])
    old = [CellMethod("mean", coords="time")] if rng.randint(2) else []
    other = [CellMethod("mean", coords="realization")] if rng.randint(2) else []
    for m in old + other:
        cube.add_cell_method(m)
    keep = cube.copy()
    r = ctx.call(integrate_time, cube, name)
    if isinstance(r, Failed):
        s.event("integrated", out="error", err=r.text)
        return
    sl = lambda c: [c] if n == 1 else list(c.slices_over("time"))
    s.event("integrated", out="ok", v=v.reshape((n, -1)), tb=tb,
            got=[fx(x.data) for x in sl(r)],
            named=bool(str(r.units) == to and r.name() == (name or "rate") and
                       str(r.dtype) == "float32"),
            cells=sorted(map(str, r.cell_methods)) == sorted(map(str, [
                CellMethod("sum", coords="time")] + other)),
            times=bool(r.coord("time") == keep.coord("time") and r.coord(FP) == keep.coord(FP) and
                       std(r)), same=same(cube, keep))


def drive(ctx):
    rng = ctx.rng
    cal = [c for c in ctx.cases if "date" in c]
    lag = [c for c in ctx.cases if "fs" in c]
    ends = [c for c in cal if c["date"][1:] in ([2, 28], [2, 29], [3, 1], [12, 31], [1, 1])]
    for c in ctx.pick(cal, 1500 if ctx.thorough else 60) + ctx.pick(ends, 400 if ctx.thorough else 60):
        with ctx.session("calendar") as s:
            calendar(ctx, s, rng, c["date"])
    for c in ctx.pick(lag, 900 if ctx.thorough else 130):
        with ctx.session("lagged") as s:
            lagged(ctx, s, rng, c["fs"])
    n = 200 if ctx.thorough else 30
    for f, k in ((lead, 2 * n), (rebadge, 2 * n), (nearest, n), (at_time, n), (relabel, n // 3), (integrate, n)):
        for _ in range(k):
            with ctx.session(f.__name__) as s:
                f(ctx, s, rng)
    g = C.grid(np.ones((2, 2)))
    timeless = C.grid(np.ones((2, 2)), t=None)
    many = C.grid(np.ones((2, 2, 2)), t=C.T0, frt=None, lead=[C.DimCoord(
        np.array([C.T0 - 7200, C.T0 - 3600], dtype=np.int64), FRT, units=C.TUNITS)])
    odd = g.copy()
    add_blend_time(odd, "20170101T0000Z")
    f64 = C.grid(np.ones((2, 2)), dtype=np.float64)
    f64.remove_coord(FP)
    bad = {
        "no_times": lambda: forecast_period_coord(timeless),
        "references_disagree": lambda: forecast_period_coord(odd, True),
        "nonstandard_types": lambda: forecast_period_coord(f64),
        "cycles_as_dimension": lambda: rebadge_forecasts_as_latest_cycle([many, many]),
        "cycles_as_dimension_given": lambda: unify_cycletime([many], dt(0)),
        "no_period": lambda: relabel_to_period(g.copy()),
        "part_of_an_hour": lambda: relabel_to_period(g.copy(), 0),
        "negative_period": lambda: relabel_to_period(g.copy(), -3),
        "unbounded_rate": lambda: integrate_time(g),
        "other_coordinate": lambda: extract_nearest_time_point(g, dt(0), "forecast_period"),
        "bad_cycletime": lambda: cycletime_to_datetime("20171301T0000Z"),
        "no_realizations": lambda: GenerateTimeLaggedEnsemble()([g, g]),
    }
    for why, f in bad.items():
        with ctx.session("reject") as s:
            r = ctx.call(f)
            s.event("rejected", why=why, out="error" if isinstance(r, Failed) else "ok")
