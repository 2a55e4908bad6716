"""Velocities of rain from two or more looks at it."""
import sys
import types
import warnings

import numpy as np
from iris.cube import CubeList
from vkit import cubes as C
from vkit.main import Failed

from improver.cli import nowcast_optical_flow as cli
from improver.cli import nowcast_optical_flow_from_winds as wcli
from improver.nowcasting.optical_flow import OpticalFlow, generate_advection_velocities_from_winds, generate_optical_flow_components

MASKED, NAN = 2000000002, 2000000001


def extrapolate(precip, velocity, timesteps, allow_nonfinite_values=False, interp_order=1, **kw):
    """Stands in for pysteps: every step's value is that of the nearest cell upstream."""
    ny, nx = precip.shape
    out = np.full((timesteps, ny, nx), np.nan)
    y, x = np.mgrid[0:ny, 0:nx]
    for n in range(timesteps):
        sx, sy = np.rint(x - velocity[0] * (n + 1)).astype(int), np.rint(y - velocity[1] * (n + 1)).astype(int)
        ok = (sx >= 0) & (sx < nx) & (sy >= 0) & (sy < ny)
        out[n][ok] = precip[sy[ok], sx[ok]]
    return out


for nm in ("pysteps", "pysteps.extrapolation", "pysteps.extrapolation.semilagrangian"):
    sys.modules[nm] = types.ModuleType(nm)
sys.modules["pysteps.extrapolation.semilagrangian"].extrapolate = extrapolate


def unwrap(fn):
    fn = getattr(fn, "__wrapped__", fn)
    return getattr(fn, "__wrapped__", fn)


def out(r):
    return "error" if isinstance(r, Failed) else "ok"


def whole(a, scale):
    m = np.ma.getmaskarray(a)
    v = np.asarray(np.ma.getdata(a), dtype=float)
    return [MASKED if mm else NAN if np.isnan(x) else int(np.clip(np.rint(x * scale), -1.9e9, 1.9e9)) for x, mm in zip(v.flat, m.flat)]


def snap(cubes):
    return [c.copy() for c in cubes if c is not None]


def same(before, after):
    after = [c for c in after if c is not None]
    return all(a.metadata == b.metadata and a.coords() == b.coords() and a.shape == b.shape
               and np.array_equal(np.ma.getmaskarray(a.data), np.ma.getmaskarray(b.data))
               and np.array_equal(np.ma.filled(a.data, 0), np.ma.filled(b.data, 0), equal_nan=True) for a, b in zip(before, after))



def storm(ctx, ny, nx):
    """Rain (mm/h) as a function of how far it moved."""
    rng = ctx.rng
    bl = [(rng.uniform(0.25, 0.75) * ny, rng.uniform(0.25, 0.75) * nx, rng.uniform(4, 7), rng.uniform(2, 8)) for _ in range(int(rng.randint(2, 5)))]
    y, x = np.mgrid[0:ny, 0:nx]
    return lambda mx, my: sum(a * np.exp(-((y - cy - my) ** 2 + (x - cx - mx) ** 2) / (2 * q * q)) for cy, cx, q, a in bl)


def setting(ctx, square=False, boxes=10):
    rng = ctx.rng
    size, km10, box, sec = [(2000, 60, 6, 900), (2000, 80, 6, 300), (1000, 50, 6, 900), (2000, 40, 6, 1800), (1000, 40, 5, 600), (500, 20, 6, 900)][rng.randint(6)]
    ny, nx = [box * boxes + int(rng.choice([0, 0, 6, 3])) for _ in range(2)]
    return size, km10, box, sec, ny, (ny if square else nx)


def rain(ctx, data, size, t, units="mm h-1", name="rainfall_rate", **kw):
    f = {"mm h-1": 1.0, "m s-1": 1 / 3.6e6}[units]
    return C.grid(np.asanyarray(data) * f, name, units, t=t, frt=kw.pop("frt", t), space="xy", dx=float(size), dy=float(size), **kw)


def move(ctx, most):
    rng = ctx.rng
    while True:
        if rng.rand() < 0.6:
            c = ctx.cases[rng.randint(len(ctx.cases))]
            m = (int(c["u"]), int(c["v"]))
        else:
            m = (int(rng.randint(-3, 4)), int(rng.randint(-3, 4)))
        if abs(m[0]) + abs(m[1]) <= most:
            return m


def flows(r, later):
    """Whether the two velocities are described as they should be."""
    return len(r) == 2 and all(c.name() == "precipitation_advection_%s_velocity" % ax and c.units == "m s-1" and c.dtype == np.float32 and c.ndim == 2 and
                               c.coord(axis="y") == later.coord(axis="y") and c.coord(axis="x") == later.coord(axis="x") and c.coord_dims(c.coord(axis="y")) == (0,) and
                               np.array_equal(c.coord("time").points, later.coord("time").points) for c, ax in zip(r, "xy"))


def tracks(ctx, s):
    rng = ctx.rng
    size, km10, box, sec, ny, nx = setting(ctx)
    m = move(ctx, 3)
    f = storm(ctx, ny, nx)
    style = rng.randint(6)
    units = ["mm h-1", "m s-1"][rng.randint(2)]
    a, b = rain(ctx, f(0, 0), size, C.T0, units), rain(ctx, f(*m), size, C.T0 + sec, units)
    if style == 0:
        a, b = [c if rng.rand() < 0.5 else C.grid(c.data[None], "rainfall_rate", units, lead=[C.realization(1)], t=int(c.coord("time").points[0]), space="xy", dx=float(size), dy=float(size)) for c in (a, b)]
    elif style == 1:
        for c in (a, b):
            if rng.rand() < 0.6:
                c.transpose([1, 0])
    elif style == 2:          # a forecast for the time of the observation
        a = rain(ctx, f(0, 0), size, C.T0 + sec, units, frt=C.T0)
        if rng.rand() < 0.6:
            a.coord("forecast_period").convert_units("minutes")
    elif style == 3:
        for c in (a, b):
            for ax in "xy":
                c.coord(axis=ax).convert_units("km")
    before = snap([a, b])
    it = int(rng.choice([20, 20, 30, 60]))
    r = ctx.call(lambda: OpticalFlow(data_smoothing_radius_km=km10 / 10, iterations=it, data_smoothing_method=["box", "kernel"][int(rng.rand() < 0.2)])(a, b, boxsize=box))
    rec = dict(move=m, size=size, sec=sec, slack=30)
    if isinstance(r, Failed):
        s.event("tracks", out="error", err=r.text[:200], **rec)
        return
    w = np.where(f(*m) > 2)
    s.event("tracks", u=whole(r[0].data[w], 1000)[::7], v=whole(r[1].data[w], 1000)[::7], meta=bool(flows(r, before[1])), kept=bool(same(before, [a, b])), **rec)


def components(ctx, s):
    """Several looks, in any order."""
    rng = ctx.rng
    size, km10, box, sec, ny, nx = 2000, 140, 10, 900, 100, 90
    f = storm(ctx, ny, nx)
    ms = [(0, 0)]
    for _ in range(int(rng.choice([1, 2, 2, 3]))):
        d = move(ctx, 2)
        ms.append((ms[-1][0] + d[0], ms[-1][1] + d[1]))
    cubes = [rain(ctx, f(*q), size, C.T0 + k * sec) for k, q in enumerate(ms)]
    mixed = [cubes[k].copy() for k in rng.permutation(len(cubes))]
    parts = [ctx.call(lambda: OpticalFlow(iterations=20)(a, b, boxsize=box)) for a, b in zip(cubes[:-1], cubes[1:])]
    r = ctx.call(lambda: generate_optical_flow_components(CubeList(mixed), box, 20))
    if isinstance(r, Failed) or any(isinstance(p, Failed) for p in parts):
        s.event("average", out="error", err=str(getattr(r, "text", ""))[:200])
        return
    ok = flows(r, cubes[-1])
    for k in (0, 1):
        s.event("average", got=whole(r[k].data, 1000)[::37], parts=[whole(p[k].data, 1000)[::37] for p in parts], meta=bool(ok))


def still(ctx, s):
    rng = ctx.rng
    size, km10, box, sec, ny, nx = setting(ctx, boxes=6)
    f = storm(ctx, ny, nx)
    dry = np.zeros((ny, nx))
    kind = rng.randint(4)
    a, b = [(f(0, 0), f(0, 0)), (dry, f(0, 0)), (f(0, 0), dry), (dry, dry)][kind]
    a, b = rain(ctx, a, size, C.T0), rain(ctx, b, size, C.T0 + sec)
    before = snap([a, b])
    r = ctx.call(lambda: OpticalFlow(data_smoothing_radius_km=km10 / 10, iterations=20)(a, b, boxsize=box))
    if isinstance(r, Failed):
        s.event("still", out="error", err=r.text[:200])
        return
    s.event("still", u=whole(r[0].data, 1000)[::11], v=whole(r[1].data, 1000)[::11], meta=bool(flows(r, before[1])), kept=bool(same(before, [a, b])))


def pair(ctx, s):
    """The same rain seen another way."""
    rng = ctx.rng
    size, km10, box, sec, ny, nx = setting(ctx, square=True)
    m = move(ctx, 2)
    f = storm(ctx, ny, nx)
    one, two = f(0, 0), f(*m)
    what = ["reversal", "axes_swapped", "units", "missing_is_dry", "half_the_time"][rng.randint(5)]
    if what == "half_the_time" and sec > 900:
        return
    run = lambda a, b: ctx.call(lambda: OpticalFlow(data_smoothing_radius_km=km10 / 10, iterations=20)(a, b, boxsize=box))
    how = {"reversal": "reversed", "axes_swapped": "swapped"}.get(what, "same")
    t2 = C.T0 + sec
    first = (rain(ctx, one, size, C.T0), rain(ctx, two, size, t2))
    tr = lambda q: q
    if what == "reversal":
        second = (rain(ctx, two, size, C.T0), rain(ctx, one, size, t2))
    elif what == "axes_swapped":
        second = (rain(ctx, one.T, size, C.T0), rain(ctx, two.T, size, t2))
        tr = lambda q: q.T
    elif what == "units":
        second = (rain(ctx, one, size, C.T0, "m s-1"), rain(ctx, two, size, t2, "mm h-1"))
    elif what == "missing_is_dry":
        gone = np.zeros((ny, nx), dtype=bool)
        gone[:3] = True
        gone[:, -4:] = True
        one, two = np.where(gone, 0, one), np.where(gone, 0, two)
        first = (rain(ctx, one, size, C.T0), rain(ctx, two, size, t2))
        second = tuple(rain(ctx, np.ma.masked_array(np.where(gone, 9999, q), gone), size, t) for q, t in ((one, C.T0), (two, t2)))
    else:      # twice the speed in half of the time, both within a quarter of an hour
        first = (rain(ctx, one, size, C.T0), rain(ctx, two, size, C.T0 + 800))
        second = (rain(ctx, one, size, C.T0), rain(ctx, two, size, C.T0 + 400))
        sec = 800
    r, q = run(*first), run(*second)
    rec = dict(what=what, how=how, size=size, sec=sec)
    if isinstance(r, Failed) or isinstance(q, Failed):
        s.event("pair", out="error", err=str(getattr(r, "text", "")) + str(getattr(q, "text", ""))[:200], **rec)
        return
    k = 0.5 if what == "half_the_time" else 1
    w = np.where(f(0, 0) + f(*m) > 2)
    s.event("pair", u1=whole(r[0].data[w], 1000)[::9], v1=whole(r[1].data[w], 1000)[::9], u2=whole(tr(q[0].data)[w] * k, 1000)[::9], v2=whole(tr(q[1].data)[w] * k, 1000)[::9], **rec)


def enhancement(ctx, size, ny, nx, times):
    return CubeList([C.grid(np.zeros((ny, nx)), "orographic_enhancement", "mm h-1", t=t, frt=C.T0 - 3600, space="xy", dx=float(size), dy=float(size)) for t in times]).merge_cube()


def winds(ctx, s):
    """Steering winds put right by what the rain did."""
    rng = ctx.rng
    size, sec, ny, nx = 2000, 900, 108, 108
    f = storm(ctx, ny, nx)
    b = (int(rng.randint(-2, 3)), int(rng.randint(-2, 3)))
    d = move(ctx, 1)
    m = (b[0] + d[0], b[1] + d[1])
    cubes = CubeList([rain(ctx, f(0, 0), size, C.T0), rain(ctx, f(*m), size, C.T0 + sec)])
    units = ["m s-1", "km h-1"][rng.randint(2)]
    k = size / sec * (1 if units == "m s-1" else 3.6)
    flow = CubeList([C.grid(np.full((ny, nx), q * k), n, units, t=C.T0, frt=C.T0, space="xy", dx=float(size), dy=float(size)) for q, n in zip(b, ("grid_eastward_wind", "grid_northward_wind"))])
    oe = enhancement(ctx, size, ny, nx, [C.T0, C.T0 + sec])
    given = cubes if rng.rand() < 0.6 else CubeList([cubes[1], cubes[0]])
    r = ctx.call(lambda: generate_advection_velocities_from_winds(given, flow, oe))
    rec = dict(move=m, size=size, sec=sec, slack=25)
    if isinstance(r, Failed):
        s.event("tracks", out="error", err=r.text[:200], **rec)
        return
    w = np.where(f(*m) > 2)
    meta = len(r) == 2 and all(c.units == "m s-1" and c.dtype == np.float32 for c in r)
    s.event("tracks", u=whole(r[0].data[w], 1000)[::9], v=whole(r[1].data[w], 1000)[::9], meta=bool(meta), kept=True, **rec)


def command(ctx, s):
    rng = ctx.rng
    size, sec, ny, nx = 2000, 900, 180, 150
    f = storm(ctx, ny, nx)
    m = move(ctx, 1)
    cubes = [rain(ctx, f(k * m[0], k * m[1]), size, C.T0 + k * sec) for k in range(3)]
    oe = enhancement(ctx, size, ny, nx, [C.T0 + k * sec for k in range(3)])
    mixed = [cubes[k] for k in rng.permutation(3)]
    before = snap(mixed)
    r = ctx.call(lambda: unwrap(cli.process)(oe, *mixed))
    rec = dict(move=m, size=size, sec=sec, slack=30)
    if isinstance(r, Failed):
        s.event("tracks", out="error", err=r.text[:200], **rec)
        return
    w = np.where(f(2 * m[0], 2 * m[1]) > 2)
    s.event("tracks", u=whole(r[0].data[w], 1000)[::9], v=whole(r[1].data[w], 1000)[::9], meta=bool(flows(r, cubes[-1])), kept=bool(same(before, mixed)), **rec)


def stages(ctx, s):
    rng = ctx.rng
    what = ["solve", "extreme", "smooth", "middle"][rng.randint(4)]
    if what == "solve":
        c = ctx.cases[rng.randint(len(ctx.cases))]
        n = int(rng.randint(0, 3))
        x, y = c["x"] + [int(q) for q in rng.randint(-4, 5, n)], c["y"] + [int(q) for q in rng.randint(-4, 5, n)]
        t = [int(q) for q in rng.randint(-5, 6, len(x))] if rng.rand() < 0.6 else [-(c["u"] * a + c["v"] * b) for a, b in zip(x, y)]
        xx, yy, xy = sum(a * a for a in x), sum(b * b for b in y), sum(a * b for a, b in zip(x, y))
        if xx * yy == xy * xy and xx and yy:
            return
        r = ctx.call(lambda: OpticalFlow.solve_for_uv(np.array([x, y], dtype=np.float64).T, np.array(t, dtype=np.float64)))
        if isinstance(r, Failed):
            s.event("solve", out="error", err=r.text[:200], x=x, y=y, t=t)
        else:
            s.event("solve", got=whole(r, 1000), x=x, y=y, t=t)
    elif what == "extreme":
        ny, nx = int(rng.randint(2, 7)), int(rng.randint(1, 5))
        u, v, w = [rng.randint(a, b, (ny, nx)) for a, b in ((-2000, 2001), (-2000, 2001), (1, 1001))]
        if rng.rand() < 0.3:
            u[0, 0], v[0, 0] = ny * 250 - 1, 0
        gu, gv, gw = [(q / 1000) for q in (u, v, w)]
        near = np.abs(3 * (np.abs(u) + np.abs(v)) - 1000 * ny) < 4
        if near.any():
            return
        r = ctx.call(lambda: OpticalFlow.extreme_value_check(gu, gv, gw))
        s.event("extreme", u=u.ravel().tolist(), v=v.ravel().tolist(), w=w.ravel().tolist(), gu=whole(gu, 1000), gv=whole(gv, 1000), gw=whole(gw, 1000), rows=ny, **({"out": "error"} if isinstance(r, Failed) else {}))
    elif what == "smooth":
        ny, nx = int(rng.randint(2, 7)), int(rng.randint(2, 7))
        f = rng.randint(0, 5000, (ny, nx)) * (rng.rand(ny, nx) < 0.6)
        m = ["box", "kernel"][rng.randint(2)]
        rad = int(rng.randint(1, 4)) if m == "box" else int(rng.randint(1, min(ny, nx) + 1))
        r = ctx.call(lambda: OpticalFlow().smooth((f / 1000).astype(np.float32), rad, method=m))
        if isinstance(r, Failed):
            s.event("smooth", out="error", err=r.text[:200], f=f.tolist(), method=m, r=rad)
        else:
            s.event("smooth", got=[whole(q, 1000) for q in r], f=f.tolist(), method=m, r=rad)
    else:
        ny, nx = int(rng.randint(2, 5)), int(rng.randint(2, 5))
        f = rng.randint(-50, 50, (ny, nx))
        axis = [None, 0, 1][rng.randint(3)]
        r = ctx.call(lambda: OpticalFlow.interp_to_midpoint(f.astype(np.float32), axis=axis))
        if isinstance(r, Failed):
            s.event("middle", out="error", err=r.text[:200])
        else:
            s.event("middle", got=[whole(q, 4) for q in r], f=f.tolist(), axis=2 if axis is None else axis)


def rejected(ctx, s):
    rng = ctx.rng
    why = ["few_iterations", "other_quantity", "other_grid", "lat_lon", "members", "no_time", "backwards", "no_time_between", "not_an_observation", "small_radius", "small_box", "unequal_spacing", "other_units"][rng.randint(13)]
    n = 24
    f = storm(ctx, n, n)
    mk = lambda t=C.T0, **kw: rain(ctx, f(0, 0), 2000, t, **kw)
    a, b, box, km, it = mk(), mk(C.T0 + 900), 8, 8.0, 20
    if why == "few_iterations":
        it = int(rng.choice([19, 1, 0]))
    elif why == "other_quantity":
        b.rename("lwe_precipitation_rate")
    elif why == "other_grid":
        c = b.coord(axis=["x", "y"][rng.randint(2)])
        c.points = c.points + 2000
    elif why == "lat_lon":
        a, b = [C.grid(f(0, 0), "rainfall_rate", "mm h-1", t=t, space="ll", dx=0.02, dy=0.02) for t in (C.T0, C.T0 + 900)]
    elif why == "members":
        q = C.grid(np.array([f(0, 0)] * 2), "rainfall_rate", "mm h-1", lead=[C.realization(2)], t=C.T0 if rng.rand() < 0.5 else C.T0 + 900, space="xy")
        a, b = (q, b) if q.coord("time").points[0] == C.T0 else (a, q)
    elif why == "no_time":
        (a if rng.rand() < 0.5 else b).remove_coord("time")
    elif why == "backwards":
        a, b = b, a
    elif why == "no_time_between":
        b = mk()
    elif why == "not_an_observation":
        a, b = mk(C.T0 + 900, frt=C.T0), mk(C.T0 + 900, frt=C.T0)
    elif why == "small_radius":
        km = 5.9
    elif why == "small_box":
        box = 3
    elif why == "unequal_spacing":
        ax = "xy"[rng.randint(2)]
        for q in (a, b):
            c = q.coord(axis=ax)
            c.bounds = None
            c.points = c.points * np.float32(1.2)
    else:
        a.units = b.units = "K"
    s.event("rejected", why=why, out=out(ctx.call(lambda: OpticalFlow(data_smoothing_radius_km=km, iterations=it)(a, b, boxsize=box))))


def narrow(ctx, s):
    """Boxes just as wide as the smoothing radius."""
    f = storm(ctx, 24, 24)
    a, b = rain(ctx, f(0, 0), 2000, C.T0), rain(ctx, f(1, 0), 2000, C.T0 + 900)
    s.event("accepted", why="box_of_the_radius", out=out(ctx.call(lambda: OpticalFlow(data_smoothing_radius_km=8.0, iterations=20)(a, b, boxsize=4))))


def drive(ctx):
    k = 5 if ctx.thorough else 1
    warnings.simplefilter("ignore")
    for name, fn, n in (("tracks", tracks, 22), ("components", components, 3), ("still", still, 8), ("pair", pair, 12), ("winds", winds, 3), ("command", command, 1), ("narrow", narrow, 1), ("stages", stages, 240), ("rejected", rejected, 60)):
        with ctx.session(name) as s:
            for _ in range(n * k):
                fn(ctx, s)
