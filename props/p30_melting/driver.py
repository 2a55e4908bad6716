"""Melting levels and hail, recorded column by column."""
import numpy as np
from vkit import cubes as C
from vkit.main import Failed

from improver.cli import hail_size as hail_cli, phase_change_level as phase_cli
from improver.psychrometric_calculations.hail_size import HailSize
from improver.psychrometric_calculations.psychrometric_calculations import PhaseChangeLevel
from improver.psychrometric_calculations.wet_bulb_temperature import WetBulbTemperatureIntegral

MASKED, NAN = 2000000002, 2000000001
TH = {"snow-sleet": (900, "snow_falling"), "sleet-rain": (2025, "rain_falling"), "hail-rain": (50000, "rain_from_hail_falling")}
HEIGHTS = [2000, 1200, 600, 300, 100, 0]
LONG = [2500, 1500, 1000, 600, 300, 100, 0]
MID = "mosg__model_configuration"


def unwrap(fn):
    fn = getattr(fn, "__wrapped__", fn)
    return getattr(fn, "__wrapped__", fn)


def out(r):
    return "error" if isinstance(r, Failed) else "ok"


def whole(a, scale):
    m = np.ma.getmaskarray(a)
    v = np.asarray(np.ma.getdata(a), dtype=float)
    return [MASKED if mm else NAN if np.isnan(x) else int(np.clip(np.rint(x * scale), -1.9e9, 1.9e9)) for x, mm in zip(v.flat, m.flat)]


def hcoord(h):
    return C.DimCoord(np.array(h, dtype=np.float32), "height", units="m", attributes={"positive": "up"})


def dims(c, drop=()):
    return [(d.name(), tuple(np.asarray(d.points))) for d in c.coords(dim_coords=True) if d.name() not in drop]


def field(ctx, s, rng, cases, full=True):
    ny, nx = int(rng.randint(1, 6)), int(rng.randint(1, 6))
    nr = int(rng.choice([0, 0, 1, 2, 3]))
    n = ny * nx
    given = LONG if len(cases[0]["ws"]) == len(LONG) else HEIGHTS
    hs = given if rng.rand() < 0.4 else [int(h) for h in np.sort(rng.choice(np.arange(0, 250), int(rng.randint(2, 9)), replace=False))[::-1] * 10]
    nz = len(hs)
    # temperatures [r][cell][level from the top], neighbours alike
    r1 = max(nr, 1)
    ws = np.zeros((r1, n, nz), dtype=int)
    orog = rng.choice([0, 0, 200, 1500, 6000, 9000], n) + rng.randint(0, 100, n)
    land = rng.rand(n) < rng.choice([0.1, 0.5, 0.9])
    one = rng.rand() < 0.3
    peaks = n > 3 and rng.rand() < 0.4        # flat land but for a peak or two that some levels do not clear
    if peaks:
        orog = rng.randint(0, 100, n)
        top = rng.choice(n, int(rng.choice([1, 1, 2])), replace=False)
        orog[top] = 9000
        land[:] = True
        cold = rng.rand(n) < 0.25
        cold[top[0]] = rng.rand() < 0.8
    for r in range(r1):
        for i in range(n):
            if peaks:
                lapse = rng.uniform(0.4, 0.9)
                sfc = -100 if cold[i] else lapse * rng.uniform(500, 1000)
                ws[r, i] = [int(sfc - lapse * h) for h in hs]
                continue
            c = cases[rng.randint(len(cases))] if not (one and i) else c
            land[i] = c["land"] if rng.rand() < 0.3 and r == 0 else land[i]
            if hs is given and rng.rand() < 0.5:
                ws[r, i] = c["ws"]
            else:
                sfc, lapse = rng.uniform(-400, 1500) if rng.rand() < 0.7 else rng.uniform(-100, 200), rng.uniform(0.2, 0.9)
                ws[r, i] = [int(sfc - lapse * h + rng.randint(-20, 20)) for h in hs]
    # the integrals: from the plugin, or built here on all levels
    kw = dict(frt=C.T0 - 3600, dy=2000.0)
    attrs = {**C.ATTRS, MID: "uk_ens"} if rng.rand() < 0.5 else None
    lead = [C.realization(nr)] if nr else []
    kelvin = rng.rand() < 0.5
    data = ws.transpose([0, 2, 1]).reshape((r1, nz, ny, nx)) / 100 + (273.15 if kelvin else 0)

    def cube(d, heights, name, units):
        c = C.grid(d if nr else d[0], name, units, lead=lead + [hcoord(heights)], attrs=attrs, **kw)
        return c
    up = rng.rand() < 0.85
    flip = lambda d: d[:, ::-1]
    wbt = cube(flip(data) if up else data, hs[::-1] if up else hs, "wet_bulb_temperature", "K" if kelvin else "celsius")
    mode = rng.randint(3)
    if mode == 0 and nz > 1:
        src = cube(flip(data), hs[::-1], "wet_bulb_temperature", "K" if kelvin else "celsius")
        integral = WetBulbTemperatureIntegral(model_id_attr=MID if attrs else None)(src)
        hh = [int(round(h)) for h in integral.coord("height").points]
        c = integral.copy()
        names = [x.name() for x in c.coords(dim_coords=True)]
        if "height" not in names:
            return
        if nr and names.index("realization") != 0:
            c.transpose([names.index(k) for k in ("realization", "height", "projection_y_coordinate", "projection_x_coordinate")])
        iv = np.asarray(c.data, dtype=float).reshape((r1, len(hh), n))
        order = np.argsort(hh)[::-1]
        hh, iv = [hh[k] for k in order], iv[:, order]
        highest = hs[0]
    else:
        iv = np.zeros((r1, nz, n))
        for r in range(r1):
            for i in range(n):
                acc = 0
                for k in range(1, nz):
                    acc += (max(0, ws[r, i, k - 1]) + max(0, ws[r, i, k])) * (hs[k - 1] - hs[k]) / 20
                    iv[r, k, i] = round(acc)
        iv = iv / 10
        hh = list(hs)
        desc = rng.rand() < 0.6
        d = iv.reshape((r1, nz, ny, nx))
        integral = cube(d if desc else flip(d), hh if desc else hh[::-1], "wet_bulb_temperature_integral", "K m")
        highest = hs[0]
        if mode == 2:
            highest = hs[0] + 500
            b = np.array([[h, highest if k == 0 else hh[k - 1]] for k, h in enumerate(hh)], dtype=np.float32)
            integral.coord("height").bounds = b if desc else b[::-1]
    if nr and rng.rand() < 0.4:
        wbt.transpose([1, 0, 2, 3])
    if nr and rng.rand() < 0.3:
        names = [x.name() for x in integral.coords(dim_coords=True)]
        integral.transpose([names.index(k) for k in ("height", "realization", "projection_y_coordinate", "projection_x_coordinate")])
    if rng.rand() < 0.15:
        k = wbt.ndim
        wbt.transpose(list(range(k - 2)) + [k - 1, k - 2])
    if rng.rand() < 0.15:
        k = integral.ndim
        integral.transpose(list(range(k - 2)) + [k - 1, k - 2])
    oc = C.grid(orog.reshape(ny, nx) / 10, "surface_altitude", "m", dy=2000.0)
    lc = C.grid(land.reshape(ny, nx).astype(float), "land_binary_mask", "1", dy=2000.0)
    if rng.rand() < 0.15:
        oc.transpose([1, 0])
    if rng.rand() < 0.15:
        lc.transpose([1, 0])
    phase = list(TH)[rng.choice(3, p=[0.45, 0.45, 0.1])]
    radius, fill = int(rng.randint(0, 4)), bool(rng.rand() < 0.6)
    mid = MID if attrs and rng.rand() < 0.6 else None
    cubes = [wbt, integral, oc, lc]
    rng.shuffle(cubes)
    like = dims(wbt, ["height"])
    if rng.rand() < 0.6:
        got = ctx.call(lambda: unwrap(phase_cli.process)(*cubes, phase_change=phase, grid_point_radius=radius, horizontal_interpolation=fill, model_id_attr=mid))
    else:
        got = ctx.call(lambda: PhaseChangeLevel(phase, grid_point_radius=radius, horizontal_interpolation=fill, model_id_attr=mid)(*cubes))
    ok = not isinstance(got, Failed)
    meta = ok and bool(got.name() == "altitude_of_%s_level" % TH[phase][1] and got.units == "m" and got.dtype == np.float32 and sorted(dims(got)) == sorted(like)
                       and not got.coords("height") and got.coord("time") == wbt.coord("time") and (mid is None or got.attributes.get(mid) == "uk_ens"))
    vals = [[] for _ in range(r1)]
    if ok:
        g = got.copy()
        names = [c.name() for c in g.coords(dim_coords=True)]
        want = (["realization"] if nr else []) + ["projection_y_coordinate", "projection_x_coordinate"]
        if sorted(names) == sorted(want):
            g.transpose([names.index(k) for k in want])
            vals = [whole(a, 10) for a in g.data.reshape((r1, ny, nx))]
    for r in range(r1):
        cols = []
        for i in range(n):
            m = min(5, nz)
            cols.append(dict(hs=hh, **{"is": [int(np.rint(x * 10)) for x in iv[r, :, i]]}, orog=int(orog[i]), land=bool(land[i]), highest=int(highest),
                             fh=[int(h) // 10 for h in hs[::-1][:m]], fw=[int(w) for w in ws[r, i][::-1][:m]]))
        s.event("field", cols=cols, th=TH[phase][0], nx=nx, radius=radius, fill=fill, out=out(got), got=vals[r], meta=bool(meta))


# --- hail ------------------------------------------------------------------------------

def lookup(ctx, s, rng):
    plugin = HailSize()
    n = int(rng.randint(1, 30))
    v = rng.randint(-100, 1600, n) if rng.rand() < 0.6 else rng.choice([0, 25, 75, 125, 1250, 1275, 1300], n)
    h = rng.randint(-300, 7000, n) if rng.rand() < 0.6 else rng.choice([0, 250, 750, 1250, 5000, 4750, 5250], n)
    wb = rng.randint(2500, 4800, n) if rng.rand() < 0.5 else rng.choice([3299, 3300, 3320, 3349, 3350, 3549, 3550, 3750, 4149, 4150, 4399, 4400, 4401, 0, -200], n)
    bad = rng.rand(n) < 0.15
    vm = np.ma.masked_array(v / 100, mask=bad)
    hm = np.ma.masked_array(h / 100, mask=bad)
    got = ctx.call(lambda: plugin.get_hail_size(vm, hm, wb.astype(np.float32)))
    v2 = [int(x) if not b else -500 for x, b in zip(v, bad)]
    s.event("lookup", v=v2, h=[int(x) for x in h], wb=[int(x) for x in wb], out=out(got), got=whole(got, 1) if not isinstance(got, Failed) else [], meta=True)


def whole_table(ctx, s, wb):
    """Every entry of the nomogram under one height of the freezing level."""
    plugin = HailSize()
    v, h = [x.ravel() for x in np.meshgrid(np.arange(26) * 50, np.arange(10) * 500, indexing="ij")]
    got = ctx.call(lambda: plugin.get_hail_size(np.ma.masked_array(v / 100), np.ma.masked_array(h / 100), np.full(len(v), wb, dtype=np.float32)))
    s.event("lookup", v=[int(x) for x in v], h=[int(x) for x in h], wb=[int(wb)] * len(v), out=out(got), got=whole(got, 1) if not isinstance(got, Failed) else [], meta=True)


def hail(ctx, s, rng):
    ny, nx = int(rng.randint(1, 5)), int(rng.randint(1, 5))
    nr = int(rng.choice([0, 0, 1, 2, 3]))
    shape = ((nr,) if nr else ()) + (ny, nx)
    n = int(np.prod(shape))
    nz = int(rng.randint(2, 8))
    pls = np.sort(rng.choice(np.arange(300, 1001, 10), nz, replace=False))[::-1] * 100
    tb = rng.randint(26900, 30200, n)
    tb = np.where(rng.rand(n) < 0.1, rng.randint(26300, 26800, n), tb)
    pb = rng.randint(650, 1000, n) * 100
    # surroundings cooling upwards, crossing -5 C somewhere
    env = np.zeros((n, nz), dtype=int)
    for i in range(n):
        steps = rng.randint(50, 1500, nz)
        cum = np.cumsum(steps)
        k = rng.randint(0, nz - 1)
        pivot = 26815 + int(rng.randint(10, max(11, steps[k + 1] - 10)))
        env[i] = pivot - (cum - cum[k])
    wbz = rng.randint(1500, 4700, n) if rng.rand() < 0.5 else rng.choice([3000, 3310, 3349, 3350, 3560, 4000, 4150, 4400, 4500], n)
    orog = rng.choice([0, 50, 700], (ny, nx))
    asl = wbz.reshape(shape) + orog
    kw = dict(frt=C.T0 - 3600, dy=2000.0, attrs={**C.ATTRS, MID: "uk_ens"} if rng.rand() < 0.5 else None)
    lead = [C.realization(nr)] if nr else []
    tc = rng.rand() < 0.3
    v = np.moveaxis(env.reshape(shape + (nz,)), -1, len(shape) - 2) / 100 - (273.15 if tc else 0)
    asc = rng.rand() < 0.2
    zdim = len(shape) - 2
    if asc:
        v = np.flip(v, zdim)
    pc = C.DimCoord((pls[::-1] if asc else pls).astype(np.float32), long_name="pressure", units="Pa", attributes={"positive": "down"})
    t = C.grid(v, "air_temperature", "celsius" if tc else "K", lead=lead + [pc], **kw)
    if nr and rng.rand() < 0.5:
        t.transpose([1, 0, 2, 3])
    cb = C.grid(tb.reshape(shape) / 100 - (273.15 if tc else 0), "air_temperature_at_condensation_level", "celsius" if tc else "K", lead=lead, **kw)
    hpa = rng.rand() < 0.3
    pbc = C.grid(pb.reshape(shape) / (100 if hpa else 1), "air_pressure_at_condensation_level", "hPa" if hpa else "Pa", lead=lead, **kw)
    km = rng.rand() < 0.2
    wz = C.grid(asl / (1000.0 if km else 1.0), "wet_bulb_freezing_level_altitude", "km" if km else "m", lead=lead, **kw)
    oc = C.grid(orog.astype(float), "surface_altitude", "m", dy=2000.0)
    if km:      # not exactly representable: keep clear of the steps
        wbz = np.where(np.isin(wbz, [3350, 3550, 3750, 3950, 4150, 4400]), wbz + 3, wbz)
        wz.data = ((wbz.reshape(shape) + orog) / 1000.0).astype(np.float32)
    order = None
    if rng.rand() < 0.3:
        order = list(range(len(shape)))
        rng.shuffle(order)
        wz.transpose(order)
    like = dims(wz)
    cubes = [t, cb, pbc, wz, oc]
    rng.shuffle(cubes)
    mid = MID if kw["attrs"] and rng.rand() < 0.6 else None
    fn = (lambda: unwrap(hail_cli.process)(*cubes, model_id_attr=mid)) if rng.rand() < 0.4 else (lambda: HailSize(model_id_attr=mid)(*cubes))
    got = ctx.call(fn)
    ok = not isinstance(got, Failed)
    vals = []
    if ok:
        g = got.copy()
        names = [c.name() for c in g.coords(dim_coords=True)]
        want = (["realization"] if nr else []) + ["projection_y_coordinate", "projection_x_coordinate"]
        if sorted(names) == sorted(want):
            g.transpose([names.index(k) for k in want])
            vals = whole(g.data, 1000)
    meta = ok and bool(got.name() == "diameter_of_hail_stones" and got.units == "m" and got.dtype == np.float32 and dims(got) == like
                       and not got.coords("pressure") and got.coord("time") == cb.coord("time") and (mid is None or got.attributes.get(mid) == "uk_ens"))
    s.event("hail", t=[int(x) for x in tb], p=[int(x) for x in pb], pl=[int(x) for x in pls], env=env.tolist(), wb=[int(x) for x in wbz], out=out(got), got=vals, meta=meta)


def refusals(ctx, s, rng):
    hs = [0.0, 100.0, 500.0]
    kw = dict(frt=C.T0 - 3600, dy=2000.0)

    def cubes(a1="uk_ens", a2="uk_ens", ody=2000.0, ldy=2000.0):
        shape = (3, 3, 4)
        return [C.grid(rng.rand(*shape) * 5, "wet_bulb_temperature", "celsius", lead=[hcoord(hs)], attrs={**C.ATTRS, MID: a1}, **kw),
                C.grid(np.sort(rng.rand(*shape) * 300, axis=0)[::-1], "wet_bulb_temperature_integral", "K m", lead=[hcoord(hs)], attrs={**C.ATTRS, MID: a2}, **kw),
                C.grid(rng.rand(3, 4) * 100, "surface_altitude", "m", dy=ody), C.grid(np.round(rng.rand(3, 4)), "land_binary_mask", "1", dy=ldy)]
    s.event("rejected", why="unknown_change", out=out(ctx.call(lambda: PhaseChangeLevel("rain-snow"))))
    s.event("rejected", why="missing_input", out=out(ctx.call(lambda: PhaseChangeLevel("snow-sleet")(*cubes()[:3]))))
    s.event("rejected", why="other_models", out=out(ctx.call(lambda: PhaseChangeLevel("snow-sleet", model_id_attr=MID)(*cubes(a2="uk_det")))))
    s.event("rejected", why="other_orography", out=out(ctx.call(lambda: PhaseChangeLevel("snow-sleet")(*cubes(ody=3000.0)))))
    s.event("rejected", why="other_land_mask", out=out(ctx.call(lambda: PhaseChangeLevel("snow-sleet")(*cubes(ldy=3000.0)))))
    pc = C.DimCoord(np.array([90000, 40000], dtype=np.float32), long_name="pressure", units="Pa", attributes={"positive": "down"})
    for why in ("orography", "freezing_level", "cloud_base"):
        g = lambda k: dict(dy=3000.0 if k == why else 2000.0)
        cs = [C.grid(np.array([290.0, 250.0])[:, None, None] * np.ones((2, 3, 4)), "air_temperature", "K", lead=[pc], dy=2000.0),
              C.grid(np.full((3, 4), 285.0), "air_temperature_at_condensation_level", "K", **g("cloud_base")), C.grid(np.full((3, 4), 90000.0), "air_pressure_at_condensation_level", "Pa", **g("cloud_base")),
              C.grid(np.full((3, 4), 2000.0), "wet_bulb_freezing_level_altitude", "m", **g("freezing_level")), C.grid(np.full((3, 4), 10.0), "surface_altitude", "m", **g("orography"))]
        s.event("rejected", why="hail_other_" + why, out=out(ctx.call(lambda: HailSize()(*cs))))


def drive(ctx):
    rng = ctx.rng
    k = 4 if ctx.thorough else 1
    cases = ctx.cases
    for _ in range(4):
        with ctx.session("fields") as s:
            for _ in range(15 * k):
                field(ctx, s, rng, cases)
    with ctx.session("lookup") as s:
        for _ in range(15 * k):
            lookup(ctx, s, rng)
        for wb in (0, 3350, 3550, 3750, 3950, 4150, 4400):
            whole_table(ctx, s, wb)
    for _ in range(2):
        with ctx.session("hail") as s:
            for _ in range(12 * k):
                hail(ctx, s, rng)
    with ctx.session("refusals") as s:
        for _ in range(2 * k):
            refusals(ctx, s, rng)
