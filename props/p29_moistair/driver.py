"""Moist air: mixing ratios, wet bulbs, cloud bases and tops, feels-like temperatures."""
import numpy as np
from vkit import cubes as C
from vkit.main import Failed

from improver.cli import (
    cloud_condensation_level as ccl_cli, cloud_top_temperature as cct_cli, feels_like_temp as feels_cli,
    uv_index as uv_cli, wet_bulb_temperature as wbt_cli,
)
from improver.feels_like_temperature import calculate_feels_like_temperature
from improver.psychrometric_calculations.cloud_condensation_level import CloudCondensationLevel, MetaCloudCondensationLevel
from improver.psychrometric_calculations.cloud_top_temperature import CloudTopTemperature
from improver.psychrometric_calculations.psychrometric_calculations import HumidityMixingRatio
from improver.psychrometric_calculations.wet_bulb_temperature import WetBulbTemperature
from improver.uv_index import calculate_uv_index

NAN, MASKED = 2000000001, 2000000002


def unwrap(fn):
    fn = getattr(fn, "__wrapped__", fn)
    return getattr(fn, "__wrapped__", fn)


def out(r):
    return "error" if isinstance(r, Failed) else "ok"


def whole(a, scale):
    m = np.ma.getmaskarray(a)
    v = np.asarray(np.ma.getdata(a), dtype=float)
    return [MASKED if mm else NAN if np.isnan(x) else int(np.clip(np.rint(x * scale), -1.9e9, 1.9e9)) for x, mm in zip(v.flat, m.flat)]


def alike(cube, other):
    """Same points and dimensions as the cube given."""
    def dims(c):
        return [(d.name(), tuple(np.asarray(d.points))) for d in c.coords(dim_coords=True)]
    return cube.shape == other.shape and dims(cube) == dims(other)


def keep(*cubes):
    return [(c.copy(), c) for c in cubes]


def same(kept, units=True):
    def eq(a, b):
        return (a.units == b.units and alike(a, b) and a.attributes == b.attributes
                and np.array_equal(np.ma.getmaskarray(a.data), np.ma.getmaskarray(b.data))
                and np.allclose(np.ma.filled(a.data, 0), np.ma.filled(b.data, 0), rtol=1e-5, equal_nan=True))
    return all(eq(a, b) for a, b in kept)


class Air:
    """Random air on some layout; fields share the layout."""

    def __init__(self, rng, cases, levels=False, lead=True):
        self.rng = rng
        self.ny, self.nx = int(rng.randint(1, 5)), int(rng.randint(1, 5))
        self.nr = int(rng.choice([0, 0, 1, 2, 3])) if lead else 0
        self.nz = int(rng.randint(1, 5)) if levels else 0
        self.zname = ["height", "pressure"][rng.randint(2)]
        self.positive = rng.rand() < 0.7
        self.zfirst = rng.rand() < 0.5
        self.order = None if rng.rand() < 0.7 else [1, 0]
        self.model = rng.rand() < 0.5
        self.shape = tuple(([self.nr] if self.nr else []) + ([self.nz] if self.nz else []) + [self.ny, self.nx])
        n = int(np.prod(self.shape))
        t, p, rh, v = [], [], [], []
        for i in rng.randint(0, len(cases), n):
            a = dict(cases[i]["air"])
            if rng.rand() < 0.6:
                a.update(t=int(rng.randint(24500, 31300)), p=int(rng.randint(600, 1050)) * 100, rh=int(rng.randint(1, 1001)), v=int(rng.randint(0, 4000)))
            t.append(a["t"]), p.append(a["p"]), rh.append(a["rh"]), v.append(a["v"])
        self.t, self.p, self.rh, self.v = (np.array(x) for x in (t, p, rh, v))

    def lead(self, zpoints=None):
        out = []
        if self.nr:
            out.append(C.realization(self.nr))
        if self.nz:
            zp = zpoints if zpoints is not None else np.arange(1, self.nz + 1) * (10.0 if self.zname == "height" else 10000.0)
            out.append(C.DimCoord(np.array(zp, dtype=np.float32), long_name=self.zname, units="m" if self.zname == "height" else "Pa",
                                  attributes={"positive": "up"} if self.zname == "height" and self.positive else None))
        return out

    def cube(self, values, name, units, zpoints=None, mask=None, **kw):
        data = np.asarray(values, dtype=float).reshape(self.shape)
        if mask is not None:
            data = np.ma.masked_array(data, mask=np.asarray(mask).reshape(self.shape))
        c = C.grid(data, name, units, lead=self.lead(zpoints), frt=C.T0 - 3600, dy=kw.pop("dy", 2000.0), attrs={**C.ATTRS, "mosg__model_configuration": "uk_ens"} if self.model else None, **kw)
        if self.nr and self.nz and self.zfirst:
            c.transpose([1, 0, 2, 3])
        return c

    def flat(self, cube, values):
        """The integers given, in the order of the cube's data."""
        v = np.asarray(values).reshape(self.shape)
        if self.nr and self.nz and self.zfirst:
            v = np.moveaxis(v, 1, 0)
        return [int(x) for x in v.flat]

    def temperature(self, name="air_temperature", **kw):
        if self.rng.rand() < 0.3:
            return self.cube(self.t / 100 - 273.15, name, "celsius", **kw)
        return self.cube(self.t / 100, name, "K", **kw)

    def pressure(self, name, **kw):
        if self.rng.rand() < 0.3:
            return self.cube(self.p / 100, name, "hPa", **kw)
        return self.cube(self.p, name, "Pa", **kw)

    def humidity(self, **kw):
        if self.rng.rand() < 0.3:
            return self.cube(self.rh / 10, "relative_humidity", "%", **kw)
        return self.cube(self.rh / 1000, "relative_humidity", "1", **kw)


def described(got, like, name, units, drop=()):
    return bool(got.name() == name and got.units == units and got.dtype == np.float32 and alike(got, like)
                and all(got.coord(c) == like.coord(c) for c in ("time", "forecast_reference_time"))
                and not any(got.coords(d) for d in drop))


def mixing(ctx, s, a):
    t = a.cube(a.t / 100, "air_temperature", "K")
    p = a.cube(a.p, "surface_air_pressure", "Pa")
    rh = a.cube(a.rh / 1000, "relative_humidity", "1")
    kept = keep(t, p, rh)
    cubes = [t, p, rh]
    a.rng.shuffle(cubes)
    mid = "mosg__model_configuration" if a.model and a.rng.rand() < 0.7 else None
    got = ctx.call(lambda: HumidityMixingRatio(model_id_attr=mid)(*cubes))
    ok = not isinstance(got, Failed)
    s.event("mixing", t=a.flat(t, a.t), p=a.flat(t, a.p), rh=a.flat(t, a.rh), out=out(got), got=whole(got.data, 1e7) if ok else [],
            meta=ok and described(got, t, "humidity_mixing_ratio", "kg kg-1") and (mid is None or got.attributes.get(mid) == "uk_ens"), same=same(kept))
    return got


def wetbulb(ctx, s, a):
    rng = a.rng
    if rng.rand() < 0.2:
        a.rh[rng.rand(a.rh.size) < 0.3] = 1000
    t, rh, p = a.temperature(), a.humidity(), a.pressure("air_pressure")
    if not a.nz and rng.rand() < 0.5:
        for c in (t, rh, p):
            c.add_aux_coord(C.AuxCoord(np.array([1.5], dtype=np.float32), "height", units="m"))
    kept = keep(t, p, rh)
    cubes = [t, p, rh]
    rng.shuffle(cubes)
    prec = [0.005, 0.005, 0.05, 0.2][rng.randint(4)]
    mid = "mosg__model_configuration" if a.model and rng.rand() < 0.7 else None
    if rng.rand() < 0.25:
        got = ctx.call(lambda: unwrap(wbt_cli.process)(*cubes, convergence_condition=prec, model_id_attr=mid))
    elif prec == 0.005 and rng.rand() < 0.5:
        got = ctx.call(lambda: WetBulbTemperature(model_id_attr=mid)(C.CubeList(cubes)))
    else:
        got = ctx.call(lambda: WetBulbTemperature(precision=prec, model_id_attr=mid)(*cubes))
    ok = not isinstance(got, Failed)
    s.event("wetbulb", t=a.flat(t, a.t), p=a.flat(t, a.p), rh=a.flat(t, a.rh), out=out(got), got=whole(got.data, 100) if ok else [],
            tol=5 + int(100 * prec), meta=ok and described(got, t, "wet_bulb_temperature", "K") and (mid is None or got.attributes.get(mid) == "uk_ens"), same=same(kept))


def base(ctx, s, a):
    rng = a.rng
    a.t = np.clip(a.t, 25500, 31000)
    a.rh = np.clip(a.rh, 150, 990)
    t = a.cube(a.t / 100, "air_temperature", "K")
    p = a.cube(a.p, "surface_air_pressure", "Pa")
    if rng.rand() < 0.6:
        t.add_aux_coord(C.AuxCoord(np.array([1.5], dtype=np.float32), "height", units="m"))
    mid = "mosg__model_configuration" if a.model and rng.rand() < 0.7 else None
    fields = dict(t=a.flat(t, a.t), p=a.flat(t, a.p))
    if rng.rand() < 0.5:
        rh = a.cube(a.rh / 1000, "relative_humidity", "1")
        kept = keep(t, p, rh)
        if rng.rand() < 0.5:
            got = ctx.call(lambda: unwrap(ccl_cli.process)(t, p, rh, model_id_attr=mid))
        else:
            got = ctx.call(lambda: MetaCloudCondensationLevel(model_id_attr=mid)(t, p, rh))
        op = "basemeta"
        fields["rh"] = a.flat(t, a.rh)
    else:
        q = HumidityMixingRatio()(t, p, a.cube(a.rh / 1000, "relative_humidity", "1"))
        if mid:
            q.attributes[mid] = "uk_ens"
        kept = keep(t, p, q)
        got = ctx.call(lambda: CloudCondensationLevel(model_id_attr=mid)(t, p, q))
        op = "base"
        fields["q"] = whole(q.data, 1e7)
    ok = not isinstance(got, Failed)
    if ok:
        gt, gp = got
        meta = (described(gt, t, "air_temperature_at_condensation_level", "K", ["height"]) and described(gp, t, "air_pressure_at_condensation_level", "Pa", ["height"])
                and (mid is None or gt.attributes.get(mid) == gp.attributes.get(mid) == "uk_ens"))
        # a dimension coordinate of height is part of the layout
        fields.update(gotp=whole(gp.data, 1), gott=whole(gt.data, 100))
    s.event(op, out=out(got), meta=ok and bool(meta), same=same(kept), **fields)


def top(ctx, s, rng, cases, plugin=None):
    a = Air(rng, cases)
    n = a.t.size
    nz = int(rng.randint(1, 9))
    pls = np.sort(rng.choice(np.arange(250, 1001, 10), nz, replace=False))[::-1] * 100
    tb = rng.randint(26500, 30000, n)
    pb = rng.randint(700, 1000, n) * 100
    for i in range(n):                      # clear of the levels
        while np.min(np.abs(pls - pb[i])) < 200:
            pb[i] = int(rng.randint(700, 1000)) * 100 + 50
    # surroundings: near a moist lapse rate with a lid somewhere
    env = np.zeros((n, nz), dtype=int)
    for i in range(n):
        lapse = rng.uniform(0.11, 0.26)
        bias = rng.randint(-300, 300)
        lid = int(rng.randint(0, nz + 2))
        for j in range(nz):
            x = tb[i] * (pls[j] / pb[i]) ** lapse + bias + (rng.randint(300, 3000) if j == lid else 0)
            env[i, j] = int(np.clip(x, 21000, 32000))
    asc = rng.rand() < 0.25
    hpa = rng.rand() < 0.25
    sel = slice(None, None, -1) if asc else slice(None)
    pc = C.DimCoord((pls[sel] / (100.0 if hpa else 1.0)).astype(np.float32), long_name="pressure", units="hPa" if hpa else "Pa")
    tc, ttc, pcc = rng.rand() < 0.25, rng.rand() < 0.25, rng.rand() < 0.25
    v = env.reshape(a.shape + (nz,))[..., sel] / 100 - (273.15 if tc else 0)
    v = np.moveaxis(v, -1, len(a.shape) - 2)
    kw = dict(frt=C.T0 - 3600, dy=2000.0, attrs={**C.ATTRS, "mosg__model_configuration": "uk_ens"} if a.model else None)
    t = C.grid(v, "air_temperature", "celsius" if tc else "K", lead=a.lead() + [pc], **kw)
    if a.nr and rng.rand() < 0.5:
        t.transpose([1, 0, 2, 3])
    if nz == 1 and rng.rand() < 0.3:
        pass
    cb = a.cube(tb / 100 - (273.15 if ttc else 0), "air_temperature_at_condensation_level", "celsius" if ttc else "K")
    pbc = a.cube(pb / (100 if pcc else 1), "air_pressure_at_condensation_level", "hPa" if pcc else "Pa")
    like = cb.copy()
    mid = "mosg__model_configuration" if a.model and rng.rand() < 0.7 else None
    r = rng.rand()
    if plugin is None:
        plugin = CloudTopTemperature(model_id_attr=mid)
    else:
        mid = None
    if r < 0.3:
        got = ctx.call(lambda: unwrap(cct_cli.process)(C.CubeList([cb, pbc]), t, model_id_attr=mid))
    else:
        cubes = [cb, pbc, t]
        rng.shuffle(cubes)
        got = ctx.call(lambda: plugin(*cubes))
    ok = not isinstance(got, Failed)
    s.event("top", t=a.flat(cb, tb), p=a.flat(cb, pb), pl=[int(x) for x in pls], env=env.tolist(), out=out(got), got=whole(got.data, 100) if ok else [],
            meta=ok and described(got, like, "air_temperature_at_convective_cloud_top", "K") and (mid is None or got.attributes.get(mid) == "uk_ens"), same=True)


def feels(ctx, s, rng, cases):
    a = Air(rng, cases)
    n = a.t.size
    tc = a.t - 27315
    k = rng.rand(n)
    tc = np.where(k < 0.3, rng.randint(900, 2100, n), np.where(k < 0.4, rng.choice([1000, 2000, 999, 2001], n), tc))
    v = a.v if rng.rand() < 0.5 else rng.randint(0, 300, n)
    masked = rng.rand(n) < 0.2 if rng.rand() < 0.25 else None
    vals = tc / 100
    rec = tc.astype(int).copy()
    if masked is not None:
        rec[masked] = MASKED
    tu = ["celsius", "K", "fahrenheit"][rng.choice(3, p=[0.4, 0.5, 0.1])]
    t = a.cube({"celsius": vals, "K": vals + 273.15, "fahrenheit": vals * 1.8 + 32}[tu], "air_temperature", tu, mask=masked)
    wu = ["m s-1", "km h-1", "knot"][rng.choice(3, p=[0.6, 0.2, 0.2])]
    w = a.cube(v / 100 * {"m s-1": 1, "km h-1": 3.6, "knot": 3600 / 1852}[wu], "wind_speed", wu, mask=masked)
    rh, p = a.humidity(mask=masked), a.pressure("surface_air_pressure", mask=masked)
    kept = keep(t, w, rh, p)
    mid = "mosg__model_configuration" if a.model and rng.rand() < 0.7 else None
    fn = unwrap(feels_cli.process) if rng.rand() < 0.3 else calculate_feels_like_temperature
    got = ctx.call(lambda: fn(t, w, rh, p, model_id_attr=mid))
    ok = not isinstance(got, Failed)
    g = []
    if ok:
        c = got.copy()
        c.convert_units("celsius")
        g = whole(c.data, 100)
    s.event("feels", tc=[int(x) for x in rec], v=[int(x) for x in v], rh=[int(x) for x in a.rh], p=[int(x) for x in a.p], out=out(got), got=g,
            meta=ok and described(got, t, "feels_like_temperature", tu) and (mid is None or got.attributes.get(mid) == "uk_ens"), same=same(kept))


def uv(ctx, s, rng, cases):
    a = Air(rng, cases)
    n = a.t.size
    f = rng.choice([0, 1, 100, 3000, 250], n) if rng.rand() < 0.5 else rng.randint(0, 5000, n)   # tenths of mW
    f = f * 10
    mw = rng.rand() < 0.3
    c = a.cube(f / (1.0 if mw else 1000.0), "surface_downwelling_ultraviolet_flux_in_air", "mW m-2" if mw else "W m-2")
    like = c.copy()
    mid = "mosg__model_configuration" if a.model and rng.rand() < 0.7 else None
    scale = int(rng.choice([36, 36, 20]))
    if scale == 36:
        fn = unwrap(uv_cli.process) if rng.rand() < 0.5 else calculate_uv_index
        got = ctx.call(lambda: fn(c, model_id_attr=mid))
    else:
        got = ctx.call(lambda: calculate_uv_index(c, scale_factor=scale / 10, model_id_attr=mid))
    ok = not isinstance(got, Failed)
    s.event("uv", f=[int(x) for x in f], scale=scale, out=out(got), got=whole(got.data, 1000) if ok else [],
            meta=ok and described(got, like, "ultraviolet_index", "1") and (mid is None or got.attributes.get(mid) == "uk_ens"), same=True)


def refusals(ctx, s, rng, cases):
    while True:
        a = Air(rng, cases, levels=True)
        a.positive = True
        if a.nz >= 2:
            break
    fields = lambda **z: [a.temperature(zpoints=z.get("t")), a.humidity(zpoints=z.get("rh")), a.pressure("air_pressure", zpoints=z.get("p"))]
    zs = a.lead()[-1].points
    for why, z in (("other_levels", {["t", "rh", "p"][rng.randint(3)]: zs + 0.5 * (zs[1] - zs[0])}),
                   ("levels_in_other_order", {["t", "rh", "p"][rng.randint(3)]: zs[::-1]})):
        got = ctx.call(lambda: WetBulbTemperature()(*fields(**z)))
        s.event("rejected", why=why, out=out(got))
    cs = fields()
    i = rng.randint(3)
    dim = cs[i].coord_dims(a.zname)[0]
    cs[i] = cs[i][tuple([slice(None)] * dim + [slice(0, a.nz - 1)])] if a.nz > 2 else cs[i][tuple([slice(None)] * dim + [0])]
    s.event("rejected", why="fewer_levels", out=out(ctx.call(lambda: WetBulbTemperature()(*cs))))
    cs = fields()
    s.event("rejected", why="missing_input", out=out(ctx.call(lambda: WetBulbTemperature()(*cs[:2]))))
    b = Air(rng, cases, lead=False)
    for bad, why in ((-1.0, "negative_flux"), (np.nan, "missing_flux")):
        f = rng.rand(b.t.size)
        f[rng.randint(f.size)] = bad
        got = ctx.call(lambda: calculate_uv_index(b.cube(f, "surface_downwelling_ultraviolet_flux_in_air", "W m-2")))
        s.event("rejected", why=why, out=out(got))
    got = ctx.call(lambda: calculate_uv_index(b.cube(rng.rand(b.t.size), "surface_upwelling_ultraviolet_flux_in_air", "W m-2")))
    s.event("rejected", why="other_flux", out=out(got))
    t = b.cube(b.t / 100, "air_temperature_at_condensation_level", "K")
    p = b.cube(b.p, "air_pressure_at_condensation_level", "Pa", dy=4000.0)
    pc = C.DimCoord(np.array([90000, 80000], dtype=np.float32), long_name="pressure", units="Pa")
    env = C.grid(np.full((2, b.ny, b.nx), 280.0), "air_temperature", "K", lead=[pc], dy=2000.0, frt=C.T0 - 3600)
    if b.ny > 1:
        s.event("rejected", why="other_grid", out=out(ctx.call(lambda: CloudTopTemperature()(t, p, env))))


def drive(ctx):
    rng = ctx.rng
    k = 4 if ctx.thorough else 1
    cases = ctx.cases
    with ctx.session("mixing") as s:
        for _ in range(12 * k):
            mixing(ctx, s, Air(rng, cases))
    for i in range(3):
        with ctx.session("wetbulb") as s:
            for _ in range(12 * k):
                wetbulb(ctx, s, Air(rng, cases, levels=i > 0))
    with ctx.session("base") as s:
        for _ in range(25 * k):
            base(ctx, s, Air(rng, cases))
    for _ in range(3):
        with ctx.session("top") as s:
            for _ in range(10 * k):
                top(ctx, s, rng, cases)
    with ctx.session("top_again") as s:
        plugin = CloudTopTemperature()
        for _ in range(6 * k):
            top(ctx, s, rng, cases, plugin)
    for _ in range(2):
        with ctx.session("feels") as s:
            for _ in range(15 * k):
                feels(ctx, s, rng, cases)
    with ctx.session("uv") as s:
        for _ in range(10 * k):
            uv(ctx, s, rng, cases)
    with ctx.session("refusals") as s:
        for _ in range(4 * k):
            refusals(ctx, s, rng, cases)
