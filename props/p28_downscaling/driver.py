"""Wind downscaling, recorded column by column."""
import numpy as np
from vkit import cubes as C
from vkit.main import Failed

from improver.cli import wind_downscaling as wcli
from improver.wind_calculations.wind_downscaling import RoughnessCorrection

NAN = 2000000001
RMDI = -32767.0


def unwrap(fn):
    fn = getattr(fn, "__wrapped__", fn)
    return getattr(fn, "__wrapped__", fn)


def out(r):
    return "error" if isinstance(r, Failed) else "ok"


def whole(a, scale):
    return [NAN if np.isnan(v) else int(np.rint(v * scale)) for v in np.asarray(a, dtype=float).flat]


def columns(rng, cases, n, withz):
    cols = []
    for i in rng.randint(0, len(cases), n):
        c = dict(cases[i]["col"])
        if rng.rand() < 0.5:
            c.update(a=int(rng.randint(1, 400)), s=int(rng.randint(1, 900)), z=int(rng.choice([0, 1, 50, 1000, 6000, -5])))
        if rng.rand() < 0.4:
            c.update(pp=int(rng.randint(0, 3000)), mo=int(rng.randint(0, 3000)))
            c["mo"] = min(max(c["mo"], c["pp"] - 1500), c["pp"] + 1500)
        if rng.rand() < 0.06:
            c[["a", "s"][rng.randint(2)]] = NAN
        c["withz"] = withz
        cols.append(c)
    return cols


class World:
    """Ancillaries, and winds over them."""

    def __init__(self, rng, cols, ny, nx, dy, dx, modres, withz):
        self.rng, self.cols, self.ny, self.nx, self.dy, self.dx, self.modres, self.withz = rng, cols, ny, nx, dy, dx, modres, withz
        self.bounds = rng.rand() < 0.5
        self.kw = dict(dy=float(dy), dx=float(dx), bounds=self.bounds)

        def field(key, scale, name, units, missing=np.nan):
            v = np.array([missing if c[key] == NAN else c[key] / scale for c in cols]).reshape(ny, nx)
            t = C.T0 if rng.rand() < 0.3 else None
            cube = C.grid(v, name, units, t=t, frt=C.T0, **self.kw)
            if rng.rand() < 0.2:
                cube.transpose([1, 0])
            return cube
        rm = lambda: RMDI if rng.rand() < 0.5 else np.nan
        self.a = field("a", 1000, "silhouette_roughness", "1")
        self.s = field("s", 10, "standard_deviation_of_height_in_grid_cell", "m")
        self.z = field("z", 10000, "vegetative_roughness_length", "m") if withz else None
        self.pp = field("pp", 10, "surface_altitude", "m", rm())
        self.mo = field("mo", 10, "surface_altitude", "m", rm())

    def ancils(self):
        return [c for c in (self.a, self.s, self.z, self.pp, self.mo) if c is not None]

    def plugin(self, levels=None):
        return RoughnessCorrection(self.a, self.s, self.pp, self.mo, self.modres, z0_cube=self.z, height_levels_cube=levels)

    def wind(self, u, hs, order, t, zname="height", nr=None):
        """u[r?][t][cell][level] -> cube of the order asked for."""
        zc = C.DimCoord(np.array(hs, dtype=np.float32) / 100, "height", units="m") if zname == "height" else C.DimCoord(np.arange(1, len(hs) + 1, dtype=np.int32), "model_level_number", units="1")
        u = np.array(u, dtype=float)
        data = u.reshape(u.shape[:-2] + (self.ny, self.nx, len(hs))) / 100
        data = np.moveaxis(data, -1, -3)          # ..., time, z, y, x
        many = isinstance(t, list)
        if not many:
            data = data[..., 0, :, :, :]
        lead = ([C.realization(nr)] if nr else []) + [zc]
        cube = C.grid(data, "wind_speed", "m s-1", lead=lead, t=t, tdim=(1 if nr else 0) if many else None, frt=C.T0 - 3600, **self.kw)
        if order:
            names = [c.name() for c in cube.coords(dim_coords=True)]
            long = {"t": "time", "z": zc.name(), "y": "projection_y_coordinate", "x": "projection_x_coordinate", "r": "realization"}
            cube.transpose([names.index(long[k]) for k in order])
        return cube


def profile(rng, cases, n):
    r = rng.rand()
    if r < 0.15:
        return [int(rng.randint(0, 1500))] * n
    if r < 0.6:
        return sorted(int(v) for v in rng.randint(0, 2000, n))
    u = [int(v) for v in rng.randint(0, 2000, n)]
    if rng.rand() < 0.3:
        u[rng.randint(n)] = 0
    return u


def read(got, zname, many):
    """-> [time][cell][level]"""
    g = got.copy()
    names = [c.name() for c in g.coords(dim_coords=True)]
    want = (["time"] if many else []) + ["projection_y_coordinate", "projection_x_coordinate", zname]
    if sorted(names) != sorted(want):
        return None
    g.transpose([names.index(n) for n in want])
    v = np.asarray(g.data, dtype=float)
    if not many:
        v = v[np.newaxis]
    return [[whole(col, 100) for col in t.reshape(-1, v.shape[-1])] for t in v]


def heights(rng, modres):
    n = int(rng.randint(3, 6))
    top = int(modres * 100 * 1.1)
    pts = sorted(set([int(v) * 10 for v in rng.choice(np.arange(10, top // 10 - 50), n - 1, replace=False)]))
    if rng.rand() < 0.5:
        pts[0] = int(rng.choice([110, 250, 500]))
        pts = sorted(set(pts))
    return pts + [top]


def make(rng, cases, withz=None):
    ny, nx = int(rng.randint(2, 5)), int(rng.randint(2, 5))
    dy, dx = [(100, 100), (200, 100), (500, 500), (300, 400)][rng.randint(4)]
    modres = int(rng.choice([300, 1000]))
    withz = bool(rng.rand() < 0.8) if withz is None else withz
    return World(rng, columns(rng, cases, ny * nx, withz), ny, nx, dy, dx, modres, withz)


def record(ctx, s, w, plugin, levels, zname, hs, hcol):
    """One call of a plugin on one wind cube."""
    rng = ctx.rng
    nt = int(rng.choice([1, 1, 2, 3]))
    ncell = w.ny * w.nx
    u = [[profile(rng, None, len(hs)) for _ in range(ncell)] for _ in range(nt)]
    many = nt > 1 or rng.rand() < 0.15
    ts = [C.T0 + 3600 * k for k in range(nt)]
    order = [["t", "z", "y", "x"], ["t", "y", "x", "z"], ["y", "x", "z", "t"], ["z", "t", "y", "x"], ["y", "x", "t", "z"]][rng.randint(5)] if rng.rand() < 0.7 else None
    if order and not many:
        order = [o for o in order if o != "t"]
    cube = w.wind(u, hs, order, ts if many else ts[0], zname)
    before, an = cube.copy(), [np.array(c.data) for c in w.ancils()]
    got = ctx.call(lambda: plugin(cube))
    g, meta = [], False
    if not isinstance(got, Failed):
        g = read(got, zname, many)
        meta = (g is not None and got.name() == "wind_speed" and str(got.units) == "m s-1" and got.dtype == np.float32 and got.shape == before.shape
                and [c.name() for c in got.coords(dim_coords=True)] == [c.name() for c in before.coords(dim_coords=True)]
                and all(got.coord(c.name()) == c for c in before.coords()) and C.attrs_post(before.attributes, got.attributes))
        g = g or []
    s.event("downscale", cols=w.cols, ppres=(w.dy + w.dx) // 2, modres=w.modres, h=hcol, u=u, out=out(got), got=g, meta=bool(meta),
            same=bool(cube.coords() == before.coords() and cube.shape == before.shape and np.array_equal(cube.data, before.data)
                      and [c.name() for c in cube.coords(dim_coords=True)] == [c.name() for c in before.coords(dim_coords=True)]
                      and all(np.array_equal(a, c.data, equal_nan=True) for a, c in zip(an, w.ancils()))))


def downscale(ctx, cases):
    rng = ctx.rng
    for _ in range(90 if ctx.thorough else 28):
        with ctx.session("downscale") as s:
            w = make(rng, cases)
            ncell = w.ny * w.nx
            hs = heights(rng, w.modres)
            kind = ["own", "own", "shared", "by_column"][rng.randint(4)]
            if kind == "own":
                levels, zname, hcol = None, "height", [hs] * ncell
            elif kind == "shared":
                zname = ["height", "model_level_number"][rng.randint(2)]
                ref = w.wind([[profile(rng, None, len(hs))] * ncell], hs, None, C.T0, zname)
                levels = ref[:, 0, 0].copy(data=np.array(hs, dtype=np.float32) / 100)
                levels.rename("height_levels")
                levels.units = "m"
                hcol = [hs] * ncell
            else:
                zname = "model_level_number"
                hcol = []
                for _ in range(ncell):
                    off = int(rng.randint(0, 8)) * 10
                    hcol.append([h + off for h in hs])
                levels = w.wind([hcol], hs, ["z", "y", "x"] if rng.rand() < 0.5 else ["y", "x", "z"], C.T0, zname)
                levels.rename("height_levels")
                levels.units = "m"
            plugin = w.plugin(levels)
            for _ in range(int(rng.randint(1, 4))):
                record(ctx, s, w, plugin, levels, zname, hs, hcol)


def level(ctx, cases):
    rng = ctx.rng
    with ctx.session("level") as s:
        for _ in range(40 if ctx.thorough else 14):
            w = make(rng, cases)
            hs = sorted(set([200 * (h // 200 + 1) for h in heights(rng, w.modres)[:-1]] + [2000, 50000, w.modres * 110 // 100 * 100]))
            ncell = w.ny * w.nx
            nr = int(rng.randint(1, 4)) if rng.rand() < 0.6 else None
            nt = int(rng.choice([1, 1, 2]))
            u = np.array([[[profile(rng, None, len(hs)) for _ in range(ncell)] for _ in range(nt)] for _ in range(nr or 1)])
            ts = [C.T0 + 3600 * k for k in range(nt)]
            many = nt > 1
            cube = w.wind(u if nr else u[0], hs, None, ts if many else ts[0], "height", nr)
            want = int(hs[rng.randint(len(hs))]) if rng.rand() < 0.85 else hs[0] + 130
            km = want == 50000 and rng.rand() < 0.5
            args = dict(model_resolution=w.modres, output_height_level=want / (100000 if km else 100), output_height_level_units="km" if km else "m")
            got = ctx.call(lambda: unwrap(wcli.process)(cube, w.s, w.pp, w.mo, w.a, w.z, **args) if w.z is not None else None)
            if w.z is None:
                continue
            g, meta = [], False
            if not isinstance(got, Failed):
                dims = (["realization"] if nr else []) + (["time"] if many else []) + ["projection_y_coordinate", "projection_x_coordinate"]
                meta = ([c.name() for c in got.coords(dim_coords=True)] == dims and abs(float(got.coord("height").points[0]) - want / 100) < 0.01
                        and str(got.coord("height").units) == "m")
                if nr:
                    meta = meta and [int(p) for p in got.coord("realization").points] == list(range(nr))
                g = [whole(v, 100) for v in np.asarray(got.data).reshape(-1, ncell)]
            s.event("level", cols=w.cols, ppres=(w.dy + w.dx) // 2, modres=w.modres, h=hs, u=u.reshape((-1,) + u.shape[2:]).tolist(), want=want, out=out(got), got=g, meta=bool(meta))


def refusals(ctx, cases):
    rng = ctx.rng
    with ctx.session("refusals") as s:
        for why in ["spread_in_km", "roughness_in_cm", "orography_in_km", "slope_in_m", "other_grid", "latlon", "wind_missing", "wind_negative", "second_time_negative",
                    "x_before_y", "heights_missing", "two_dimensional_heights", "not_a_cube", "x_grid_of_wind", "y_grid_of_wind"]:
            w = make(rng, cases, True)
            w.cols = None
            hs = heights(rng, w.modres)
            u = [[profile(rng, None, len(hs)) for _ in range(w.ny * w.nx)] for _ in range(2)]
            cube = w.wind(u, hs, None, [C.T0, C.T0 + 3600])
            levels = None
            if why == "spread_in_km":
                w.s.convert_units("km")
            elif why == "roughness_in_cm":
                w.z.convert_units("cm")
            elif why == "orography_in_km":
                [w.pp, w.mo][rng.randint(2)].convert_units("km")
            elif why == "slope_in_m":
                w.a.units = "m"
            elif why == "other_grid":
                c = [w.a, w.s, w.z, w.pp, w.mo][rng.randint(5)].coord(axis="xy"[rng.randint(2)])
                c.bounds = None
                c.points = c.points + np.float32(17.0)
            elif why == "latlon":
                for a in w.ancils():
                    for ax, n in (("x", "longitude"), ("y", "latitude")):
                        a.coord(axis=ax).rename(n)
                        a.coord(n).units = "degrees"
            elif why == "wind_missing":
                cube.data[0, 0, 0, 0] = np.nan
            elif why == "wind_negative":
                cube.data[0, 1, 1, 1] = -0.5
            elif why == "second_time_negative":
                cube.data[1, 1, 1, 1] = -0.5
            elif why == "x_before_y":
                cube.transpose([0, 1, 3, 2])
            elif why == "heights_missing":
                levels = cube[0].copy(data=np.full(cube[0].shape, 10.0, np.float32))
                levels.data[0, 0, 0] = np.nan if rng.rand() < 0.5 else RMDI
            elif why == "two_dimensional_heights":
                levels = cube[0, 0].copy()
            elif why.endswith("grid_of_wind"):
                c = cube.coord(axis=why[0])
                c.bounds = None
                c.points = c.points + np.float32(w.dx)
            before = cube.copy()
            got = ctx.call(lambda: w.plugin(levels)("winds" if why == "not_a_cube" else cube))
            s.event("rejected", why=why, out=out(got))


def drive(ctx):
    cases = [c for c in ctx.cases if "col" in c]
    downscale(ctx, cases)
    level(ctx, cases)
    refusals(ctx, cases)
