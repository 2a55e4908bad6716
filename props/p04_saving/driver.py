import os
import shutil

import iris
import iris.fileformats.netcdf as nc_mod
import netCDF4
import numpy as np
from cf_units import Unit
from vkit import cubes as C
from vkit.main import Failed

from improver.utilities.load import load_cube, load_cubelist
from improver.utilities.save import save_netcdf


class Crash(BaseException):
    """The process dies here."""


class Faults:
    """Counts the steps of a save (every operation on the file being written, and every
    rename) and dies at the k-th."""

    def __init__(self, at):
        self.at, self.n = at, 0
        self.opened = []

    def step(self):
        self.n += 1
        if self.at is not None and self.n == self.at:
            raise Crash()


class Var:
    def __init__(self, v, f):
        object.__setattr__(self, "_v", v)
        object.__setattr__(self, "_f", f)

    def __getattr__(self, k):
        return getattr(self._v, k)

    def __setattr__(self, k, v):
        setattr(self._v, k, v)

    def __setitem__(self, k, x):
        self._f.step()
        self._v[k] = x
        self._f.step()

    def __getitem__(self, k):
        return self._v[k]

    def setncattr(self, *a):
        self._v.setncattr(*a)


class Vars(dict):
    pass


class Ds:
    def __init__(self, f, path, *a, **k):
        f.step()
        self._f = f
        self._d = netCDF4.Dataset(path, *a, **k)
        self._vars = {}
        f.opened.append(self._d)
        f.step()

    def __getattr__(self, k):
        if k == "variables":
            return {n: self._vars.get(n, v) for n, v in self._d.variables.items()}
        return getattr(self._d, k)

    def createVariable(self, name, *a, **k):
        self._f.step()
        self._vars[name] = Var(self._d.createVariable(name, *a, **k), self._f)
        return self._vars[name]

    def createDimension(self, *a, **k):
        self._f.step()
        return self._d.createDimension(*a, **k)

    def setncattr(self, *a):
        self._f.step()
        return self._d.setncattr(*a)

    def setncatts(self, *a):
        self._f.step()
        return self._d.setncatts(*a)

    def close(self):
        self._f.step()
        self._d.close()
        self._f.step()

    def __enter__(self):
        return self

    def __exit__(self, *a):
        if a[0] is None:
            self.close()


class NC:
    def __init__(self, f):
        self._f = f

    def __getattr__(self, k):
        return getattr(netCDF4, k)

    def Dataset(self, path, mode="r", *a, **k):
        if mode[0] == "r":
            return netCDF4.Dataset(path, mode, *a, **k)
        return Ds(self._f, path, mode, *a, **k)


MOVES = [(os, "rename"), (os, "replace"), (shutil, "move"), (shutil, "copy"),
         (shutil, "copyfile"), (os, "remove"), (os, "unlink")]


def faulty(faults, func):
    saved = [(m, n, getattr(m, n)) for m, n in MOVES]
    old_nc = nc_mod.netCDF4

    def wrap(real):
        def moved(*a, **k):
            faults.step()
            r = real(*a, **k)
            faults.step()
            return r
        return moved

    nc_mod.netCDF4 = NC(faults)
    for m, n, real in saved:
        setattr(m, n, wrap(real))
    try:
        return func()
    finally:
        nc_mod.netCDF4 = old_nc
        for d in faults.opened:   # what the system does with the files of a dead process
            if d.isopen():
                d.close()
        for m, n, real in saved:
            setattr(m, n, real)


def holds(path):
    """Version held by the path: 0 nothing, -1 something that is no complete version."""
    if not os.path.exists(path):
        return 0
    try:
        with netCDF4.Dataset(path) as ds:
            v = int(ds.getncattr("history").split("=")[1])
            n = int(ds.getncattr("source").split("=")[1])
            ds.set_auto_maskandscale(False)
            tot = 0
            for name, var in ds.variables.items():
                if name.startswith("payload"):
                    tot += 1
                    if var.size == 0 or not np.all(var[:].ravel()[-1] == np.float32(v)):
                        return -1
            return v if tot == n else -1
    except Exception:  # noqa: BLE001
        return -1


def payload(v, rng, n):
    """Cubes that carry their version in the last point of their data."""
    out = C.CubeList()
    kinds = ["real", "thr", "perc", "plain"]
    for i in range(n):
        kind = kinds[rng.randint(4)]
        ny, nx = int(rng.randint(1, 4)), int(rng.randint(2, 5))
        lead = {"real": [C.realization(2)], "perc": [C.percentiles([20, 50, 80])],
                "thr": [C.thresholds([1.0, 2.0])], "plain": []}[kind]
        shape = tuple(len(c.points) for c in lead) + (ny, nx)
        data = rng.randint(-5, 5, shape).astype(np.float32)
        data.ravel()[-1] = v
        attrs = dict(C.ATTRS, history="v=%d" % v, source="n=%d" % n)
        if rng.rand() < 0.5:
            attrs["mosg__model_configuration"] = "uk_ens"
        if rng.rand() < 0.5:
            attrs["my_local"] = "local%d" % i
        if rng.rand() < 0.3:
            attrs["least_significant_digit"] = 2
        if rng.rand() < 0.3:
            m = rng.rand(*shape) < 0.3
            m.ravel()[-1] = False
            data = np.ma.masked_array(data, mask=m)
        c = C.grid(data, "payload%d" % i, "K", lead=lead, attrs=attrs,
                   tb=[C.T0 - 3600, C.T0] if rng.rand() < 0.5 else None, bounds=True)
        if rng.rand() < 0.4:
            c.add_cell_method(C.CellMethod("maximum", coords="time"))
        if rng.rand() < 0.3:
            c.add_cell_method(C.CellMethod("mean", coords="realization"))
        if rng.rand() < 0.3:
            c.add_aux_coord(C.AuxCoord(np.array([10.0], np.float32), "height", units="m"))
        if rng.rand() < 0.3 and kind == "real":
            c.transpose([1, 2, 0])
        out.append(c)
    return out


def describe(c):
    return {"dtype": str(c.dtype), "unknown_units": bool(Unit(c.units).is_unknown()),
            "coords": [{"name": k.name(), "dtype": str(k.dtype),
                        "bdtype": str(k.bounds.dtype) if k.has_bounds() else "none",
                        "units_ok": str(k.units) in (C.TUNITS, "second", "seconds", "s")}
                       for k in c.coords()]}


def spoil(cubes, rng):
    c = cubes[rng.randint(len(cubes))]
    k = rng.randint(8)
    if k == 0:
        c.data = c.data.astype(np.float64)
    elif k == 1:
        c.units = "unknown"
    elif k == 2:
        c.coord("time").convert_units("hours since 1970-01-01 00:00:00")
        c.coord("time").points = c.coord("time").points.astype(np.int64)
        if c.coord("time").has_bounds():
            c.coord("time").bounds = c.coord("time").bounds.astype(np.int64)
    elif k == 3:
        c.coord("forecast_period").points = c.coord("forecast_period").points.astype(np.int64)
    elif k == 4:
        x = c.coord(axis="x")
        b = x.bounds.astype(np.float64)
        x.bounds = b
    elif k == 5:
        x = c.coord(axis="y")
        x.points = x.points.astype(np.float64)
    elif k == 6:
        c.coord("forecast_reference_time").points = \
            c.coord("forecast_reference_time").points.astype(np.int32)
    else:
        c.add_aux_coord(C.AuxCoord(np.array([1.0], np.float64), long_name="extra_thing", units="1"))


def strip(c):
    return {k: v for k, v in c.attributes.items()}


def ordered(c):
    dims = C.describe(c)["dims"]
    lead = [d for d in ("realization", "percentile", "air_temperature") if d in dims]
    return dims[:len(lead)] == lead and dims[-2:] == ["projection_y_coordinate",
                                                     "projection_x_coordinate"]


def squeeze(c):
    return iris.util.squeeze(c)


def same_coords(a, b):
    for c in a.coords():
        if not b.coords(c.name()):
            return False
        d = b.coord(c.name())
        if not (np.array_equal(c.points, d.points) and c.units == d.units
                and c.points.dtype == d.points.dtype
                and (c.bounds is None) == (d.bounds is None)
                and (c.bounds is None or np.array_equal(c.bounds, d.bounds))
                and dict(c.attributes) == dict(d.attributes)):
            return False
    return len(a.coords()) == len(b.coords())


def load_event(ctx, s, path, want):
    r = ctx.call(load_cubelist, path)
    if isinstance(r, Failed):
        s.event("load", got=-1, data_same=False, id_same=False, attrs_same=False,
                coords_same=False, dims_ok=False, methods_same=False, dtype_same=False,
                global_ok=False, err=r.text)
        return
    got = sorted(r, key=lambda c: c.name())
    ok = len(got) == len(want)
    pairs = list(zip(got, want)) if ok else []
    fixed = []
    for g, w in pairs:
        w = w.copy()
        order = [w.coord_dims(n)[0] for n in C.describe(g)["dims"] if w.coords(n) and
                 w.coord_dims(n)]
        if len(order) == w.ndim:
            w.transpose(order)
        fixed.append((g, w))
    gk = {"title", "um_version", "grid_id", "source", "Conventions", "institution", "history"}
    with netCDF4.Dataset(path) as ds:
        ga = set(ds.ncattrs())
        glob = ("title" in ga and "history" in ga and "my_local" not in ga
                and all("title" not in v.ncattrs() for v in ds.variables.values()))
    s.event("load", got=holds(path),
            data_same=ok and all(
                g.shape == w.shape and np.array_equal(np.ma.filled(g.data, -99),
                                                      np.ma.filled(w.data, -99))
                and np.array_equal(np.ma.getmaskarray(g.data), np.ma.getmaskarray(w.data))
                for g, w in fixed),
            id_same=ok and all(g.name() == w.name() and g.units == w.units for g, w in fixed),
            attrs_same=ok and all(
                {k: str(v) for k, v in strip(g).items() if k != "Conventions"}
                == {k: str(v) for k, v in strip(w).items() if k != "least_significant_digit"}
                for g, w in fixed),
            coords_same=ok and all(same_coords(w, g) for g, w in fixed),
            dims_ok=all(ordered(g) for g, w in fixed),
            methods_same=ok and all(sorted(map(str, g.cell_methods))
                                    == sorted(map(str, w.cell_methods)) for g, w in fixed),
            dtype_same=ok and all(g.dtype == w.dtype for g, w in fixed), global_ok=glob)


def drive(ctx):
    rng = ctx.rng
    steps = None
    n = 0
    hist = ctx.pick(ctx.cases, 44 if not ctx.thorough else 256)
    hist = [h["ops"] for h in hist]
    # every crash point of one save over an existing file, and over nothing
    f = Faults(None)
    d = os.path.join(ctx.scratch, "probe")
    os.makedirs(d)
    faulty(f, lambda: save_netcdf(payload(1, np.random.RandomState(5), 1), d + "/p.nc"))
    steps = f.n
    plans = [["crash%d" % k] for k in range(1, steps + 1)]
    plans += [["ok", "crash%d" % k, "load", "ok", "load"] for k in range(1, steps + 1)]
    plans += hist
    for plan in plans:
        n += 1
        d = os.path.join(ctx.scratch, "s%d" % n)
        os.makedirs(d)
        path = os.path.join(d, "file.nc")
        with ctx.session("history") as s:
            s.event("init")
            cur = None
            before = 0
            for i, kind in enumerate(plan):
                v = i + 1
                if kind == "load":
                    if holds(path) > 0:
                        load_event(ctx, s, path, cur)
                    continue
                fixed = kind.startswith("crash") and kind != "crash"
                cubes = payload(v, np.random.RandomState(5) if fixed else rng,
                                1 if fixed else 1 + rng.randint(2))
                if kind == "bad":
                    spoil(cubes, rng)
                desc = [describe(c) for c in cubes]
                arg = cubes if len(cubes) > 1 or rng.rand() < 0.5 else cubes[0]
                keep = C.CubeList([c.copy() for c in cubes])
                k = None
                if kind.startswith("crash"):
                    k = int(kind[5:]) if fixed else int(rng.randint(1, steps + 1))
                lev = int(rng.randint(10))
                faults = Faults(k)
                out = "ok"
                try:
                    r = ctx.call(faulty, faults, lambda: save_netcdf(arg, path,
                                                                     compression_level=lev))
                    if isinstance(r, Failed):
                        out = "error"
                except Crash:
                    out = "crash"
                h = holds(path)
                if h == v:
                    cur = sorted(keep, key=lambda c: c.name())
                if out != "crash" and kind.startswith("crash"):
                    kind = "ok"
                s.event("save", kind=kind[:5], v=v, cubes=desc, out=out, holds=h,
                        at=k or 0, err=r.text if out == "error" else "",
                        extra=[x for x in os.listdir(d) if x != "file.nc"])
            if holds(path) > 0:
                load_event(ctx, s, path, cur)
        shutil.rmtree(d, ignore_errors=True)
        if ctx.late():
            break
    # compression levels outside 0..9 are refused
    for lev in (-1, 10, 11):
        d = os.path.join(ctx.scratch, "lev%d" % lev)
        os.makedirs(d)
        with ctx.session("level") as s:
            cubes = payload(1, rng, 1)
            s.event("init")
            r = ctx.call(save_netcdf, cubes, d + "/file.nc", compression_level=lev)
            s.event("save", kind="bad", v=1, cubes=[describe(c) for c in cubes],
                    out="error" if isinstance(r, Failed) else "ok", holds=holds(d + "/file.nc"),
                    at=0, extra=[])
