import numpy as np
from vkit import fx
from vkit import cubes as C
from vkit.main import Failed

from improver.blending.spatial_weights import SpatiallyVaryingWeightsFromMask
from improver.blending.weights import (
    ChooseDefaultWeightsLinear, ChooseDefaultWeightsNonLinear, ChooseDefaultWeightsTriangular,
    ChooseWeightsLinear, WeightsUtilities)

S = 10000
H = 3600


def blend_cube(n, coord="forecast_reference_time", scale=1, values=None, ny=2, nx=3, extra=0,
               descending=False):
    """n slices along coord at the leading dimension (or scalar for n = 1 when extra is -1)."""
    pts = list(range(n)) if values is None else list(values)
    data = np.arange(n * ny * nx).reshape((n, ny, nx)).astype(np.float32)
    if coord == "forecast_reference_time":
        frt = np.array([C.T0 + H * scale * p for p in pts], dtype=np.int64)
        c = C.DimCoord(frt, coord, units=C.TUNITS)
        cube = C.grid(data, lead=[c], frt=None, t=C.T0 + 86400)
        fp = (C.T0 + 86400 - frt).astype(np.int32)
        cube.add_aux_coord(C.AuxCoord(fp, "forecast_period", units="seconds"), 0)
    elif coord == "time":
        cube = C.grid(data, t=[C.T0 + H * scale * p for p in pts], frt=C.T0 - H)
    elif coord == "forecast_period":
        c = C.DimCoord(np.array([H * scale * p for p in pts], dtype=np.int32), coord,
                       units="seconds")
        cube = C.grid(data, lead=[c], t=None)
    else:
        c = C.DimCoord(np.array(pts, dtype=np.int32), long_name=coord, units="1")
        cube = C.grid(data, lead=[c])
        cube.add_aux_coord(C.AuxCoord(np.array(["m%d" % p for p in pts]),
                                      long_name="model_configuration", units="no_unit"), 0)
    if descending:
        cube = cube[::-1]
    return cube


def same(a, b):
    return a == b and np.array_equal(np.ma.filled(a.data, -9), np.ma.filled(b.data, -9)) and \
        np.array_equal(np.ma.getmaskarray(a.data), np.ma.getmaskarray(b.data))


def wmeta(w, cube, coord):
    return w.name() == "weights" and str(w.units) == "1" and \
        np.array_equal(w.coord(coord).points, cube.coord(coord).points) and \
        not w.coords("projection_y_coordinate") and not w.attributes


def default_weights(ctx, s, c, coord, inverse=False):
    """c: n, y0, yn, c10, wd"""
    n = c["n"]
    cube = blend_cube(n, coord)
    if n == 1 and ctx.rng.randint(2):
        cube = cube[0]
    keep = cube.copy()

    def one(op, f, **kw):
        w = ctx.call(f)
        if isinstance(w, Failed):
            s.event(op, out="error", err=w.text, **kw)
            return
        s.event(op, out="ok", got=fx(np.atleast_1d(w.data), S), meta=bool(wmeta(w, keep, coord)),
                **kw)

    if c["y0"] + c["yn"] > 0:
        one("linear", lambda: ChooseDefaultWeightsLinear(c["y0"], c["yn"])(cube, coord), n=n,
            y0=c["y0"], yn=c["yn"])
    one("nonlinear", lambda: ChooseDefaultWeightsNonLinear(c["c10"] / 10.0)(
        cube, coord, inverse_ordering=inverse), n=n, c10=c["c10"], inverse=inverse)
    if coord in ("time", "forecast_period", "model_id"):
        t = [int(v) for v in cube.coord(coord).points]
        mid = t[n // 2]
        units = cube.coord(coord).units
        width, m = c["wd"] * (H if coord != "model_id" else 1), mid
        u = str(units)
        if coord == "forecast_period" and c["wd"] % 2:
            u, m, width = "hours", mid / H, width / H      # the plugin converts
        one("triangular", lambda: ChooseDefaultWeightsTriangular(width, units=u)(cube, coord, m),
            t=[(v - t[0]) // (H if coord != "model_id" else 1) for v in t],
            mid=(mid - t[0]) // (H if coord != "model_id" else 1), width=c["wd"])
    s.event("input", same=same(cube, keep))


def dict_weights(ctx, s, rng):
    nm = int(rng.randint(1, 5))
    models = []
    for m in range(nm):
        k = int(rng.randint(2, 5))
        x = sorted(rng.choice(25, k, replace=False).tolist())
        y = rng.randint(0, 5, k).tolist()
        models.append({"x": x, "y": y})
    nt = 1 if rng.randint(2) else int(rng.randint(2, 5))
    times = sorted(rng.choice(30, nt, replace=False).tolist())
    tot = [sum(np.interp(t, m["x"], m["y"]) for m in models) for t in times]
    if min(tot) < 0.4:
        models[0]["y"] = [v + 1 for v in models[0]["y"]]
        tot = [sum(np.interp(t, m["x"], m["y"]) for m in models) for t in times]
        if min(tot) < 0.4:
            return
    units = ["hours", "seconds", None][rng.randint(3)]
    f = {"hours": 1, "seconds": H, None: H}[units]
    conf = {}
    for i, m in enumerate(models):
        conf["m%d" % i] = {"forecast_period": [v * f for v in m["x"]], "weights": list(m["y"])}
        if units:
            conf["m%d" % i]["units"] = units
    cubes = C.CubeList()
    spot = bool(rng.rand() < 0.3)
    ens = int(rng.randint(2)) if not spot else 0
    for i in range(nm):
        lead = [C.realization(2)] if ens else []
        ts = [C.T0 + H * t for t in times]
        shp = (2,) * ens + ((nt,) if nt > 1 else ()) + ((3,) if spot else (2, 3))
        c = C.grid(np.zeros(shp), lead=lead, t=ts if nt > 1 else ts[0], frt=C.T0,
                   space="spot" if spot else "xy")
        c.add_aux_coord(C.AuxCoord(np.array([1000 * i], np.int32), long_name="model_id", units="1"))
        c.add_aux_coord(C.AuxCoord(np.array(["m%d" % i]), long_name="model_configuration",
                                   units="no_unit"))
        cubes.append(c)
    order = list(range(nm))
    rng.shuffle(order)
    arg = C.CubeList([cubes[i] for i in order])
    if rng.randint(2):
        arg = cubes.merge_cube()
    keep = [c.copy() for c in cubes]
    w = ctx.call(ChooseWeightsLinear("forecast_period", conf), arg)
    plain = dict(models=models, times=times)
    if isinstance(w, Failed):
        s.event("dict", out="error", err=w.text, **plain)
        return
    d = w.data
    fpd, md = w.coord_dims("forecast_period"), w.coord_dims("model_id")
    got = np.empty((nt, nm))
    ids = w.coord("model_id").points.tolist()
    for k in range(nt):
        for m in range(nm):
            idx = [0] * w.ndim
            if fpd:
                idx[fpd[0]] = k
            if md:
                idx[md[0]] = ids.index(1000 * m)
            got[k, m] = d[tuple(idx)]
    meta = w.name() == "weights" and str(w.units) == "1" and w.ndim == len(fpd) + len(md) and \
        ids == sorted(ids)
    s.event("dict", out="ok", got=[fx(g, S) for g in got], meta=bool(meta), **plain)
    s.event("input", same=all(same(a, b) for a, b in zip(cubes, keep)))


def spatial(ctx, s, c, blend="forecast_reference_time", lead_extra=None, axis=0):
    """c: w, mask[k][p], nx, ny, fz (tenths)"""
    K, ny, nx = len(c["w"]), c["ny"], c["nx"]
    cube = blend_cube(K, blend, ny=ny, nx=nx)
    m = np.array(c["mask"], dtype=bool).reshape((K, ny, nx))
    cube.data = np.ma.masked_array(cube.data, mask=m)
    wc = WeightsUtilities.build_weights_cube(
        cube, np.array(c["w"], np.float32) / np.float32(sum(c["w"])), blend)
    if lead_extra:
        full = C.CubeList()
        for i in range(lead_extra):
            x = cube.copy()
            x.add_aux_coord(C.AuxCoord(np.array([i], np.int32), "realization", units="1"))
            full.append(x)
        cube = full.merge_cube()
        if axis:
            cube.transpose([1, 0, 2, 3])
    keep = cube.copy()
    r = ctx.call(SpatiallyVaryingWeightsFromMask(blend, fuzzy_length=c["fz"] / 10.0), cube, wc)
    plain = {k: c[k] for k in ("w", "mask", "nx", "fz")}
    op = "spatial" if m.any() else "unmasked"
    if op == "unmasked":
        plain["w"] = [1.0 * v / sum(c["w"]) for v in c["w"]]
    if isinstance(r, Failed):
        plain.pop("w")
        s.event(op, out="error", err=r.text, **plain)
        return
    if op == "unmasked":
        s.event(op, out="ok", got=[fx(v.ravel(), S * sum(c["w"])) for v in r.data], w=c["w"])
    else:
        dims = C.describe(r)["dims"]
        meta = dims == [blend, "projection_y_coordinate", "projection_x_coordinate"] and \
            not r.coords("realization")
        s.event(op, out="ok", got=[fx(v.ravel(), S) for v in r.data], meta=bool(meta), **plain)
    s.event("input", same=same(cube, keep))


def drive(ctx):
    rng = ctx.rng
    k = 1 if not ctx.thorough else 20
    one = [c for c in ctx.cases if "y0" in c]
    two = [c for c in ctx.cases if "mask" in c]
    coords = ["forecast_reference_time", "time", "forecast_period", "model_id"]
    for i, c in enumerate(ctx.pick(one, 70 * k)):
        with ctx.session("default") as s:
            default_weights(ctx, s, c, coords[i % 4], bool(rng.randint(2)) and c["n"] > 1)
    for c in ctx.pick(two, 40 * k):
        with ctx.session("spatial") as s:
            spatial(ctx, s, c)
    for i in range(40 * k):
        K, ny, nx = int(rng.randint(2, 5)), int(rng.randint(2, 6)), int(rng.randint(2, 7))
        dens = [0.05, 0.2, 0.5][rng.randint(3)]
        m = rng.rand(K, ny * nx) < dens
        if rng.randint(2):
            m[rng.randint(K)] = False
        if rng.rand() < 0.1:
            m[rng.randint(K)] = True
        c = dict(w=rng.randint(1, 6, K).tolist(), mask=m.tolist(), nx=nx, ny=ny,
                 fz=[11, 15, 20, 23, 35, 60][rng.randint(6)])
        extra = int(rng.randint(2, 4)) if rng.rand() < 0.4 else None
        with ctx.session("spatial") as s:
            spatial(ctx, s, c, coords[rng.randint(3)], extra, int(rng.randint(2)))
    for i in range(40 * k):
        with ctx.session("dict") as s:
            dict_weights(ctx, s, rng)
    for i in range(25 * k):
        shp = tuple(rng.randint(1, 5, rng.randint(1, 4)).tolist())
        ax = None if rng.rand() < 0.3 else int(rng.randint(len(shp)))
        w = rng.randint(0, 6, shp)
        tot = w.sum(axis=ax)
        if np.any(tot == 0):
            w = w + 1
        dt = [np.float32, np.float64, int][rng.randint(3)]
        with ctx.session("normalise") as s:
            g = ctx.call(WeightsUtilities.normalise_weights, w.astype(dt), axis=ax)
            flat = (lambda a: np.moveaxis(a, ax, -1).reshape((-1, shp[ax]))) if ax is not None \
                else (lambda a: a.reshape((1, -1)))
            if isinstance(g, Failed):
                s.event("normalise", out="error", w=flat(w), err=g.text)
            else:
                s.event("normalise", out="ok", w=flat(w), got=[fx(v, S) for v in flat(g)])
    cube = blend_cube(3)
    two_d = np.array([[1.0, 1.0], [0.0, 2.0]])
    vary = blend_cube(2, "forecast_reference_time", ny=2, nx=2)
    full = C.CubeList()
    for i, m in enumerate(([[0, 0], [0, 0]], [[0, 1], [0, 0]], [[1, 0], [0, 0]])):
        x = vary.copy(data=np.ma.masked_array(vary.data, mask=np.broadcast_to(m, (2, 2, 2))))
        x.add_aux_coord(C.AuxCoord(np.array([i], np.int32), "realization", units="1"))
        full.append(x)
    w2 = WeightsUtilities.build_weights_cube(vary, np.array([0.5, 0.5], np.float32),
                                             "forecast_reference_time")
    sp = lambda cs: SpatiallyVaryingWeightsFromMask("forecast_reference_time", fuzzy_length=2)(  # noqa
        C.CubeList(cs).merge_cube(), w2)
    bad = {
        "negative": lambda: WeightsUtilities.normalise_weights(np.array([1.0, -0.5, 2.0])),
        "negative_along_axis": lambda: WeightsUtilities.normalise_weights(
            np.array([[2.0, 2.0], [-0.5, 2.0]]), axis=0),
        "zero_sum": lambda: WeightsUtilities.normalise_weights(np.zeros(3)),
        "zero_sum_along_axis": lambda: WeightsUtilities.normalise_weights(two_d * [[1, 0]], axis=0),
        "wrong_length": lambda: WeightsUtilities.build_weights_cube(
            cube, np.array([0.5, 0.5]), "forecast_reference_time"),
        "negative_start": lambda: ChooseDefaultWeightsLinear(-1.0, 2.0),
        "no_end": lambda: ChooseDefaultWeightsLinear(1.0, None),
        "negative_end": lambda: ChooseDefaultWeightsLinear(1.0, -4.0)(
            cube, "forecast_reference_time"),
        "factor_zero": lambda: ChooseDefaultWeightsNonLinear(0.0),
        "factor_above_one": lambda: ChooseDefaultWeightsNonLinear(1.1),
        "no_factor": lambda: ChooseDefaultWeightsNonLinear(None),
        "linear_of_no_cube": lambda: ChooseDefaultWeightsLinear(1, 1)([1], "time"),
        "nonlinear_of_no_cube": lambda: ChooseDefaultWeightsNonLinear(0.5)([1], "time"),
        "triangle_of_no_cube": lambda: ChooseDefaultWeightsTriangular(1)([1], "time", 0),
        "uneven_dictionary": lambda: ChooseWeightsLinear(
            "forecast_period", {"a": {"forecast_period": [1, 2], "weights": [1]}}),
        "incomplete_dictionary": lambda: ChooseWeightsLinear("forecast_period", {"a": {
            "forecast_period": [1, 2]}}),
        "mask_varies_beyond_blend": lambda: sp(full[1:]),
        "mask_varies_beyond_blend_first_unmasked": lambda: sp(full[:2]),
    }
    for why, f in bad.items():
        with ctx.session("reject") as s:
            r = ctx.call(f)
            s.event("rejected", why=why, out="error" if isinstance(r, Failed) else "ok")
