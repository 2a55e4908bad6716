import numpy as np
import iris
from iris.coords import CellMethod
from vkit import fx
from vkit import cubes as C
from vkit.main import Failed

from improver.cube_combiner import Combine, CubeCombiner, MaxInTimeWindow
from improver.utilities.cube_manipulation import (
    MergeCubes, add_coordinate_to_cube, clip_cube_data, collapse_realizations, compare_attributes,
    enforce_coordinate_ordering, height_of_maximum, maximum_in_height, sort_coord_in_cube)

M = 2000000002
H = 3600
NAMES = {"max": "maximum", "min": "minimum", "mean": "mean"}


def ma(a, dtype=float):
    a = np.asarray(a)
    return np.ma.masked_array(np.where(a == M, -77, a).astype(dtype), mask=a == M) \
        if (a == M).any() else a.astype(dtype)


def same(a, b):
    return a == b and C.describe(a) == C.describe(b) and \
        np.array_equal(np.ma.filled(a.data, -9), np.ma.filled(b.data, -9)) and \
        np.array_equal(np.ma.getmaskarray(a.data), np.ma.getmaskarray(b.data))


def cols(a):
    """inputs first -> one row per cell"""
    return a.reshape((a.shape[0], -1)).T


def co(cube, name):
    c = cube.coord(name)
    z = 0 if name == "forecast_period" else C.T0
    p = [(int(v) - z) // H for v in c.points]
    b = [(int(v) - z) // H for v in c.bounds[0]] if c.has_bounds() else []
    return {"p": p[0], "b": b}


def tgrid(data, i, lead=(), kind="plain", period=None, bounded=True, frt=-6, **kw):
    """Field valid i hours after T0, over the preceding period hours."""
    t = C.T0 + i * H
    tb = [t - period * H, t] if bounded and period else None
    if kind == "prob":
        return C.prob(data, [1.0, 5.0], lead=list(lead), lead_first=True, t=t,
                      frt=C.T0 + frt * H, tb=tb, **kw)
    return C.grid(data, lead=lead, t=t, frt=C.T0 + frt * H, tb=tb, **kw)


def record(s, r, cubes, keep, v, op, sc, expand, name, cell=None, coords=None):
    if isinstance(r, Failed):
        s.event("combine", out="error", err=r.text, op_name=op)
        return
    coords = ("time", "forecast_period", "forecast_reference_time") if coords is None else coords
    cs = [{"name": n, "ins": [co(k, n) for k in keep], "got": co(r, n)} for n in coords]
    want = C.describe(keep[0])
    got = C.describe(r)
    prob = keep[0].name().startswith("probability_of")
    if op in ("*", "multiply") and prob:
        tc = r.coord(var_name="threshold")
        name_ok = r.name() == keep[0].name().replace("air_temperature", name) and \
            tc.name() == name and tc.points.tolist() == [1.0, 5.0]
        want["dims"] = [name if d == "air_temperature" else d for d in want["dims"]]
    else:
        name_ok = r.name() == name
    cms = list(r.cell_methods)
    cell_ok = (cms == [CellMethod(NAMES[op], coords=cell)]) if cell else not cms
    meta = name_ok and cell_ok and want["dims"] == got["dims"] and want["shape"] == got["shape"] \
        and want["cunits"] == got["cunits"] and r.dtype == np.float32 and \
        r.attributes == keep[0].attributes and want["scalars"] == got["scalars"] and \
        all(r.coord(n).dtype == keep[0].coord(n).dtype for n in coords)
    s.event("combine", out="ok", op_name=op, v=v, sc=sc, got=fx(r.data, sc), expand=expand,
            coords=cs, meta=bool(meta))
    s.event("input", same=all(same(a, b) for a, b in zip(cubes, keep)))


def fields(ctx, s, rng, op, vs, plugin=None):
    """vs: inputs, cells (ints or M)."""
    n = len(vs)
    vs = np.array(vs)
    kind = ["plain", "prob", "real"][rng.randint(3)]
    d = {"plain": (), "prob": (2,), "real": (3,)}[kind]
    lead = [C.realization(3)] if kind == "real" else []
    ny, nx = int(rng.randint(1, 3)), int(rng.randint(2, 4))
    shp = (n,) + d + (ny, nx)
    # every column of vs at least once, the rest at random
    size = int(np.prod(shp[1:]))
    idx = np.concatenate([np.arange(min(vs.shape[1], size)),
                          rng.randint(vs.shape[1], size=max(0, size - vs.shape[1]))])
    data = vs[:, idx].reshape(shp)
    times = sorted(rng.choice(8, n, replace=False).tolist()) if rng.rand() < 0.8 else [3] * n
    if rng.rand() < 0.3:
        times = times[::-1]
    bounded = bool(rng.randint(2))
    frts = [-6 - (int(rng.randint(3)) if rng.rand() < 0.3 else 0) for _ in range(n)]
    cubes = [tgrid(ma(data[k]), times[k], lead, "prob" if kind == "prob" else "plain",
                   int(rng.randint(1, 4)), bounded, frts[k]) for k in range(n)]
    if rng.rand() < 0.2 and kind == "real":
        for c in cubes:
            c.transpose([1, 0, 2])
        data = np.moveaxis(data, 1, 2)
    keep = [c.copy() for c in cubes]
    expand = bool(rng.rand() < 0.75)
    new = "precipitation_amount" if rng.randint(2) else None
    cell = "time" if op in NAMES and rng.rand() < 0.5 else None
    p = Combine(op, new_name=new, cell_method_coordinate=cell, expand_bound=expand)
    r = ctx.call(p, *cubes) if rng.randint(2) else ctx.call(p, C.CubeList(cubes))
    if new is None:
        new = keep[0].name()
        if op in ("*", "multiply") and kind == "prob":
            return
    record(s, r, cubes, keep, cols(data), op, 60 if op == "mean" else 1, expand, new, cell)


def broadcast(ctx, s, rng):
    over = ["threshold", "realization", "air_temperature"][rng.randint(3)]
    op = ["+", "-", "*", "max", "min", "mean", "masked_add"][rng.randint(7)]
    nreal = int(rng.randint(2, 4)) if over == "realization" or rng.randint(2) else 0
    lead = [C.realization(nreal)] if nreal else []
    ny, nx = 2, int(rng.randint(2, 4))
    shp = ((nreal,) if nreal else ()) + (2, ny, nx)
    n = int(rng.randint(2, 4))
    first = rng.randint(0, 10, shp)
    first = np.where(rng.rand(*shp) < 0.1, M, first) if rng.randint(2) else first
    cubes, vals = [tgrid(ma(first), 3, lead, "prob")], [first]
    for k in range(n - 1):
        if over == "realization":
            d = rng.randint(0, 10, (2, ny, nx))
            cubes.append(tgrid(ma(d), 3, (), "prob"))
            vals.append(np.broadcast_to(d[np.newaxis], shp))
        else:
            d = rng.randint(0, 10, ((nreal,) if nreal else ()) + (ny, nx))
            cubes.append(tgrid(ma(d), 3, lead, "plain"))
            vals.append(np.broadcast_to(d[..., np.newaxis, :, :], shp))
    keep = [c.copy() for c in cubes]
    r = ctx.call(Combine(op, broadcast=over, new_name="precipitation_amount"), C.CubeList(cubes))
    record(s, r, cubes, keep, cols(np.array(vals)), op, 60 if op == "mean" else 1, True,
           "precipitation_amount")


def nested(ctx, s, rng, case):
    n = case["n"]
    op = ["+", "max", "min", "masked_add"][rng.randint(4)]
    data = rng.randint(0, 30, (n, 2, 2))
    if rng.randint(2):
        data = np.where(rng.rand(*data.shape) < 0.2, M, data)
    bounded = bool(rng.randint(2))
    orig = [tgrid(ma(data[k]), k + 1, period=1, bounded=bounded) for k in range(n)]
    items = [c.copy() for c in orig]
    reuse = Combine(op, new_name="air_temperature")
    for a, b in case["groups"]:
        r = ctx.call(reuse, *items[a - 1:b])
        if isinstance(r, Failed):
            s.event("combine", out="error", err=r.text)
            return
        # an unbounded field cannot be combined with a bounded one
        if not bounded:
            for c in ("time", "forecast_period"):
                r.coord(c).bounds = None
        items[a - 1:b] = [r]
    if not bounded:
        for c, z in (("time", C.T0), ("forecast_period", 6 * H)):
            items[0].coord(c).bounds = [[z + H, z + n * H]]
    record(s, items[0], orig, orig, cols(data), op, 1, True, "air_temperature")


def common(ctx, s, rng):
    n = int(rng.randint(2, 5))
    op = ["+", "max", "min", "mean", "-"][rng.randint(5)]
    rs = [sorted(rng.choice(5, int(rng.randint(1, 6)), replace=False).tolist()) for _ in range(n)]
    if rng.rand() < 0.6:
        keepr = sorted(rng.choice(5, 2, replace=False).tolist())
        rs = [sorted(set(r) | set(keepr)) for r in rs]
    lo = int(rng.randint(0, 5))
    vals = [rng.randint(0, 30, len(r)) for r in rs]
    cubes = [tgrid(v[:, np.newaxis, np.newaxis] * np.ones((1, 2, 2)), k + 1,
                   [C.realization(r)], period=1) for k, (r, v) in enumerate(zip(rs, vals))]
    sub = op == "-"
    order = list(range(n))
    if not sub:
        rng.shuffle(order)
    r = ctx.call(Combine(op, minimum_realizations=lo if rng.randint(2) else str(lo)),
                 C.CubeList([cubes[i] for i in order]))
    e = dict(rs=rs, vals=vals, minimum=max(lo, 1) if lo else 99, op_name=op, sc=60)
    if isinstance(r, Failed):
        s.event("common", out="refused", err=r.text, kept=[], got=[], **e)
        return
    pts = [int(v) for v in r.coord("realization").points]
    d = r.data.reshape((len(pts), -1))
    s.event("common", out="ok", kept=pts, got=fx(d[:, 0], 60), **e)


def window(ctx, s, rng):
    n, per = int(rng.randint(2, 5)), int(rng.randint(1, 4))
    kind = ["plain", "prob"][rng.randint(2)]
    data = rng.randint(0, 30, (n,) + ((2,) if kind == "prob" else ()) + (2, 2))
    times = rng.choice(9, n, replace=False).tolist()
    cubes = [tgrid(data[k], times[k] + 3, kind=kind, period=per) for k in range(n)]
    extra = bool(rng.randint(2))
    other = CellMethod(["mean", "maximum", "sum"][rng.randint(3)], coords=["height"])
    for c in cubes:
        c.add_cell_method(CellMethod("sum", coords=["time"], comments="old"))
        if extra:
            c.add_cell_method(other)
    keep = [c.copy() for c in cubes]
    r = ctx.call(MaxInTimeWindow(), C.CubeList(cubes))
    if isinstance(r, Failed):
        s.event("window", out="error", err=r.text)
        return
    text = "of air_temperature over %d hour%s within time window" % (per, "" if per == 1 else "s")
    want = ([other] if extra else []) + [
        CellMethod("sum", coords=["time"], comments=text),
        CellMethod("maximum", coords=["time"], comments="of air_temperature")]
    s.event("window", out="ok", v=cols(data), got=fx(r.data), times=[co(k, "time") for k in keep],
            time=co(r, "time"), cells=bool(list(r.cell_methods) == want))
    s.event("input", same=all(same(a, b) for a, b in zip(cubes, keep)))


def merge(ctx, s, rng):
    n = int(rng.randint(2, 5))
    check = bool(rng.randint(2))
    per = [int(rng.randint(1, 3)) if rng.rand() < 0.3 else 1 for _ in range(n)]
    reals = bool(rng.randint(2))
    allcm = [CellMethod("mean", coords=["time"]), CellMethod("maximum", coords=["height"]),
             CellMethod("sum", coords=["time"], comments="x")]
    cubes, slices, given, cms = [], [], [], []
    times = rng.choice(9, n, replace=False).tolist()
    for k in range(n):
        if reals:
            d = rng.randint(0, 30, (2, 1, 2))
            c = tgrid(d, times[0], [C.realization(2, 2 * int(times[k]))], period=1)
            for j in range(2):
                slices.append([2 * int(times[k]) + j] + d[j].ravel().tolist())
        else:
            d = rng.randint(0, 30, (1, 2))
            c = tgrid(d, times[k], period=per[k])
            slices.append([int(times[k])] + d.ravel().tolist())
        at = dict((a, ["p", "q"][int(rng.rand() < 0.3)]) for a in ("a1", "a2", "title")
                  if rng.rand() < 0.8)
        c.attributes = at
        given.append(["%s=%s" % i for i in sorted(at.items())])
        mm = [m for m in allcm if rng.rand() < 0.6]
        c.cell_methods = tuple(mm)
        cms.append([str(m) for m in mm])
        if rng.randint(2):
            c.coord("time").var_name = "tm%d" % k
        cubes.append(c)
    keep = [c.copy() for c in cubes]
    r = ctx.call(MergeCubes(), C.CubeList(cubes), check_time_bounds_ranges=check,
                 slice_over_realization=reals)
    e = dict(periods=[1] if reals else per, check=check, slices=slices, given=given, cms=cms)
    if isinstance(r, Failed):
        s.event("merge", out="refused", err=r.text, **e)
    else:
        if reals:
            pts = r.coord("realization").points.tolist()
        else:
            pts = [(int(v) - C.T0) // H for v in r.coord("time").points]
        d = r.data.reshape((len(pts), -1))
        s.event("merge", out="ok", got=[[p] + fx(x) for p, x in zip(pts, d)],
                attrs=["%s=%s" % i for i in r.attributes.items()],
                cm=[str(m) for m in r.cell_methods], **e)
    s.event("input", same=all(same(a, b) for a, b in zip(cubes, keep)))


def heights(ctx, s, rng):
    n = int(rng.randint(2, 6))
    h = sorted(rng.choice(12, n, replace=False).tolist())
    h = [10 * v for v in h]
    lead = [C.DimCoord(np.array(h, dtype=np.float32), "height", units="m")]
    reals = rng.rand() < 0.3
    shp = ((2,) if reals else ()) + (n, 2, 2)
    v = rng.randint(0, 30, shp)
    cube = C.grid(v, lead=([C.realization(2)] if reals else []) + lead)
    lo = None if rng.rand() < 0.4 else int(rng.randint(0, 12)) * 10
    hi = None if rng.rand() < 0.4 else int(rng.randint(0, 12)) * 10
    new = "max_temperature" if rng.randint(2) else None
    keep = cube.copy()
    r = ctx.call(maximum_in_height, cube, lo, hi, new)
    cell = np.moveaxis(v, 1 if reals else 0, -1).reshape((-1, n))
    e = dict(h=h, v=cell, lo=-9999 if lo is None else lo, hi=9999 if hi is None else hi)
    if isinstance(r, Failed):
        s.event("max_in_height", out="refused", err=r.text, got=[], name_ok=True, **e)
    else:
        s.event("max_in_height", out="ok", got=fx(r.data),
                name_ok=r.name() == (new or keep.name()), **e)
    s.event("input", same=same(cube, keep))
    if reals:
        return
    top = maximum_in_height(cube)
    # no ties: which end is asked for cannot matter
    for low in (True, False):
        r = ctx.call(height_of_maximum, cube, top, low, new)
        if isinstance(r, Failed):
            s.event("height_of_max", out="error", err=r.text)
        else:
            s.event("height_of_max", out="ok", h=h, v=cell, got=fx(r.data))


def collapse(ctx, s, rng):
    n = int(rng.randint(1, 6))
    method = ["mean", "sum", "min", "max", "median", "std_dev"][rng.randint(6)]
    v = rng.randint(0, 20, (n, 2, 3))
    if method != "median" and rng.rand() < 0.4 and n > 1:
        v = np.where(rng.rand(n, 2, 3) < 0.3, M, v)
    if method == "std_dev":
        v = np.where((v == M).sum(axis=0) > n - 2, 3, v) if n > 1 else v
    kind = rng.randint(3)
    cube = C.grid(ma(v), lead=[C.realization(n)])
    cube.add_cell_method(CellMethod("maximum", coords=["time"]))
    if kind == 1:
        cube.transpose([1, 0, 2])
    keep = cube.copy()
    r = ctx.call(collapse_realizations, cube, method)
    if isinstance(r, Failed):
        s.event("collapse", out="error", err=r.text)
        return
    w, g = C.describe(keep), C.describe(r)
    meta = [d for d in w["dims"] if d != "realization"] == g["dims"] and \
        w["scalars"] == g["scalars"] and r.dtype == np.float32 and \
        r.cell_methods == keep.cell_methods and r.attributes == keep.attributes and \
        r.name() == keep.name() and r.units == keep.units
    s.event("collapse", out="ok", method=method, v=cols(v), got=fx(r.data, 100), meta=bool(meta))
    s.event("input", same=same(cube, keep))


def shapes(ctx, s, rng):
    nr, nt = int(rng.randint(1, 4)), int(rng.randint(1, 4))
    v = rng.randint(-30, 30, (nr, nt, 2, 2))
    if rng.randint(2):
        v = np.where(rng.rand(*v.shape) < 0.2, M, v)
    cube = C.grid(ma(v), lead=[C.realization(nr), C.percentiles([10, 50, 90][:nt])])
    keep = cube.copy()
    lo, hi = sorted(rng.randint(-20, 20, 2).tolist())
    r = ctx.call(clip_cube_data, cube, lo, hi)
    if isinstance(r, Failed):
        s.event("clip", out="error", err=r.text)
    else:
        s.event("clip", out="ok", v=v.ravel(), lo=lo, hi=hi, got=fx(r.data),
                meta=bool(C.describe(r) == C.describe(keep) and r.attributes == keep.attributes
                          and r.dtype == keep.dtype))
    s.event("input", same=same(cube, keep))
    k = int(rng.randint(0, 5))
    new = [C.realization(3, 4), C.DimCoord(np.array([1, 2], dtype=np.int32), "realization",
                                           units="1")][rng.randint(2)]
    base = C.grid(ma(v[0]), lead=[C.percentiles([10, 50, 90][:nt])])
    k = int(rng.randint(0, 4))
    r = ctx.call(add_coordinate_to_cube, base, new, k, bool(rng.randint(2)))
    if isinstance(r, Failed):
        s.event("spread_out", out="error", err=r.text)
    else:
        dims = ["percentile", "projection_y_coordinate", "projection_x_coordinate"]
        dims.insert(k, "realization")
        ok = C.describe(r)["dims"] == dims and r.coord("realization") == new and \
            r.dtype == base.dtype and \
            C.describe(r)["scalars"] == C.describe(base)["scalars"]
        d = np.ma.masked_array(np.ma.getdata(r.data), np.ma.getmaskarray(r.data))
        d = [d.take(i, axis=k) if not np.ma.isMaskedArray(d) else
             np.ma.masked_array(d.data.take(i, axis=k), d.mask.take(i, axis=k))
             for i in range(len(new.points))] if ok else []
        v0 = v[0].ravel()
        s.event("spread_out", out="ok", v=v0, got=[fx(x) for x in d], meta=bool(ok))
    # sorting along a coordinate
    pts = rng.choice(20, int(rng.randint(2, 6)), replace=False)
    d = rng.randint(0, 30, (len(pts), 1, 2))
    c = C.grid(d, lead=[C.realization(len(pts))])
    c.add_aux_coord(C.AuxCoord(pts.astype(np.int32), long_name="rank", units="1"), 0)
    down = bool(rng.randint(2))
    if rng.randint(2):
        c.transpose([1, 0, 2])
    r = ctx.call(sort_coord_in_cube, c, "rank", down)
    if isinstance(r, Failed):
        s.event("sorted", out="error", err=r.text)
    else:
        x = np.moveaxis(r.data, r.coord_dims("rank")[0], 0)
        s.event("sorted", out="ok", pts=[int(i) for i in r.coord("rank").points], descending=down,
                **{"from": pts}, v=d.reshape((len(pts), -1)), got=[fx(i) for i in x])
    # reordering dimensions
    cube = keep.copy()
    dims = C.describe(cube)["dims"]
    pool = ["realization", "percentile", "projection_y_coordinate", "projection_x_coordinate",
            "time", "height"]
    asked = [pool[i] for i in rng.permutation(6)[:rng.randint(1, 6)]]
    start = bool(rng.randint(2))
    r = ctx.call(enforce_coordinate_ordering, cube, asked[0] if len(asked) == 1 else asked, start)
    if isinstance(r, Failed):
        s.event("ordered", out="error", err=r.text)
    else:
        got = C.describe(cube)["dims"]
        back = np.ma.transpose(cube.data, [got.index(n) for n in dims]) \
            if sorted(got) == sorted(dims) else None
        s.event("ordered", out="ok", dims=dims, asked=asked, start=start, got=got,
                data_ok=bool(back is not None and fx(back) == fx(keep.data)))
    n = int(rng.randint(2, 4))
    cubes, given = [], []
    for _ in range(n):
        c = C.grid(np.zeros((1, 2)))
        at = dict((a, "pq"[int(rng.rand() < 0.4)]) for a in ("a1", "a2", "b1") if rng.rand() < .8)
        c.attributes = at
        cubes.append(c)
        given.append(["%s=%s" % i for i in sorted(at.items())])
    flt = None if rng.randint(2) else "a"
    r = ctx.call(compare_attributes, C.CubeList(cubes), flt)
    if flt:
        given = [[a for a in g if "a" in a.split("=")[0]] for g in given]
    if isinstance(r, Failed):
        s.event("unmatched", out="error", err=r.text)
    else:
        s.event("unmatched", out="ok", given=given,
                got=[["%s=%s" % i for i in sorted(x.items())] for x in r])


def drive(ctx):
    rng = ctx.rng
    k = 1 if not ctx.thorough else 15
    by = {}
    for c in ctx.cases:
        if "cell" in c:
            by.setdefault((c["cell"]["op"], len(c["cell"]["vs"])), []).append(c["cell"]["vs"])
    alias = {"+": "add", "-": "subtract", "*": "multiply"}
    for (op, n), vs in sorted(by.items()):
        rng.shuffle(vs)
        for j in range(5 * k):
            part = vs[j * 16:(j + 1) * 16] or vs[:16]
            with ctx.session("fields") as s:
                fields(ctx, s, rng, alias[op] if op in alias and rng.randint(2) else op,
                       np.array(part).T.tolist())
    for i in range(40 * k):
        with ctx.session("broadcast") as s:
            broadcast(ctx, s, rng)
    for c in ctx.pick([c for c in ctx.cases if "groups" in c], 25 * k):
        with ctx.session("nested") as s:
            nested(ctx, s, rng, c)
    for f, n in ((common, 40), (window, 15), (merge, 40), (heights, 25), (collapse, 40),
                 (shapes, 25)):
        for i in range(n * k):
            with ctx.session(f.__name__) as s:
                f(ctx, s, rng)
    # one plugin, several uses
    for op in ("+", "multiply"):
        with ctx.session("reuse") as s:
            p = Combine(op)
            for nm in ("air_temperature", "wind_speed", "air_pressure"):
                d = rng.randint(0, 9, (2, 2, 2))
                cubes = [C.grid(x, name=nm, t=C.T0, frt=C.T0 - 6 * H) for x in d]
                keep = [c.copy() for c in cubes]
                record(s, ctx.call(p, *cubes), cubes, keep, cols(d), op, 1, True, nm)
    with ctx.session("reuse") as s:
        p = Combine("+", broadcast="threshold", new_name="x")
        for nm in ("air_temperature", "wind_speed"):
            a = C.prob(np.ones((2, 2, 2)), [1.0, 2.0], name=nm)
            b = C.grid(np.ones((2, 2)))
            r = ctx.call(p, a, b)
            s.event("combine", out="error" if isinstance(r, Failed) else "ok", op_name="+",
                    v=[[1, 1]] * 8, sc=1, got=[] if isinstance(r, Failed) else fx(r.data),
                    coords=[], expand=True, meta=True)
    # which of several equal maxima
    h = [10, 20, 40]
    for v in ([3, 5, 5], [5, 5, 1], [5, 2, 5], [4, 4, 4]):
        cube = C.grid(np.array(v)[:, np.newaxis, np.newaxis] * np.ones((1, 2, 2)),
                      lead=[C.DimCoord(np.array(h, dtype=np.float32), "height", units="m")])
        for low in (True, False):
            with ctx.session("ties") as s:
                r = ctx.call(height_of_maximum, cube, maximum_in_height(cube), low)
                s.event("tied_height", h=h, v=v, lowest=low, got=fx(r.data)[0])
    a = tgrid(np.ones((2, 2)), 1, period=1)
    b = tgrid(np.ones((2, 2)), 2, period=1)
    u = tgrid(np.ones((2, 2)), 3, bounded=False)
    l3 = tgrid(np.ones((2, 2)), 3, period=3)
    wide = tgrid(np.ones((2, 3)), 3, period=1)
    pr = tgrid(np.ones((2, 2, 2)), 3, kind="prob")
    r3 = tgrid(np.ones((3, 2, 2, 2)), 3, [C.realization(3)], "prob")
    r1 = tgrid(np.ones((1, 2, 2)), 3, [C.realization(1)])
    i8 = C.grid(np.ones((2, 2)), dtype=np.int64)
    CL = C.CubeList
    bad = {
        "unknown_operation": lambda: Combine("divide"),
        "one_field": lambda: Combine("+")(a),
        "different_grids": lambda: Combine("+")(a, wide),
        "mixture_of_bounds": lambda: Combine("+")(a, u),
        "cell_method_of_a_sum": lambda: Combine("+", cell_method_coordinate="time")(a, b),
        "no_realization_wanted": lambda: Combine("+", minimum_realizations=0)(a, b),
        "realizations_not_a_number": lambda: Combine("+", minimum_realizations="kittens"),
        "broadcast_over_missing": lambda: Combine("+", broadcast="kittens")(a, b),
        "broadcast_over_other_dimension": lambda: Combine("+", broadcast="threshold")(r3, r1),
        "broadcast_scalar_threshold": lambda: Combine("*", broadcast="threshold")(pr, pr[0]),
        "wide_result": lambda: CubeCombiner("mean")(CL([i8, i8]), "x"),
        "window_without_bounds": lambda: MaxInTimeWindow()(CL([u, u])),
        "window_with_some_bounds": lambda: MaxInTimeWindow()(CL([a, u])),
        "window_of_mixed_periods": lambda: MaxInTimeWindow()(CL([a, l3])),
        "unknown_statistic": lambda: collapse_realizations(r3, "mode"),
        "place_beyond_dimensions": lambda: add_coordinate_to_cube(a, C.realization(2), 3),
        "single_height": lambda: height_of_maximum(
            C.grid(np.ones((1, 2, 2)), lead=[C.DimCoord(np.array([10.0]), "height", units="m")]),
            a),
    }
    for why, f in bad.items():
        with ctx.session("reject") as s:
            r = ctx.call(f)
            s.event("rejected", why=why, out="error" if isinstance(r, Failed) else "ok")
