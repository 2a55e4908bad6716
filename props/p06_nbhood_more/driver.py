import numpy as np
from vkit import rows, shape
from vkit import cubes as C
from vkit.main import Failed

from improver.cli.nbhood_land_and_sea import process as land_and_sea
from improver.nbhood.recursive_filter import RecursiveFilter
from improver.nbhood.use_nbhood import ApplyNeighbourhoodProcessingWithAMask
from improver.utilities import neighbourhood_tools as nt
from improver.utilities import pad_spatial as ps
from improver.utilities.spatial import OccurrenceWithinVicinity

DS = 4
M = 2000000002


def field(data):
    arr = np.array(data, dtype=float)
    mask = arr == M
    # values under the mask follow no pattern: they may be equal where the mask differs
    v = np.where(mask, 0.25, arr / DS).astype(np.float32)
    return np.ma.masked_array(v, mask=mask) if mask.any() else v


def lead_cube(data, kind, hours, period=False):
    arr = [field(d) for d in data]
    arr = np.ma.stack(arr)
    if not np.ma.is_masked(arr):
        arr = np.ma.getdata(arr)
    if kind == "time":
        frt = C.T0 - 3600 * 24
        t = [frt + 3600 * h for h in hours]
        tb = [[x - 3600, x] for x in t] if period else None
        if len(t) == 1:
            return C.grid(arr[0], "air_temperature", "K", t=t[0], frt=frt,
                          tb=tb[0] if tb else None)
        return C.grid(arr, "air_temperature", "K", t=t, frt=frt, tb=tb)
    kw = dict(frt=C.T0 - 3600 * hours[0])
    if period:
        kw["tb"] = [C.T0 - 3600, C.T0]
    if len(data) == 1 and kind == "scalar":
        return C.grid(arr[0], "air_temperature", "K", **kw)
    lc = C.realization(len(data)) if kind == "realization" else \
        C.thresholds([280.0 + i for i in range(len(data))])
    return C.grid(arr, "air_temperature", "K", lead=[lc], **kw)


def zone_coord(nz):
    c = C.DimCoord(np.array([50.0 + 100 * i for i in range(nz)], dtype=np.float32),
                   long_name="topographic_zone", units="m",
                   bounds=np.array([[100.0 * i, 100.0 * i + 100] for i in range(nz)],
                                   dtype=np.float32))
    return c


def same_coords(r, ref, extra=()):
    if r.name() != ref.name() or r.units != ref.units:
        return False
    if not C.attrs_post(ref.attributes, r.attributes):
        return False
    for c in ref.coords():
        if not r.coords(c.name()) or r.coord(c.name()) != c:
            return False
    want = {c.name() for c in ref.coords()} | set(extra)
    return {c.name() for c in r.coords()} == want


def masks(ctx, s, data, kind, hours, zones, weights, method, radii, lts, sum_, period):
    cube = lead_cube(data, kind, hours, period)
    ref = cube.copy()
    nz = len(zones)
    zc = C.grid(np.array(zones), "topography_mask", "1", lead=[zone_coord(nz)], t=None,
                dtype=np.int32)
    wc = None
    if weights is not None:
        w = np.array(weights, dtype=float)
        w = np.ma.masked_array(np.where(w == M, 9.0, w / 10.0), mask=(w == M))
        wc = C.grid(w, "topographic_zone_weights", "1", lead=[zone_coord(nz)], t=None)
    rad = [float(r) for r in radii] if lts else float(radii[0])
    p = ApplyNeighbourhoodProcessingWithAMask("topographic_zone", method, rad, lead_times=lts,
                                              collapse_weights=wc, sum_only=sum_)
    r = ctx.call(p, cube, zc)
    op = "zones" if weights is None else "collapsed"
    plain = dict(data=data, zones=zones, weights=weights or [], method=method, radii=list(radii),
                 lead_times=lts or [], hours=hours if kind == "time" else [hours[0]] * len(data),
                 sum=sum_, ds=DS, spacing=2000, kind=kind, period=period)
    if isinstance(r, Failed):
        s.event(op, out="error", err=r.text, **plain)
        return
    d = r.data
    if op == "zones":
        names = [c.name() for c in r.coords(dim_coords=True)]
        zd = r.coord_dims("topographic_zone")
        if d.ndim == 4 and zd != (1,) and names:
            d = np.moveaxis(d, zd[0], 1)
        if d.ndim == 3:
            d = d[np.newaxis]
        same = same_coords(r, ref, ["topographic_zone"]) and \
            np.array_equal(r.coord("topographic_zone").points, zone_coord(nz).points) and \
            np.array_equal(r.coord("topographic_zone").bounds, zone_coord(nz).bounds)
    else:
        if d.ndim == 2:
            d = d[np.newaxis]
        same = same_coords(r, ref) and [c.name() for c in r.coords(dim_coords=True)] == \
            [c.name() for c in ref.coords(dim_coords=True)]
    s.event(op, out="ok", shape=shape(d), values=rows(d, 100000), meta_same=bool(same), **plain)


def landsea(ctx, s, data, land, method, radius, sum_):
    cube = lead_cube(data, "realization", [4])
    mask = C.grid(np.array(land), "land_binary_mask", "1", t=None, dtype=np.int8)
    kw = {}
    if sum_:
        kw["area_sum"] = True
    r = ctx.call(land_and_sea, cube, mask, neighbourhood_shape=method, radii=[str(radius)], **kw)
    plain = dict(data=data, land=land, method=method, radii=[radius], lead_times=[],
                 hours=[4] * len(data), sum=sum_, ds=DS, spacing=2000)
    if isinstance(r, Failed):
        s.event("landsea", out="error", err=r.text, **plain)
        return
    d = r.data if r.ndim == 3 else r.data[np.newaxis]
    s.event("landsea", out="ok", shape=shape(d), values=rows(d, 100000), **plain)


def landsea_zones(ctx, s):
    """Land split into zones of altitude, sea left whole."""
    rng = ctx.rng
    ny, nx, nz, n = int(rng.randint(4, 8)), int(rng.randint(4, 8)), int(rng.randint(1, 4)), int(rng.randint(1, 3))
    data = rng.randint(0, DS * 2 + 1, (n, ny, nx))
    which = rng.randint(0, nz, (ny, nx))
    which[rng.rand(ny, nx) < [0.5, 0.1, 0.9, -1, 2][rng.randint(5)]] = -1
    zones = np.array([which == z for z in range(nz)]).astype(int)
    w = rng.randint(1, 11, (nz, ny, nx))
    w[:, which == -1] = M
    method, radius, sum_ = ["square", "circular"][rng.randint(2)], int(rng.choice([2000, 4000])), bool(rng.rand() < 0.2)
    cube = lead_cube(data.tolist(), "realization", [4])
    said = {"topographic_zones_include_seapoints": "False"}
    zc = C.grid(zones, "topography_mask", "1", lead=[zone_coord(nz)], t=None, dtype=np.int32, attrs=said)
    wc = C.grid(np.ma.masked_array(np.where(w == M, 9.0, w / 10.0), mask=(w == M)), "topographic_zone_weights", "1", lead=[zone_coord(nz)], t=None, attrs=said)
    how = rng.randint(12)
    args = [cube, zc, wc]
    why = None
    if how == 0:
        args, why = args[:2], "zones_without_weights"
    elif how in (1, 2):
        args[how].attributes["topographic_zones_include_seapoints"] = "True"
        why = "zones_on_sea"
    elif how == 3:
        args[1] = C.grid((which >= 0).astype(int), "land_binary_mask", "1", t=None, dtype=np.int8)
        why = "weights_of_no_use"
    r = ctx.call(land_and_sea, *args, neighbourhood_shape=method, radii=[str(radius)], area_sum=sum_)
    if why:
        s.event("rejected", why=why, out="error" if isinstance(r, Failed) else "ok")
        return
    plain = dict(data=data.tolist(), zones=zones.tolist(), weights=w.tolist(), land=(which >= 0).astype(int).tolist(), method=method, radii=[radius], lead_times=[], hours=[4] * n, sum=sum_, ds=DS, spacing=2000)
    if isinstance(r, Failed):
        s.event("landsea_zones", out="error", err=r.text, **plain)
        return
    d = r.data if r.ndim == 3 else r.data[np.newaxis]
    s.event("landsea_zones", out="ok", shape=shape(d), values=rows(d, 100000), **plain)


def coeffs(cx, cy, ny, nx):
    full = C.grid(np.zeros((ny, nx)))
    y, x = full.coord(axis="y").points, full.coord(axis="x").points
    a = C.grid(np.array(cx) / 10.0, "smoothing_coefficient_x", "1", t=None, y=y,
               x=(x[1:] + x[:-1]) / 2)
    b = C.grid(np.array(cy) / 10.0, "smoothing_coefficient_y", "1", t=None, x=x,
               y=(y[1:] + y[:-1]) / 2)
    return a, b


def recursive(ctx, s, jobs, cx, cy, n, width):
    """Several fields through one plugin with one pair of coefficients."""
    ny, nx = len(cx), len(cy[0])
    a, b = coeffs(cx, cy, ny, nx)
    before = (a.data.copy(), b.data.copy())
    plug = RecursiveFilter(iterations=n, edge_width=width)
    both = C.CubeList([a, b] if ctx.rng.rand() < 0.6 else [b, a])
    for data, mask in jobs:
        arr = np.array(data, dtype=float) / 100000
        if mask:
            arr = np.ma.masked_array(arr, mask=np.broadcast_to(np.array(mask) == 1, arr.shape))
        if len(data) == 1:
            cube = C.grid(arr[0])
        else:
            cube = C.grid(arr, lead=[C.realization(len(data))])
        ref = cube.copy()
        r = ctx.call(plug, cube, both)
        plain = dict(data=data, mask=mask, cx=cx, cy=cy, n=n, width=width)
        if isinstance(r, Failed):
            s.event("recursive", out="error", err=r.text, **plain)
            return
        d = r.data if r.ndim == 3 else r.data[np.newaxis]
        ok = same_coords_loose(r, ref)
        s.event("recursive", out="ok", shape=shape(d), values=rows(d, 100000), meta_same=bool(ok),
                coef_same=bool(np.array_equal(before[0], a.data)
                               and np.array_equal(before[1], b.data)), **plain)


def same_coords_loose(r, ref):
    """As same_coords, but the x and y coordinates may have gained bounds."""
    if r.name() != ref.name() or r.units != ref.units or \
            not C.attrs_post(ref.attributes, r.attributes):
        return False
    for c in ref.coords():
        if not r.coords(c.name()):
            return False
        o = r.coord(c.name())
        if not np.allclose(o.points, c.points) or o.units != c.units or o.dtype != c.dtype:
            return False
    return [c.name() for c in r.coords(dim_coords=True)] == \
        [c.name() for c in ref.coords(dim_coords=True)]


def ints(a):
    return [int(round(float(v))) for v in a]


def pad(ctx, s, data, wy, wx, method):
    cube = C.grid(np.array(data, dtype=float), dy=2000.0, dx=3000.0)
    plain = dict(data=data, wy=wy, wx=wx, method=method, y=ints(cube.coord(axis="y").points),
                 x=ints(cube.coord(axis="x").points))
    kw = {} if method == "constant" else {"pad_method": method}
    r = ctx.call(ps.pad_cube_with_halo, cube, wx, wy, **kw)
    if isinstance(r, Failed):
        s.event("pad", out="error", err=r.text, **plain)
        return
    bok = True
    for ax, h in (("y", 1000.0), ("x", 1500.0)):
        c = r.coord(axis=ax)
        bok &= c.has_bounds() and np.allclose(c.bounds[:, 0], c.points - h) and \
            np.allclose(c.bounds[:, 1], c.points + h)
    meta = r.name() == cube.name() and dict(r.attributes) == dict(cube.attributes) and \
        r.units == cube.units and all(r.coords(c.name()) for c in cube.coords()) and \
        all(r.coord(n) == cube.coord(n) for n in ("time", "forecast_period"))
    back = ctx.call(ps.remove_halo_from_cube, r, wx, wy)
    if isinstance(back, Failed):
        s.event("pad", out="error", err=back.text, **plain)
        return
    s.event("pad", out="ok", values=rows(r.data, 1), ypts=ints(r.coord(axis="y").points),
            xpts=ints(r.coord(axis="x").points), bounds_ok=bool(bok), meta_same=bool(meta),
            back=rows(back.data, 1), backy=ints(back.coord(axis="y").points),
            backx=ints(back.coord(axis="x").points), **plain)


def halo(ctx, s, data, radius):
    d = np.array(data, dtype=float)
    cube = C.grid(d, lead=[C.realization(len(data))]) if len(data) > 1 or ctx.rng.randint(2) \
        else C.grid(d[0])
    plain = dict(data=data, radius=radius, spacing=2000, y=ints(cube.coord(axis="y").points),
                 x=ints(cube.coord(axis="x").points))
    h = ctx.call(ps.create_cube_with_halo, next(cube.slices([cube.coord(axis="y"),
                                                             cube.coord(axis="x")])),
                 float(radius))
    back = ctx.call(ps.remove_cube_halo, cube, float(radius))
    if isinstance(h, Failed) or isinstance(back, Failed):
        s.event("halo", out="error", **plain)
        return
    same = [c.name() for c in cube.coords(dim_coords=True)] == \
        [c.name() for c in back.coords(dim_coords=True)]
    b = back.data if back.ndim == 3 else back.data[np.newaxis]
    s.event("halo", out="ok", ypts=ints(h.coord(axis="y").points),
            xpts=ints(h.coord(axis="x").points), back=rows(b, 1), dims_same=bool(same), **plain)


def windows(ctx, s, lead):
    rng = ctx.rng
    ny, nx = int(rng.randint(3, 8)), int(rng.randint(3, 8))
    i, j = int(rng.choice([1, 3, 5])), int(rng.choice([1, 3, 5]))
    a = rng.randint(-9, 10, tuple(lead) + (ny, nx))
    arr = a.astype([np.float32, np.float64, np.int32][rng.randint(3)])
    if rng.rand() < 0.3:
        arr = np.ascontiguousarray(np.swapaxes(arr, -1, -2)).swapaxes(-1, -2)
    kind = rng.randint(4)
    box = i if (i == j and rng.rand() < 0.5) else (i, j)
    padded = False
    if kind == 0:
        padded = True
        r = ctx.call(nt.boxsum, arr, box, mode="constant")
    elif kind == 1:
        if ny <= i or nx <= j:
            return
        if rng.rand() < 0.5:
            r = ctx.call(nt.boxsum, arr, box)
        else:
            r = ctx.call(nt.boxsum, arr.cumsum(-2).cumsum(-1), box, cumsum=False)
    elif kind == 2:
        if ny < i or nx < j:
            return
        r = ctx.call(nt.rolling_window, arr, (i, j))
    else:
        padded = True
        mode = ["constant", "symmetric"][rng.randint(2)]
        r = ctx.call(nt.pad_and_roll, arr, (i, j), mode=mode)
    op = "boxsum" if kind < 2 else "window"
    flat = a.reshape((-1, ny, nx))
    for k in range(flat.shape[0]):
        plain = dict(data=flat[k].tolist(), i=i, j=j, padded=padded,
                     mode=mode if kind == 3 else "constant")
        if isinstance(r, Failed):
            s.event(op, out="error", err=r.text, **plain)
        else:
            rr = r.reshape((flat.shape[0],) + r.shape[len(lead):])
            s.event(op, out="ok", values=rows(np.asarray(rr[k], dtype=float), 1), **plain)


def vicinity(ctx, s):
    """The largest value near each point, of the same surface, in each slice."""
    rng = ctx.rng
    n, ny, nx = int(rng.randint(1, 4)), int(rng.randint(3, 7)), int(rng.randint(3, 7))
    kind = ["field", "members", "thresholds"][rng.randint(3)]
    data = rng.randint(-20, 21, (n, ny, nx)) if rng.rand() < 0.5 else rng.randint(-20, -3, (n, ny, nx))
    if kind == "thresholds":
        data = np.abs(data) % 5
    elif kind == "field":
        data, n = data[:1], 1
    holes = rng.rand(n, ny, nx) < 0.3 if rng.rand() < 0.5 else np.zeros((n, ny, nx), bool)
    rec = np.where(holes, M, data)
    arr = np.where(holes, 0.25 if rng.rand() < 0.5 else 99, data / 4).astype(np.float32)
    if holes.any() or rng.rand() < 0.2:
        arr = np.ma.masked_array(arr, mask=holes)
    if kind == "thresholds":
        cube = C.prob(arr, [0.5 * (i + 1) for i in range(n)], "rainfall_rate", "mm h-1")
        want = "probability_of_rainfall_rate_in_vicinity_above_threshold"
    else:
        cube = C.grid(arr if kind == "members" else arr[0], "air_temperature", "K",
                      lead=[C.realization(n)] if kind == "members" else [])
        want = "air_temperature_in_vicinity"
    land = rng.randint(0, 2, (ny, nx)) if rng.rand() < 0.5 else None
    mask = None
    if land is not None:
        mask = C.grid(land, "land_binary_mask", "1", t=None, frt=None, dtype=np.int8)
    cells = sorted(int(x) for x in rng.choice([1, 2, 3], int(rng.randint(1, 3)), replace=False))
    native = bool(rng.rand() < 0.5)
    radii = cells if native else [2000 * c + int(rng.choice([0, 0, 700])) for c in cells]
    kw = {"grid_point_radii": radii} if native else {"radii": radii}
    if mask is not None:
        kw["land_mask_cube"] = mask
    before = cube.copy()
    r = ctx.call(lambda: OccurrenceWithinVicinity(**kw)(cube))
    plain = dict(data=rec.tolist(), land=land.tolist() if land is not None else [], cells=cells, radii=radii, native=native)
    if isinstance(r, Failed):
        s.event("vicinity", out="error", err=r.text, **plain)
        return
    d = r.data
    lead_ok = [c.name() for c in r.coords(dim_coords=True)]
    exp = ([] if kind == "field" or n == 1 else [cube.coords(dim_coords=True)[0].name()]) \
        + (["radius_of_vicinity"] if len(cells) > 1 else []) + ["projection_y_coordinate", "projection_x_coordinate"]
    d = d.reshape((n, len(cells), ny, nx)) if d.size == n * len(cells) * ny * nx else d
    rc = r.coord("radius_of_vicinity")
    same = cube == before and np.array_equal(np.ma.getmaskarray(cube.data), np.ma.getmaskarray(before.data)) \
        and np.array_equal(np.ma.getdata(cube.data), np.ma.getdata(before.data))
    meta = [x for x in lead_ok if x not in ("realization", "rainfall_rate") or n > 1] == exp and r.dtype == np.float32 and r.units == cube.units \
        and {k: v for k, v in r.attributes.items() if k != "title"} == {k: v for k, v in cube.attributes.items() if k != "title"} \
        and r.coord("time") == cube.coord("time")
    s.event("vicinity", out="ok", shape=list(d.shape), values=[[rows(x, 4) for x in k] for k in d] if d.ndim == 4 else [],
            got_name=r.name(), want_name=want, got_radii=[int(x) for x in np.atleast_1d(rc.points)], units=str(rc.units),
            meta_same=bool(meta), same=bool(same), **plain)


def drive(ctx):
    rng = ctx.rng
    big = ctx.thorough
    for c in ctx.pick(ctx.cases, 60 if not big else 1500):
        with ctx.session("spec") as s:
            n = len(c["row"])
            ver = bool(rng.randint(2))
            zero = [[0] * (n - 1)] * n
            f = [[v + 20000 * k for v in c["row"]] for k in range(n)]
            m = [list(c["mask"]) for k in range(n)]
            cx = [list(c["coef"]) for k in range(n)]
            cy = [[0] * n for k in range(n - 1)]
            if ver:
                f, m = np.array(f).T.tolist(), np.array(m).T.tolist()
                cx, cy = np.array(cy).T.tolist(), np.array(cx).T.tolist()
            m = m if any(c["mask"]) else []
            if m and np.array(m).all():
                continue
            recursive(ctx, s, [([f], m)], cx, cy, 1, 1)
    for i in range(45 if not big else 900):
        ny, nx = int(rng.randint(3, 7)), int(rng.randint(3, 7))
        cx = rng.randint(0, 6, (ny, nx - 1)).tolist()
        cy = rng.randint(0, 6, (ny - 1, nx)).tolist()
        jobs = []
        for _ in range(rng.randint(1, 4)):
            k = int(rng.randint(1, 3))
            m = []
            if rng.rand() < 0.4:
                mm = (rng.rand(ny, nx) < 0.3).astype(int)
                mm[0, 0] = 0
                m = mm.tolist() if mm.any() else []
            jobs.append((rng.randint(-300000, 300001, (k, ny, nx)).tolist(), m))
        with ctx.session("recursive") as s:
            recursive(ctx, s, jobs, cx, cy, int(rng.randint(1, 4)), int(rng.randint(1, 4)))
    for i in range(70 if not big else 1500):
        ny, nx = int(rng.randint(4, 8)), int(rng.randint(4, 8))
        nz = int(rng.randint(1, 4))
        kind = ["time", "realization", "thr", "scalar"][rng.randint(4)]
        n = 1 if kind == "scalar" else int(rng.randint(1, 4))
        data = rng.randint(0, DS * 2 + 1, (n, ny, nx))
        for k in range(1, n):           # fields that repeat, or nearly so
            if rng.rand() < 0.5:
                data[k] = data[k - 1]
        if rng.rand() < 0.4:
            msk = rng.rand(n, ny, nx) < 0.2
            base = data.copy()
            if n > 1 and rng.rand() < 0.5:
                data[:] = data[0]       # fields that differ by their mask alone
                data[msk.any(axis=0)[np.newaxis].repeat(n, 0)] = 1
            data[msk] = M
            for k in range(n):
                data[k, 0, 0] = DS
        zones = np.zeros((nz, ny, nx), dtype=int)
        which = rng.randint(-1 if rng.rand() < 0.5 else 0, nz, (ny, nx))
        for z in range(nz):
            zones[z] = which == z
        weights = None
        if rng.rand() < 0.55:
            w = rng.randint(0, 11, (nz, ny, nx))
            if nz == 1 or rng.rand() < 0.5:
                w = np.maximum(w, 1)
            if rng.rand() < 0.5:
                w[:, which == -1] = M
            weights = w.tolist()
        hours = [6 + 3 * i for i in range(n)] if kind == "time" else [6]
        lts, radii = None, [int(rng.choice([2000, 2900, 4100]))]
        if rng.rand() < 0.5:
            lts, radii = [5, 13], [2300, 4300]
        method = ["square", "circular"][rng.randint(2)]
        if max(radii) > 1000 * np.hypot(ny - 1, nx - 1):
            continue
        with ctx.session("masks") as s:
            masks(ctx, s, data.tolist(), kind, hours, zones.tolist(), weights, method, radii, lts,
                  bool(rng.rand() < 0.2), bool(rng.rand() < 0.4))
    for i in range(20 if not big else 300):
        ny, nx = int(rng.randint(4, 8)), int(rng.randint(4, 8))
        n = int(rng.randint(1, 3))
        land = (rng.rand(ny, nx) < [0.5, 0.1, 0.9, 0.0, 1.1][rng.randint(5)]).astype(int)
        data = rng.randint(0, DS * 2 + 1, (n, ny, nx))
        with ctx.session("landsea") as s:
            landsea(ctx, s, data.tolist(), land.tolist(), ["square", "circular"][rng.randint(2)],
                    int(rng.choice([2000, 4000])), bool(rng.rand() < 0.25))
    for i in range(30 if not big else 400):
        with ctx.session("landsea_zones") as s:
            landsea_zones(ctx, s)
    for i in range(25 if not big else 400):
        ny, nx = int(rng.randint(2, 6)), int(rng.randint(2, 6))
        with ctx.session("pad") as s:
            pad(ctx, s, rng.randint(-50, 50, (ny, nx)).tolist(), int(rng.randint(0, 4)),
                int(rng.randint(0, 4)), ["constant", "symmetric"][rng.randint(2)])
    for i in range(10 if not big else 200):
        r = int(rng.randint(1, 3))
        n, ny, nx = int(rng.randint(1, 3)), int(rng.randint(2 * r + 1, 9)), int(
            rng.randint(2 * r + 1, 9))
        with ctx.session("halo") as s:
            halo(ctx, s, rng.randint(-50, 50, (n, ny, nx)).tolist(),
                 2000 * r + int(rng.choice([0, 1500])))
    for i in range(50 if not big else 900):
        with ctx.session("windows") as s:
            windows(ctx, s, [[], [2], [2, 2]][rng.randint(3)])
    for i in range(60 if not big else 900):
        with ctx.session("vicinity") as s:
            vicinity(ctx, s)
    d = np.ones((4, 5))
    cx, cy = [[1] * 4] * 4, [[1] * 5] * 3
    z = np.zeros((5, 4))

    def rf(a, b, cube=None):
        return RecursiveFilter(1, 1)(cube if cube is not None else C.grid(d), C.CubeList([a, b]))

    def named(c, n):
        c.rename(n)
        return c
    a, b = coeffs(cx, cy, 4, 5)
    hi = a.copy(data=np.where(np.eye(4, 4), 0.51, 0.1))
    off = a.copy()
    off.coord(axis="x").points = off.coord(axis="x").points + 500
    tm = np.ma.masked_array(np.ones((2, 4, 5)), mask=np.stack([np.eye(4, 5)] * 2))
    bad = {
        "zero_iterations": lambda: RecursiveFilter(0, 1),
        "negative_iterations": lambda: RecursiveFilter(-2, 1),
        "coefficient_above_half": lambda: rf(hi, b.copy()),
        "coefficient_name": lambda: rf(named(a.copy(), "alpha_x"), b.copy()),
        "coefficients_x_twice": lambda: rf(a.copy(), a.copy()),
        "coefficient_grid": lambda: rf(off.copy(), b.copy()),
        "coefficient_size": lambda: rf(a[:, :3].copy(), b.copy()),
        "masked_times": lambda: rf(a.copy(), b.copy(), C.grid(tm, t=[C.T0, C.T0 + 3600])),
        "no_vicinity_radius": lambda: OccurrenceWithinVicinity(),
        "two_kinds_of_radius": lambda: OccurrenceWithinVicinity(radii=[2000], grid_point_radii=[1]),
        "negative_vicinity": lambda: OccurrenceWithinVicinity(radii=[-2000]),
        "negative_vicinity_cells": lambda: OccurrenceWithinVicinity(grid_point_radii=[2, -1]),
        "vicinity_below_a_cell": lambda: OccurrenceWithinVicinity(radii=[1999])(C.grid(d)),
        "not_a_land_mask": lambda: OccurrenceWithinVicinity(radii=[2000], land_mask_cube=C.grid(d, "sea_mask", "1")),
        "vicinity_mask_off_the_grid": lambda: OccurrenceWithinVicinity(radii=[2000], land_mask_cube=named(off.copy(data=np.ones(off.shape)), "land_binary_mask"))(C.grid(d)),
        "even_box": lambda: nt.boxsum(d, 2, mode="constant"),
        "one_even_side": lambda: nt.boxsum(d, (3, 2), mode="constant"),
        "fractional_box": lambda: nt.boxsum(d, 3.0, mode="constant"),
        "window_too_large": lambda: nt.rolling_window(d, (5, 5)),
        "window_dims": lambda: nt.rolling_window(d[0], (3, 3)),
        "uneven_pad": lambda: ps.pad_cube_with_halo(C.grid(d, x=[0, 1, 2, 4, 8]), 1, 1),
    }
    for why, f in bad.items():
        with ctx.session("reject") as s:
            r = ctx.call(f)
            s.event("rejected", why=why, out="error" if isinstance(r, Failed) else "ok")
