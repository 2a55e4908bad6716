import warnings

import numpy as np
from vkit import fx
from vkit import cubes as C
from vkit.main import Failed

from improver.regrid.landsea import AdjustLandSeaPoints, RegridLandSea, grid_contains_cutout
from improver.utilities.spatial import transform_grid_to_lat_lon

warnings.simplefilter("ignore")
SCALE = 20
EPS = 8
GRID_ATTRS = ("mosg__grid_type", "mosg__grid_version", "mosg__grid_domain")


def out(r):
    return "error" if isinstance(r, Failed) else "ok"


def ecef(lat, lon):
    """WGS84 positions in metres."""
    a, f = 6378137.0, 1 / 298.257223563
    e2 = f * (2 - f)
    la, lo = np.radians(np.asarray(lat, dtype=np.float64)), np.radians(np.asarray(lon, dtype=np.float64))
    n = a / np.sqrt(1 - e2 * np.sin(la) ** 2)
    return np.stack([n * np.cos(la) * np.cos(lo), n * np.cos(la) * np.sin(lo),
                     n * (1 - e2) * np.sin(la)], axis=-1)


def ll_coords(lat, lon):
    return [C.DimCoord(np.asarray(lat, dtype=np.float32), "latitude", units="degrees",
                       coord_system=C.GEOG),
            C.DimCoord(np.asarray(lon, dtype=np.float32), "longitude", units="degrees",
                       coord_system=C.GEOG)]


def mask_cube(data, lat, lon, attrs=None):
    c = C.Cube(np.asarray(data, dtype=np.int8), "land_binary_mask", units="1")
    c.attributes.update(attrs or {})
    for i, co in enumerate(ll_coords(lat, lon)):
        c.add_dim_coord(co, i)
    return c


def source(rng, vals, lat, lon, lead, masked, attrs):
    """Field values [k, y, x] with a possible leading dimension."""
    if masked:
        data = np.ma.masked_invalid(np.asarray(vals, dtype=np.float32))
    else:
        data = np.asarray(vals, dtype=np.float32)
    c = C.Cube(data if lead else data[0], "air_temperature", units="K")
    c.attributes.update(attrs)
    n = 0
    if lead == "realization":
        c.add_dim_coord(C.realization(len(vals)), 0)
    elif lead == "percentile":
        c.add_dim_coord(C.percentiles(list(np.linspace(10, 90, len(vals)))), 0)
    elif lead == "threshold":
        c.add_dim_coord(C.thresholds([270.0 + i for i in range(len(vals))]), 0)
    elif lead == "time":
        c.add_dim_coord(C.DimCoord(np.array([C.T0 + 3600 * i for i in range(len(vals))],
                                            dtype=np.int64), "time", units=C.TUNITS), 0)
        c.add_aux_coord(C.AuxCoord(np.arange(len(vals), dtype=np.int32) * 3600, "forecast_period",
                                   units="seconds"), 0)
    n = 1 if lead else 0
    for i, co in enumerate(ll_coords(lat, lon)):
        c.add_dim_coord(co, n + i)
    if lead != "time":
        for co in C.time_coords(C.T0, C.T0 - 14400):
            c.add_aux_coord(co)
    c.add_aux_coord(C.AuxCoord(np.array([1.5], dtype=np.float32), "height", units="m"))
    return c


def picture(c):
    return (np.ma.filled(c.data, 1e30).astype(np.float64).tolist(), c.name(), sorted(c.attributes.items()),
            [(x.name(), c.coord_dims(x), np.asarray(x.points).tolist()) for x in c.coords()])


def same(a, b):
    return repr(a) == repr(b)


def settle(D, land, tl, i, vic):
    """Whether the nearest four and eight of target i are clear beyond near ties."""
    d = np.sort(D)
    for n in (4, 8):
        if len(d) > n and d[n] - d[n - 1] <= 2 * EPS:
            return False
    if np.any(np.abs(D - vic) <= 2 * EPS):
        return False
    eight = np.argsort(D, kind="stable")[:8]
    a = np.sort(D[[s for s in eight if land[s] == tl]])
    return not (len(a) > 4 and a[4] - a[3] <= 2 * EPS)


def regrid_session(ctx, case, mode, variant):
    rng = ctx.rng
    pat = np.array(case["land"]).reshape((3, 3))
    ny, nx = int(rng.randint(3, 6)), int(rng.randint(3, 6))
    land = rng.randint(0, 2, (ny, nx))
    py, px = int(rng.randint(0, ny - 2)), int(rng.randint(0, nx - 2))
    land[py:py + 3, px:px + 3] = pat
    while True:  # steps equal within what 32 bits allow
        dlat = float(rng.choice([0.0625, 0.05, 0.1, 0.3, 1.0]))
        dlon = dlat * float(rng.choice([1.0, 1.0, 1.5]))
        lat0 = float(rng.choice([0.0, -3.0, 10.1, 29.95, -20.3]))
        lon0 = float(rng.choice([0.0, -2.2, 100.7, -60.05]))
        lat = np.array([lat0 + i * dlat for i in range(-1, ny + 1)], dtype=np.float32)
        lon = np.array([lon0 + i * dlon for i in range(nx)], dtype=np.float32)
        if all(np.allclose(np.diff(x), np.diff(x).mean(), rtol=3e-5, atol=0) for x in (lat, lon)):
            break
    glat, lat = lat, lat[1:-1]
    exact = all(float(x) * 64 == int(x * 64) for x in (*lat, *lon, dlat * 1.5, dlon)) \
        and dlat * 64 == int(dlat * 64)

    def extra(n, base):
        pool = [u for u in range(0, 8 * (n - 1) + 1)]
        k = int(rng.randint(2, 5))
        return set(int(x) for x in rng.choice(pool, k)) | {base}
    us = extra(ny, case["t"]["u"] + 8 * py) | ({0} if rng.rand() < 0.3 else set()) \
        | ({8 * (ny - 1)} if rng.rand() < 0.4 else set())
    vs = extra(nx, case["t"]["v"] + 8 * px) | ({8 * (nx - 1)} if rng.rand() < 0.4 else set())
    # targets that do not reach over the whole source grid let the source be cut
    if rng.rand() < 0.5:
        us |= {0, 8 * (ny - 1)}
        vs |= {0, 8 * (nx - 1)}
    if rng.rand() < 0.35:
        us |= {-3} if rng.rand() < 0.5 else {8 * (ny - 1) + 5}
    if rng.rand() < 0.35:
        vs |= {-2} if rng.rand() < 0.5 else {8 * (nx - 1) + 9}
    us, vs = sorted(us), sorted(vs)
    flip_t = rng.rand() < 0.25
    if flip_t:
        us = us[::-1]

    def place(x0, d, p, pts, n):
        if p % 8 == 0 and 0 <= p // 8 < n:
            return pts[p // 8]
        return np.float32(x0 + p * d / 8)
    tlat = np.array([place(lat0, dlat, u, lat, ny) for u in us], dtype=np.float32)
    tlon = np.array([place(lon0, dlon, v, lon, nx) for v in vs], dtype=np.float32)
    tland = rng.randint(0, 2, (len(us), len(vs)))
    tland[us.index(case["t"]["u"] + 8 * py), vs.index(case["t"]["v"] + 8 * px)] = case["type"]
    lake = "mask" in mode and rng.rand() < 0.3
    if lake:  # the nearest of a target are all of the other kind, the next ones of its own
        ti, tj = us.index(case["t"]["u"] + 8 * py), vs.index(case["t"]["v"] + 8 * px)
        Sx = ecef(*[m.ravel() for m in np.meshgrid(lat, lon, indexing="ij")])
        Tx = ecef(np.array([tlat[ti]]), np.array([tlon[tj]]))
        near = np.argsort(((Sx - Tx) ** 2).sum(-1), kind="stable")
        k = int(rng.choice([4, 4, 5, 7]))
        flat0 = land.ravel()
        flat0[near[:k]] = 1 - case["type"]
        flat0[near[k:8]] = case["type"]
        land = flat0.reshape(land.shape)

    lead = str(rng.choice(["", "realization", "percentile", "threshold", "time"]))
    nk = int(rng.randint(1, 4)) if lead else 1
    vals = rng.randint(-25, 26, (nk, ny, nx)).astype(np.float64)
    masked = rng.rand() < 0.35
    if masked or rng.rand() < 0.25:
        vals[rng.rand(nk, ny, nx) < 0.15] = np.nan
    attrs = dict(C.ATTRS)
    given = {}
    for a in GRID_ATTRS:
        if rng.rand() < 0.5:
            attrs[a] = "src_" + a
        if rng.rand() < 0.5:
            given[a] = "tgt_" + a
    tattrs = dict(given)
    tattrs["source"] = "Other"
    desc = rng.rand() < 0.3
    descx = rng.rand() < 0.15
    ys, xs = (slice(None, None, -1) if desc else slice(None)), \
        (slice(None, None, -1) if descx else slice(None))
    cube = source(rng, vals[:, ys, xs], lat[ys], lon[xs], lead, masked, attrs)
    if rng.rand() < 0.4:
        cube.add_cell_method(C.CellMethod("mean", coords="realization"))
    smask = mask_cube(land, lat, lon)
    if rng.rand() < 0.3:  # a mask of a larger grid
        big = np.vstack([rng.randint(0, 2, (1, nx)), land, rng.randint(0, 2, (1, nx))])
        smask = mask_cube(big, glat, lon)
    if desc or descx:
        smask = mask_cube(land[ys, xs], lat[ys], lon[xs])
    target = mask_cube(tland, tlat, tlon, tattrs)
    order = None
    if variant == 1 and lead:
        cube.transpose([1, 0, 2] if rng.rand() < 0.5 else [1, 2, 0])
    elif variant == 2:
        n = cube.ndim
        cube.transpose([n - 1] + list(range(n - 1)) if n > 2 else [1, 0])
    S = ecef(*[m.ravel() for m in np.meshgrid(lat, lon, indexing="ij")])
    Tm = ecef(*[m.ravel() for m in np.meshgrid(tlat, tlon, indexing="ij")])
    D = np.sqrt(((Tm[:, None, :] - S[None, :, :]) ** 2).sum(-1))
    step = 111000 * dlat
    vic = int(rng.choice([1.6, 3.0, 4.5] if lake else [0.6, 1.2, 1.6, 3.0]) * step)
    flat = land.ravel()
    tl = tland.ravel()
    pos = [(u, v) for u in us for v in vs]
    ts = [{"u": u, "v": v, "skip": 0 if "mask" not in mode or settle(D[i], flat, tl[i], i, vic) else 1}
          for i, (u, v) in enumerate(pos)]
    P = []
    for i in range(len(pos)):
        d = np.maximum(D[i], 1.0)
        lo = np.min(d[d > EPS])
        P.append([int(x) for x in np.round(1e5 * (np.minimum(lo / d, 1.0)) ** 1.8)])
    # a source on which the target lies decides alone
    before = picture(cube), picture(smask), picture(target)
    wanted = "" if rng.rand() < 0.5 else "Regridded"
    kw = {"landmask": smask, "landmask_vicinity": vic} if "mask" in mode or rng.rand() < 0.3 else {}

    def go():
        return RegridLandSea(regrid_mode=mode + "-2", **kw)(cube, target, regridded_title=wanted or None)
    r = ctx.call(go)
    with ctx.session("regrid") as s:
        if isinstance(r, Failed):
            s.event("regrid", out="error", err=r.text, mode=mode, ts=ts)
            return
        lname = {"": None, "threshold": "air_temperature"}.get(lead, lead)
        data = r.data
        if lead and r.ndim == 2:
            data = data[np.newaxis]
        elif not lead:
            data = data[np.newaxis]
        rr = np.ma.filled(np.ma.masked_array(data), np.nan).reshape((nk, -1))
        leads = True
        if lead:
            leads = r.coords(lname) and np.array_equal(r.coord(lname).points, cube.coord(lname).points) \
                and (r.ndim == 2 and nk == 1 or r.coord_dims(lname) == (0,))
        if lead == "time":
            leads = leads and np.array_equal(r.coord("forecast_period").points,
                                             cube.coord("forecast_period").points)
        grid_ok = all(np.array_equal(r.coord(axis=a).points, target.coord(axis=a).points)
                      and r.coord(axis=a).name() == target.coord(axis=a).name()
                      and r.coord(axis=a).coord_system == target.coord(axis=a).coord_system
                      for a in "xy") and r.coord_dims("latitude") == (r.ndim - 2,) \
            and r.coord_dims("longitude") == (r.ndim - 1,)
        rest = {c.name() for c in cube.coords()} == {c.name() for c in r.coords()} \
            and np.array_equal(r.coord("height").points, [1.5]) \
            and r.coord("height").units == "m"
        meta = bool(r.name() == cube.name() and r.units == cube.units and rest
                    and tuple(r.cell_methods) == tuple(cube.cell_methods)
                    and r.attributes.get("source") == "IMPROVER"
                    and r.attributes.get("institution") == "Met Office")
        if lead == "threshold":
            tc = r.coord("air_temperature")
            meta = meta and tc.var_name == "threshold" \
                and tc.attributes.get("spp__relative_to_threshold") == "greater_than"
        outside = any(not (0 <= t["u"] <= 8 * (ny - 1) and 0 <= t["v"] <= 8 * (nx - 1)) for t in ts)
        s.event("regrid", out="ok", mode=mode, ny=ny, nx=nx, ts=ts,
                land=[int(x) for x in flat], tl=[int(x) for x in tl],
                D=[[int(round(x)) for x in row] for row in D], P=P, vic=vic, eps=EPS,
                f=[fx(v.ravel(), SCALE) for v in vals],
                got=[fx(v, SCALE) for v in rr], tol=1,
                leads=bool(leads), grid=bool(grid_ok), meta=meta,
                title=r.attributes.get("title", ""), wanted=wanted,
                gridattrs={a: r.attributes[a] for a in GRID_ATTRS if a in r.attributes},
                exact=bool(exact),
                wantattrs={a: given[a] for a in GRID_ATTRS if a in attrs and a in given},
                dtype=str(r.data.dtype), outside=outside,
                same=same(before, (picture(cube), picture(smask), picture(target))))


def adjust_session(ctx):
    rng = ctx.rng
    ny, nx = int(rng.randint(3, 7)), int(rng.randint(3, 7))
    v = rng.permutation(ny * nx).reshape((ny, nx)) + 1
    li, lo = (rng.rand(ny, nx) < rng.choice([0.15, 0.5, 0.9])).astype(np.int8), \
        rng.randint(0, 2, (ny, nx)).astype(np.int8)
    r = int(rng.randint(1, 4))
    real = rng.rand() < 0.4
    vv = np.stack([v, v + 100]) if real else v
    cube = C.grid(vv.astype(np.float32), lead=[C.realization(2)] if real else [])

    def lm(d):
        return C.grid(d, "land_binary_mask", "1", dtype=np.int8, t=None)
    plug = AdjustLandSeaPoints(vicinity_radius=2000.0 * r)
    res = None
    if rng.rand() < 0.5:  # the plugin may have been used before with other masks
        li2, lo2 = rng.randint(0, 2, (ny, nx)), rng.randint(0, 2, (ny, nx))
        ctx.call(lambda: plug(cube, lm(li2), lm(lo2)))
    res = ctx.call(lambda: plug(cube, lm(li), lm(lo)))
    with ctx.session("adjust") as s:
        if isinstance(res, Failed):
            s.event("adjust", out="error", err=res.text)
            return
        d = np.asarray(res.data).reshape((-1, ny, nx))
        for k in range(len(d)):
            s.event("adjust", out="ok", v=(v + 100 * k).tolist(), ny=ny, nx=nx, r=r,
                    **{"in": li.tolist(), "want": lo.tolist(), "got": d[k].astype(int).tolist()})


def cutout_session(ctx):
    rng = ctx.rng
    step = float(rng.choice([2000.0, 10000.0]))

    def coords(n):
        return sorted(int(x) for x in rng.choice(12, n, replace=False)) if rng.rand() < 0.3 \
            else list(range(int(rng.randint(0, 4)), 12))[:n]

    def cut(g):
        a = int(rng.randint(0, len(g)))
        b = int(rng.randint(a + 1, len(g) + 1))
        c = g[a:b]
        if rng.rand() < 0.3:
            c = [x + int(rng.randint(0, 3)) for x in c]
        if rng.rand() < 0.15:
            c = c + [c[-1] + 1]
        return c
    gy, gx = coords(int(rng.randint(2, 7))), coords(int(rng.randint(2, 7)))
    cy, cx = cut(gy), cut(gx)
    alike = rng.rand() < 0.8
    grid = C.grid(np.zeros((len(gy), len(gx))), y=[step * i for i in gy], x=[step * i for i in gx])
    try:
        c = C.grid(np.zeros((len(cy), len(cx))), y=[step * i for i in cy], x=[step * i for i in cx])
    except ValueError:
        return
    if not alike:
        if rng.rand() < 0.5:
            c.coord(axis="x").coord_system = C.GEOG
        else:
            c.coord(axis="y").units = "km"
    r = ctx.call(lambda: grid_contains_cutout(grid, c))
    with ctx.session("cutout") as s:
        if isinstance(r, Failed):
            s.event("cutout", out="error", err=r.text)
        else:
            s.event("cutout", out="ok", got=bool(r), alike=bool(alike), gy=gy, gx=gx, cy=cy, cx=cx)


def plane_session(ctx):
    """Latitudes and longitudes regridded to a projected grid are those of its points."""
    rng = ctx.rng
    ny, nx = int(rng.randint(2, 5)), int(rng.randint(2, 5))
    if rng.rand() < 0.5:
        tgt = C.grid(np.zeros((ny, nx)), "land_binary_mask", "1", t=None, dtype=np.int8,
                     dy=float(rng.choice([2000, 20000])), dx=float(rng.choice([2000, 20000])))
        lats, lons = transform_grid_to_lat_lon(tgt)
        lats, lons = np.asarray(lats), np.asarray(lons)
    else:
        la = np.sort(rng.uniform(54, 55.5, ny)).astype(np.float32)
        lo = np.sort(rng.uniform(-3.5, -2, nx)).astype(np.float32)
        tgt = mask_cube(np.zeros((ny, nx)), la, lo)
        lons, lats = np.meshgrid(lo, la)
    step = float(rng.choice([0.1, 0.25, 0.5]))
    lat = np.arange(53.0, 57.01, step).astype(np.float32)
    lon = np.arange(-5.0, 0.01, step).astype(np.float32)
    llon, llat = np.meshgrid(lon, lat)
    both = np.stack([llat, llon])
    land = np.full(llat.shape, int(rng.randint(0, 2)))
    cube = source(rng, both, lat, lon, "realization", False, C.ATTRS)
    mode = str(rng.choice(["bilinear-2", "bilinear-with-mask-2"]))
    t2 = tgt.copy(data=np.full((ny, nx), land[0, 0], dtype=np.int8))
    r = ctx.call(lambda: RegridLandSea(regrid_mode=mode, landmask=mask_cube(land, lat, lon),
                                       landmask_vicinity=25000)(cube, t2))
    with ctx.session("plane") as s:
        if isinstance(r, Failed):
            s.event("plane", out="error", err=r.text)
            return
        s.event("plane", out="ok", mode=mode, got=fx(np.asarray(r.data).ravel(), 10000),
                want=fx(np.concatenate([lats.ravel(), lons.ravel()]), 10000), tol=2)


def iris_modes(ctx):
    """The library's own nearest and bilinear modes between lattice grids."""
    rng = ctx.rng
    ny, nx = int(rng.randint(3, 6)), int(rng.randint(3, 6))
    vals = rng.randint(-25, 26, (1, ny, nx)).astype(np.float64)
    mode = str(rng.choice(["nearest", "bilinear"]))
    lat, lon = 10 + 0.5 * np.arange(ny), 20 + 0.5 * np.arange(nx)
    us = sorted({int(x) for x in rng.randint(0, 8 * (ny - 1) + 1, 4)})
    vs = sorted({int(x) for x in rng.randint(0, 8 * (nx - 1) + 1, 4)})
    if mode == "nearest":  # halfway is the library's choice
        us = [u for u in us if u % 8 != 4] or [0]
        vs = [v for v in vs if v % 8 != 4] or [0]
    cube = source(rng, vals, lat, lon, "", False, C.ATTRS)
    target = mask_cube(np.zeros((len(us), len(vs))), 10 + np.array(us) / 16.0, 20 + np.array(vs) / 16.0)
    r = ctx.call(lambda: RegridLandSea(regrid_mode=mode)(cube, target, regridded_title="T"))
    with ctx.session("library") as s:
        if isinstance(r, Failed):
            s.event("regrid", out="error", err=r.text, mode=mode)
            return
        ts = [{"u": u, "v": v, "skip": 0} for u in us for v in vs]
        s.event("regrid", out="ok", mode=mode, ny=ny, nx=nx, ts=ts, f=[fx(vals[0].ravel(), SCALE)],
                got=[fx(np.ma.filled(r.data, np.nan).ravel(), SCALE)], tol=1, leads=True, grid=True,
                meta=r.name() == cube.name(), title=r.attributes["title"], wanted="T",
                gridattrs={}, wantattrs={}, exact=True, dtype="float32", same=True)


def refusals(ctx):
    lat, lon = np.arange(3), np.arange(4)
    cube = source(ctx.rng, np.zeros((1, 3, 4)), lat, lon, "", False, C.ATTRS)
    mask, other = mask_cube(np.ones((3, 4)), lat, lon), mask_cube(np.ones((3, 4)), lat + 0.5, lon)
    with ctx.session("refusals") as s:
        for m in ("nearest-with-mask", "nearest-with-mask-2", "bilinear-with-mask-2"):
            s.event("rejected", why="missing_mask", out=out(ctx.call(lambda: RegridLandSea(regrid_mode=m))))
            s.event("rejected", why="mask_of_another_grid", out=out(ctx.call(
                lambda: RegridLandSea(regrid_mode=m, landmask=other)(cube, mask))))
        for m in ("kriging", "bilinear-with-mask", "nearest2", ""):
            s.event("rejected", why="unknown_mode",
                    out=out(ctx.call(lambda: RegridLandSea(regrid_mode=m, landmask=mask))))
        uneven = source(ctx.rng, np.zeros((1, 3, 4)), [0, 1, 3], lon, "", False, C.ATTRS)
        proj = C.grid(np.zeros((3, 4)))
        for m in ("nearest-2", "bilinear-2"):
            s.event("rejected", why="unequal_steps",
                    out=out(ctx.call(lambda: RegridLandSea(regrid_mode=m)(uneven, mask))))
            s.event("rejected", why="projected_source",
                    out=out(ctx.call(lambda: RegridLandSea(regrid_mode=m)(proj, mask))))
        far = C.grid(np.zeros((3, 3)), "land_binary_mask", "1", t=None, dtype=np.int8)
        near = C.grid(np.zeros((3, 3)), y0=5000.0)
        s.event("rejected", why="adjusting_another_grid",
                out=out(ctx.call(lambda: AdjustLandSeaPoints()(near, far, far))))


def drive(ctx):
    n = 700 if ctx.thorough else 60
    modes = ["nearest", "bilinear", "nearest-with-mask", "bilinear-with-mask", "nearest-with-mask",
             "bilinear-with-mask"]
    for i, case in enumerate(ctx.pick(ctx.cases, n)):
        for j in range(2):
            regrid_session(ctx, case, modes[(i * 2 + j) % 6], int(ctx.rng.randint(0, 3)))
    for _ in range(n // 3):
        adjust_session(ctx)
        cutout_session(ctx)
        iris_modes(ctx)
    for _ in range(n // 5):
        plane_session(ctx)
    refusals(ctx)
