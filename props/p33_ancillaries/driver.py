"""Ancillary fields: land masks, terrain bands and weights, smoothing coefficients, vapour pressures."""
import warnings

import numpy as np
from iris.coords import AuxCoord
from iris.cube import CubeList
from vkit import cubes as C
from vkit.main import Failed

from improver.cli import generate_landmask_ancillary as lmcli
from improver.cli import generate_orographic_smoothing_coefficients as smcli
from improver.cli import generate_topography_bands_mask as bmcli
from improver.cli import generate_topography_bands_weights as bwcli
from improver.generate_ancillaries.generate_ancillary import CorrectLandSeaMask, GenerateOrographyBandAncils
from improver.generate_ancillaries.generate_orographic_smoothing_coefficients import OrographicSmoothingCoefficients
from improver.generate_ancillaries.generate_svp_table import SaturatedVapourPressureTable
from improver.generate_ancillaries.generate_topographic_zone_weights import GenerateTopographicZoneWeights

MASKED, NAN = 2000000002, 2000000001
STATIC = {"title": "Static", "source": "IMPROVER", "institution": "Met Office"}
DEFAULT = [[-5000, 500], [500, 1000], [1000, 1500], [1500, 2000], [2000, 2500], [2500, 3000], [3000, 4000], [4000, 5000], [5000, 6500], [6500, 8000], [8000, 9500], [9500, 60000]]


def unwrap(fn):
    fn = getattr(fn, "__wrapped__", fn)
    return getattr(fn, "__wrapped__", fn)


def out(r):
    return "error" if isinstance(r, Failed) else "ok"


def whole(a, scale):
    m = np.ma.getmaskarray(a)
    v = np.asarray(np.ma.getdata(a), dtype=float)
    return [MASKED if mm else NAN if np.isnan(x) else int(np.clip(np.rint(x * scale), -1.9e9, 1.9e9)) for x, mm in zip(v.flat, m.flat)]


def snap(cubes):
    return [c.copy() for c in cubes if c is not None]


def same(before, after):
    after = [c for c in after if c is not None]
    return all(a.metadata == b.metadata and a.coords() == b.coords() and a.shape == b.shape
               and np.array_equal(np.ma.getmaskarray(a.data), np.ma.getmaskarray(b.data))
               and np.array_equal(np.ma.filled(a.data, 0), np.ma.filled(b.data, 0), equal_nan=True) for a, b in zip(before, after))


def flip(c, rng, chance=0.3):
    """Perhaps with x before y."""
    if rng.rand() < chance:
        c.transpose([1, 0])
        return True
    return False


def landmask(ctx, s):
    rng = ctx.rng
    ny, nx = int(rng.randint(1, 4)), int(rng.randint(2, 5))
    v = [[int(rng.choice([0, 499, 500, 501, 1000, rng.randint(0, 1001)])) for _ in range(nx)] for _ in range(ny)]
    c = C.grid(np.array(v) / 1000, "land_area_fraction" if rng.rand() < 0.5 else "land_binary_mask", "1", space=["xy", "ll"][rng.randint(2)], t=None, attrs=STATIC)
    y, x = c.coord(axis="y").copy(), c.coord(axis="x").copy()
    fn = unwrap(lmcli.process) if rng.rand() < 0.4 else CorrectLandSeaMask().process if rng.rand() < 0.5 else CorrectLandSeaMask()
    r = ctx.call(lambda: fn(c))
    rec = dict(v=[q for w in v for q in w])
    if isinstance(r, Failed):
        s.event("landmask", out="error", err=r.text[:200], **rec)
        return
    meta = r.name() == "land_binary_mask" and r.dtype == np.int8 and r.units == "1" and r.coord(axis="y") == y and r.coord(axis="x") == x
    s.event("landmask", got=whole(r.data, 1), meta=bool(meta), **rec)


def terrain(ctx, bands):
    """Heights (tenths of a metre) about the bands, with a grid."""
    rng = ctx.rng
    ny, nx = int(rng.randint(1, 4)), int(rng.randint(2, 5))
    marks = [q for b in bands for q in b] + [(b[0] + b[1]) // 2 for b in bands]
    return ny, nx, [int(rng.choice(marks)) + int(rng.choice([0, 0, 1, -1, 10, -10, rng.randint(-300, 300)])) for _ in range(ny * nx)]


def stack(ctx):
    rng = ctx.rng
    if rng.rand() < 0.15:
        return [list(b) for b in DEFAULT], True
    b = ctx.bands[rng.randint(len(ctx.bands))]
    k = int(rng.choice([0, 0, 500, -200]))
    return [[q[0] + k, q[1] + k] for q in b], False


def zones(ctx, s, weights):
    rng = ctx.rng
    bands, default = stack(ctx)
    ny, nx, hs = terrain(ctx, bands)
    units = ["m", "m", "km"][rng.randint(3)]
    bunits = "m" if default else ["m", "m", "km"][rng.randint(3)]
    if units != "m" or bunits != "m":
        edges = {q for b in bands for q in b} | {(b[0] + b[1]) // 2 for b in bands}
        hs = [h + 1 if h in edges else h for h in hs]
    sea = rng.rand() < 0.6
    land = [int(rng.rand() < 0.7) for _ in hs] if sea else [1] * len(hs)
    space = ["xy", "ll"][rng.randint(2)]
    o = C.grid(np.array(hs, dtype=float).reshape(ny, nx) / (10 if units == "m" else 10000), "surface_altitude", units, space=space, t=None, attrs=STATIC)
    lm = C.grid(np.array(land).reshape(ny, nx), "land_binary_mask", "1", space=space, t=None, attrs=STATIC, dtype=np.int8) if sea else None
    f = 10 if bunits == "m" else 10000
    spec = {"bounds": [[q[0] / f, q[1] / f] for q in bands], "units": bunits}
    cli = default or rng.rand() < 0.4
    if cli:
        flip(o, rng)
        if sea:
            flip(lm, rng)
    before = snap([o, lm])
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        if weights:
            r = ctx.call(lambda: unwrap(bwcli.process)(o, lm, bands_config=None if default else spec) if cli else GenerateTopographicZoneWeights()(o, spec, landmask=lm))
        else:
            r = ctx.call(lambda: unwrap(bmcli.process)(o, lm, bands_config=None if default else spec) if cli else GenerateOrographyBandAncils()(o, spec, landmask=lm).concatenate_cube())
    op = "zones" if weights else "bands"
    rec = dict(hs=hs, land=land, bands=bands)
    if isinstance(r, Failed):
        s.event(op, out="error", err=r.text[:200], **rec)
        return
    z = r.coord("topographic_zone")
    k = 10 if z.units == "m" else 10000
    n = len(bands)
    g = whole(r.data, 10000 if weights else 1)
    meta = r.name() == ("topographic_zone_weights" if weights else "topography_mask") and r.units == "1" and z.units == units and r.dtype == (np.float32 if weights else np.int32) and \
        r.attributes["topographic_zones_include_seapoints"] == str(not sea) and r.coord(axis="y") == o.coord(axis="y") and r.coord(axis="x") == o.coord(axis="x") and \
        r.shape == (((n,) if n > 1 or not weights else ()) + (ny, nx)) and [c.name() for c in r.coords(dim_coords=True)][-2:] == [o.coord(axis="y").name(), o.coord(axis="x").name()]
    s.event(op, got=[g[i * ny * nx:(i + 1) * ny * nx] for i in range(n)], points=whole(z.points, k), limits=[whole(b, k) for b in z.bounds], meta=bool(meta), kept=bool(same(before, [o, lm])), **rec)


def smoothing(ctx, s):
    rng = ctx.rng
    case = ctx.transects[rng.randint(len(ctx.transects))]
    ny, nx = int(rng.randint(2, 5)), len(case["hs"])
    style = rng.randint(4)
    base = rng.randint(0, 300, (ny, nx)) if style else np.zeros((ny, nx))
    h = np.rint(base * (rng.rand() < 0.7) + np.array(case["hs"])[None, :] * (style != 3)).astype(int)
    if rng.rand() < 0.06:
        h = np.full((ny, nx), 40)
    mask = np.array([case["ms"]] * ny)
    for i in range(1, ny):
        mask[i] = [int(q) if rng.rand() < 0.7 else int(rng.randint(2)) for q in mask[i]]
    masked = rng.rand() < 0.5
    dx, dy = [(2000.0, 2000.0), (1000.0, 2000.0), (2000.0, 1000.0)][rng.randint(3)]
    flipped = rng.rand() < 0.3
    kw = dict(space="xy", dx=dx, dy=dy)
    times = rng.rand() < 0.4
    o = C.grid(h, "surface_altitude", "m", t=C.T0 if times else None, attrs=dict(STATIC, history="made", extra="kept"), **kw)
    if times:
        o.add_aux_coord(AuxCoord(np.array([2], dtype=np.int32), "realization", units="1"))
    m = C.grid(mask, "land_binary_mask", "1", t=None, attrs=STATIC, dtype=[np.int8, np.int32, np.float32][rng.randint(3)], **kw) if masked else None
    if flipped:
        o.transpose([1, 0])
        if masked:
            m.transpose([1, 0])
    power = int(rng.choice([1, 2, 2, 4]))
    atmin, atmax = [(5000, 0), (5000, 0), (1000, 4000), (2500, 2500), (4000, 500)][rng.randint(5)]
    boundary, invert = bool(rng.rand() < 0.4), bool(rng.rand() < 0.5)
    args = dict(min_gradient_smoothing_coefficient=atmin / 10000, max_gradient_smoothing_coefficient=atmax / 10000, power=power / 2, use_mask_boundary=boundary, invert_mask=invert)
    before = snap([o, m])
    names = [c.name() for c in o.coords(dim_coords=True)]
    if rng.rand() < 0.4:
        r = ctx.call(lambda: unwrap(smcli.process)(o, m, **args))
    else:
        r = ctx.call(lambda: OrographicSmoothingCoefficients(**args)(o, m))
    fx = 2 if dx < dy else 1
    fy = 2 if dy < dx else 1
    rec = dict(sx=(np.diff(h, axis=1) * fx).tolist(), sy=(np.diff(h, axis=0) * fy).tolist(), mask=mask.tolist(), masked=bool(masked), power=power, atmin=atmin, atmax=atmax, boundary=boundary, invert=invert)
    if isinstance(r, Failed):
        s.event("smoothing", out="error", err=r.text[:200], **rec)
        return
    meta = len(r) == 2
    g = []
    for c, nm, shape, ax in zip(r, ("smoothing_coefficient_x", "smoothing_coefficient_y"), ((ny, nx - 1), (ny - 1, nx)), "xy"):
        meta = meta and c.name() == nm and c.units == "1" and c.dtype == np.float32 and [q.name() for q in c.coords(dim_coords=True)] == names and \
            c.attributes["title"] == "Recursive filter smoothing coefficients" and c.attributes["power"] == power / 2 and "history" not in c.attributes and c.attributes["extra"] == "kept" and \
            not any(w in q.name() for q in c.coords() for w in ("time", "period", "realization"))
        p = before[0].coord(axis=ax).points
        meta = meta and np.allclose(c.coord(axis=ax).points, (p[1:] + p[:-1]) / 2) and c.coord(axis="y" if ax == "x" else "x") == before[0].coord(axis="y" if ax == "x" else "x")
        d = c.data.T if flipped else c.data
        meta = meta and d.shape == shape
        g.append([whole(q, 10000) for q in d])
    s.event("smoothing", gx=g[0], gy=g[1], meta=bool(meta), kept=bool(same(before, [o, m])), **rec)


def svp(ctx, s):
    rng = ctx.rng
    lo = int(rng.choice([18515, 20000, 26016, int(rng.randint(185, 320)) * 100]))
    step = int(rng.choice([10, 50, 100, 130]))
    n = int(rng.randint(2, 60))
    hi = min(lo + step * n, 33700)
    n = (hi - lo) // step
    hi = lo + n * step
    usual = rng.rand() < 0.1
    if usual:
        lo, hi, step, n = 18315, 33825, 10, 1551
    r = ctx.call(lambda: SaturatedVapourPressureTable().process() if usual else SaturatedVapourPressureTable(t_min=lo / 100, t_max=hi / 100, t_increment=step / 100).process())
    if isinstance(r, Failed):
        s.event("svp", out="error", err=r.text[:200], t=[])
        return
    meta = r.name() == "saturated_vapour_pressure" and r.units == "Pa" and r.shape == (n + 1,) and np.allclose(r.coord("air_temperature").points, [(lo + k * step) / 100 for k in range(n + 1)]) and \
        r.coord("air_temperature").units == "K" and [r.attributes[k] for k in ("minimum_temperature", "maximum_temperature", "temperature_increment")] == [lo / 100, hi / 100, step / 100]
    rows = [(int(np.rint(q * 100)), v) for q, v in zip(r.coord("air_temperature").points, whole(r.data, 1000))]
    rows = [q for q in rows if not usual or 18500 <= q[0] <= 33700][:: 7 if usual else 1]
    s.event("svp", t=[q[0] for q in rows], got=[q[1] for q in rows], meta=bool(meta))


def rejected(ctx, s):
    rng = ctx.rng
    why = ["coefficient_too_large", "negative_coefficient", "not_two_dimensional", "other_grid_mask", "no_bands", "three_limits", "zones_not_two_dimensional"][rng.randint(7)]
    o = C.grid(rng.randint(0, 300, (3, 3)), "surface_altitude", "m", space="xy", t=None, attrs=STATIC)
    o3 = C.grid(rng.randint(0, 300, (2, 3, 3)), "surface_altitude", "m", lead=[C.realization(2)], space="xy", t=None, attrs=STATIC)
    m = C.grid(np.ones((3, 3)), "land_binary_mask", "1", space="xy", t=None, attrs=STATIC)
    spec = {"bounds": [[0, 100], [100, 200]], "units": "m"}
    k = ["min_gradient_smoothing_coefficient", "max_gradient_smoothing_coefficient"][rng.randint(2)]
    if why == "coefficient_too_large":
        run = lambda: OrographicSmoothingCoefficients(**{k: 0.51})
    elif why == "negative_coefficient":
        run = lambda: OrographicSmoothingCoefficients(**{k: -0.01})
    elif why == "not_two_dimensional":
        run = lambda: OrographicSmoothingCoefficients()(o3)
    elif why == "other_grid_mask":
        c = m.coord(axis=["x", "y"][rng.randint(2)])
        c.points = c.points + 1000
        run = lambda: OrographicSmoothingCoefficients()(o, m)
    elif why == "no_bands":
        run = lambda: GenerateOrographyBandAncils()(o, {})
    elif why == "three_limits":
        run = lambda: GenerateOrographyBandAncils()(o, {"bounds": [[0, 100, 200]], "units": "m"})
    else:
        run = lambda: GenerateTopographicZoneWeights()(o3, spec)
    s.event("rejected", why=why, out=out(ctx.call(run)))


def drive(ctx):
    ctx.bands = [c["bands"] for c in ctx.cases if "bands" in c]
    ctx.transects = [c for c in ctx.cases if "hs" in c]
    k = 5 if ctx.thorough else 1
    for name, fn, n in (("landmask", landmask, 40), ("bands", lambda c, s: zones(c, s, False), 100), ("zones", lambda c, s: zones(c, s, True), 140), ("smoothing", smoothing, 180), ("svp", svp, 15), ("rejected", rejected, 40)):
        with ctx.session(name) as s:
            for _ in range(n * k):
                fn(ctx, s)
