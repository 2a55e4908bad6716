"""Ensemble model output statistics: coefficients estimated, applied, scored; inputs sorted."""
import numpy as np
from iris.coords import AuxCoord
from iris.cube import CubeList
from vkit import cubes as C
from vkit.main import Failed

from improver.calibration import split_forecasts_and_coeffs
from improver.calibration.ensemble_calibration import (
    ApplyEMOS, CalibratedForecastDistributionParameters, ContinuousRankedProbabilityScoreMinimisers, EstimateCoefficientsForEnsembleCalibration)
from improver.calibration.utilities import check_data_sufficiency, create_unified_frt_coord, filter_non_matching_cubes, forecast_coords_match
from improver.cli import apply_emos_coefficients as apcli
from improver.cli import estimate_emos_coefficients as escli

MASKED, NAN = 2000000002, 2000000001
DAY, HOUR = 86400, 3600
EXTRAS = ["surface_altitude", "distance_to_water", "roughness_length"]


def unwrap(fn):
    fn = getattr(fn, "__wrapped__", fn)
    return getattr(fn, "__wrapped__", fn)


def out(r):
    return "error" if isinstance(r, Failed) else "ok"


def whole(a, scale):
    m = np.ma.getmaskarray(a)
    v = np.asarray(np.ma.getdata(a), dtype=float)
    return [MASKED if mm else NAN if np.isnan(x) else int(np.clip(np.rint(x * scale), -1.9e9, 1.9e9)) for x, mm in zip(v.flat, m.flat)]


def snap(cubes):
    return [c.copy() for c in cubes if c is not None]


def same(before, after):
    after = [c for c in after if c is not None]
    return all(a.metadata == b.metadata and a.coords() == b.coords() and a.shape == b.shape
               and np.array_equal(np.ma.getmaskarray(a.data), np.ma.getmaskarray(b.data))
               and np.array_equal(np.ma.filled(a.data, 0), np.ma.filled(b.data, 0), equal_nan=True) for a, b in zip(before, after))


class Places:
    """Points: sites or a grid."""

    def __init__(self, rng, n=None, grid=True):
        self.space = ["spot", "xy", "ll"][rng.randint(3)] if grid else "spot"
        if self.space == "spot":
            self.shape = (int(rng.randint(1, 5)) if n is None else n,)
        else:
            self.shape = (int(rng.randint(2, 4)), int(rng.randint(2, 4)))
        self.n = int(np.prod(self.shape))

    def cube(self, values, name, units, lead=(), **kw):
        k = [len(c.points) for c in lead]
        return C.grid(np.asarray(values, dtype=float).reshape(tuple(k) + self.shape), name, units, lead=lead, space=self.space, **kw)

    def fixed(self, values, name, units):
        return self.cube(values, name, units, t=None, attrs={"title": "Static", "source": "IMPROVER", "institution": "Met Office"})


def history(rng, pl, x, name, units, times, lead, frt_bounds=False):
    """Past forecasts: x by time, member, place (hundredths)."""
    r = CubeList()
    for k, d in enumerate(times):
        t = C.T0 - d * DAY
        r.append(pl.cube(np.array(x[k]) / 100, name, units, lead=[C.realization(len(x[k]))], t=t, frt=t - lead))
    return r


def truths(pl, v, name, units, times):
    r = CubeList()
    for k, d in enumerate(times):
        r.append(pl.cube(np.array([np.nan if q == NAN else q for q in v[k]], dtype=float) / 100, name, units, t=C.T0 - d * DAY, frt=None,
                         attrs={"title": "Observations", "source": "Radarnet", "institution": "Met Office", "kind": "truth"}))
    return r


def coefficients(rng, pl, name, units, m, pred, extras, dist, vals, pbp, lead):
    """A coefficient set made as the estimation makes it, from given numbers (floats)."""
    hist = CubeList([pl.cube(np.zeros((m,) + pl.shape), name, units, lead=[C.realization(m)], t=C.T0 - d * DAY, frt=C.T0 - d * DAY - lead) for d in (2, 1)]).merge_cube()
    plugin = EstimateCoefficientsForEnsembleCalibration(dist, point_by_point=pbp, predictor=pred)
    fps = CubeList([hist[0]] + [pl.fixed(np.zeros(pl.n), e, "1") for e in extras])
    vals = [np.array(v, dtype=np.float32).reshape(pl.shape) if pbp else np.float32(v) for v in vals]
    return plugin.create_coefficients_cubelist(vals, hist, fps)


def numbers(rng, pl, pred, nb, m, dist, pbp):
    """Coefficients per point: alpha (1e-3), beta (1e-2), gamma (1e-2), delta (1e-1)."""
    k = pl.n if pbp else 1
    style = rng.randint(4)
    a = [int(rng.randint(-2000, 3000)) if dist == "norm" else int(rng.randint(0, 3000)) for _ in range(k)]
    if pred == "mean":
        b = [[int(rng.choice([100, 90, 110, rng.randint(50, 150)]))] + [int(rng.randint(-60, 60)) if dist == "norm" else int(rng.randint(0, 60)) for _ in range(nb - 1)] for _ in range(k)]
    else:
        b = [[int(v) for v in rng.randint(0, int(160 / np.sqrt(m)), m)] for _ in range(k)]
    g = [int(rng.choice([0, 30, 100, rng.randint(0, 250)])) for _ in range(k)]
    d = [int(rng.choice([0, 10, 10, rng.randint(0, 15)])) for _ in range(k)]
    if style == 0:
        a, b, g, d = [0] * k, [[100] + [0] * (nb - 1)] * k if pred == "mean" else b, [0] * k, [10] * k
    if not pbp:
        a, b, g, d = a * pl.n, b * pl.n, g * pl.n, d * pl.n
    return a, b, g, d


def flat(a, b, g, d, pbp):
    """As the estimation orders them."""
    if not pbp:
        return [a[0] / 1000] + [v / 100 for v in b[0]] + [g[0] / 100, d[0] / 10]
    return [np.array(a) / 1000] + [np.array([q[j] for q in b]) / 100 for j in range(len(b[0]))] + [np.array(g) / 100, np.array(d) / 10]


def spread(x, g, d):
    return np.sqrt((g / 100) ** 2 + (d / 10) ** 2 * np.var(np.array(x) / 100, ddof=1))


def centre(pred, x, extra, a, b):
    x = np.array(x) / 100
    if pred == "mean":
        return a / 1000 + b[0] / 100 * x.mean() + sum(v / 100 * e / 100 for v, e in zip(b[1:], extra))
    return a / 1000 + sum((v / 100) ** 2 * q for v, q in zip(b, x))


def members(rng, cases, n, m):
    r = []
    for _ in range(n):
        v = list(cases[rng.randint(len(cases))]["members"])
        style = rng.randint(4)
        if style == 0:
            v = [int(rng.randint(0, 2000)) for _ in range(m)]
        elif style == 1:
            v = [int(800 + rng.randint(-40, 40)) for _ in range(m)]
        while len(v) < m:
            v.append(int(rng.choice(v)))
        r.append([int(q) for q in rng.permutation(v)[:m]])
    return r


# --- distribution parameters and calibrated forecasts ---------------------------------

def steps(rng, m, gap=600):
    """Chances through thresholds such that m evenly spread percentiles are exact."""
    left, js = m + 1, []
    while left:
        j = int(rng.choice([k for k in (1, 2, 3, 4) if k <= left]))
        js.append(j), (left := left - j)
    t0 = int(rng.choice([0, 300, 600]))
    vals, p, pts, t = [], 0, [t0], t0
    chance = [0]
    for j in js:
        for q in range(1, j + 1):
            p += 1
            if p <= m:
                vals.append(t + gap * q // j)
        t += gap
        pts.append(t), chance.append(p)
    return pts, chance, vals


def scene(ctx):
    """Forecast members by point in some form, with the cube."""
    rng = ctx.rng
    pl = Places(rng)
    dist = ["norm", "truncnorm"][rng.randint(2)]
    pred = "mean" if rng.rand() < 0.7 else "realizations"
    pbp = rng.rand() < 0.4 and not (pred == "realizations" and pl.space != "spot")
    extras = [str(e) for e in rng.permutation(EXTRAS)[: rng.randint(0, 3)]] if pred == "mean" else []
    form = ["realizations", "percentiles", "probabilities"][rng.choice(3, p=[0.5, 0.25, 0.25])]
    m = int(rng.randint(2, 7))
    name, units = ("wind_speed", "m s-1") if dist == "truncnorm" else ("air_temperature", ["K", "celsius"][rng.randint(2)])
    base = 26000 if units == "K" else 0
    lead = int(rng.choice([4, 12])) * HOUR
    kw = dict(t=C.T0, frt=C.T0 - lead)
    above = rng.rand() < 0.6
    ts = None
    if form == "probabilities":
        pts, chance, one = steps(rng, m)
        # every point has the thresholds; its chances are the steps, reversed or delayed
        xs, ch = [], []
        for _ in range(pl.n):
            perm = None
            for _try in range(20):
                p2, c2, v2 = steps(rng, m)
                if len(c2) <= len(pts):
                    perm = (c2, v2, p2[0])
                    break
            c2, v2, start = perm if perm else (chance, one, pts[0])
            delay = int(rng.randint(0, len(pts) - len(c2) + 1))
            ch.append([0] * delay + c2 + [m + 1] * (len(pts) - len(c2) - delay))
            xs.append([v - start + pts[0] + 600 * delay for v in v2])
        pts = [p + base for p in pts]
        xs = [[v + base for v in x] for x in xs]
        cc = np.array(ch, dtype=float).T / (m + 1)
        ts = [p * 10 for p in pts]
        data = (1 - cc if above else cc).reshape((len(pts),) + pl.shape)
        cube = C.prob(data, np.array(pts) / 100, name=name, units=units, relative="greater_than" if above else "less_than", space=pl.space, **kw)
        raw = [[int(np.rint(v * 10000)) for v in data.reshape(len(pts), -1)[:, i]] for i in range(pl.n)]
        ps = None
    else:
        xs = [[v + base for v in x] for x in members(rng, ctx.cases_members, pl.n, m)]
        if form == "percentiles":
            xs = [sorted(x) for x in xs]
            ps = [100.0 * (k + 1) / (m + 1) for k in range(m)]
            cube = pl.cube(np.array(xs).T / 100, name, units, lead=[C.percentiles(ps)], **kw)
        else:
            cube = pl.cube(np.array(xs).T / 100, name, units, lead=[C.realization(m, int(rng.choice([0, 5])))], **kw)
            ps = None
        raw = [[10 * v for v in x] for x in xs]
    extra = [[int(rng.randint(0, 1500)) for _ in extras] for _ in range(pl.n)]
    a, b, g, d = numbers(rng, pl, pred, 1 + len(extras), m, dist, pbp)
    fields = CubeList([pl.fixed([e[j] / 100 for e in extra], nm, "1") for j, nm in enumerate(extras)])
    if len(fields) and rng.rand() < 0.4:
        fields = CubeList([fields[i] for i in rng.permutation(len(fields))])
    coefs = coefficients(rng, pl, name, units, m, pred, extras, dist, flat(a, b, g, d, pbp), pbp, lead)
    if rng.rand() < 0.3:
        coefs = CubeList([coefs[i] for i in rng.permutation(4)])
    return pl, dist, pred, form, m, name, units, cube, xs, raw, ts, ps, above, extra, fields, coefs, a, b, g, d


def sane(dist, pred, xs, extra, a, b, g, d):
    if dist == "norm":
        return True
    for i in range(len(xs)):
        lo, sc = centre(pred, xs[i], extra[i], a[i], b[i]), spread(xs[i], g[i], d[i])
        if sc < 0.2 or lo < -0.3 * sc:
            return False
    return True


def sea_of(rng, pl):
    if rng.rand() < 0.7:
        return [False] * pl.n, None
    sea = [bool(v) for v in rng.rand(pl.n) < [0.4, 0.4, 1.0, 0.0][rng.randint(4)]]
    return sea, pl.fixed([0 if v else 1 for v in sea], "land_binary_mask", "1")


def params(ctx, s):
    rng = ctx.rng
    pl, dist, pred, form, m, name, units, cube, xs, raw, ts, ps, above, extra, fields, coefs, a, b, g, d = scene(ctx)
    if form != "realizations":
        return
    sea, mask = sea_of(rng, pl)
    given = [cube, *coefs, *fields, mask]
    before = snap(given)
    got = ctx.call(lambda: CalibratedForecastDistributionParameters(predictor=pred)(cube, coefs, additional_fields=fields or None, landsea_mask=mask))
    ok = not isinstance(got, Failed)
    loc, sc, meta = [], [], False
    if ok:
        lo, sp = got
        loc, sc = whole(lo.data, 1000), whole(sp.data, 1000)
        meta = ([lo.name(), sp.name()] == ["location_parameter", "scale_parameter"] and all(
            q.shape == pl.shape and q.dtype == np.float32 and str(q.units) == units and not q.coords("realization")
            and [c.name() for c in q.coords(dim_coords=True)] == [c.name() for c in cube.coords(dim_coords=True)][1:]
            and q.coord("time") == cube.coord("time") and q.coord("forecast_period") == cube.coord("forecast_period") and dict(q.attributes) == dict(cube.attributes) for q in got))
    s.event("params", pred=pred, x=xs, extra=extra, a=a, b=b, g=g, d=d, sea=sea, loc=loc, sc=sc, meta=bool(meta), kept=same(before, given), out=out(got))


def forecast(ctx, s):
    rng = ctx.rng
    for _ in range(20):
        pl, dist, pred, form, m, name, units, cube, xs, raw, ts, ps, above, extra, fields, coefs, a, b, g, d = scene(ctx)
        if sane(dist, pred, xs, extra, a, b, g, d):
            break
    else:
        return
    sea, mask = sea_of(rng, pl)
    template, kind, kw, shift = None, form, {}, 0.0
    if form != "realizations":
        kw["realizations_count"] = m
    if form != "probabilities" and mask is None and rng.rand() < 0.3:
        n = int(rng.randint(1, 5))
        ts = sorted(int(v) for v in rng.choice(np.arange(0, 2100, 50), n, replace=False) * 10 + (260000 if units == "K" else 0))
        tu = units if units not in ("K", "celsius") or rng.rand() < 0.5 else ("celsius" if units == "K" else "K")
        shift = {("K", "celsius"): -273.15, ("celsius", "K"): 273.15}.get((units, tu), 0.0)
        template = C.prob(np.full((n,) + pl.shape, 0.25), np.array(ts) / 1000 + shift, name=name, units=tu, relative="greater_than" if above else "less_than",
                          space=pl.space, t=C.T0, frt=cube.coord("forecast_reference_time").points[0])
        kind = "probabilities"
    want_ps = ps
    if kind == "percentiles" and mask is None and rng.rand() < 0.4:
        want_ps = sorted(float(v) for v in rng.choice([10, 25, 33, 50, 62.5, 75, 90, 97], rng.randint(1, 5), replace=False))
        kw["percentiles"] = want_ps
    shuffled = False
    if kind == "realizations":
        shuffled = rng.rand() < 0.25
        kw["randomise"] = bool(shuffled)
        kw["random_seed"] = int(rng.randint(100)) if rng.rand() < 0.6 else None
    given = [cube, *coefs, *fields, mask, template]
    before = snap(given)
    if rng.rand() < 0.4:
        lists = [CubeList([q]) for q in [cube, *fields, mask, template] if q is not None] + [coefs]
        lists = [lists[i] for i in rng.permutation(len(lists))]
        ck = dict(kw)
        got = ctx.call(lambda: unwrap(apcli.process)(*lists, predictor=pred, land_sea_mask_name="land_binary_mask" if mask is not None else None, **ck))
    else:
        perc = kw.pop("percentiles", None)
        again = rng.rand() < 0.3
        plugin = ApplyEMOS(percentiles=perc)

        def run():
            r = plugin(cube, coefs, additional_fields=fields or None, land_sea_mask=mask, prob_template=template, predictor=pred, **kw)
            return plugin(cube, coefs, additional_fields=fields or None, land_sea_mask=mask, prob_template=template, predictor=pred, **kw) if again else r
        got = ctx.call(run)
    ok = not isinstance(got, Failed)
    vals, meta = [], False
    if ok:
        k = got.shape[0] if got.ndim > len(pl.shape) else 1
        v = np.ma.masked_array(got.data).reshape(k, -1)
        vals = [whole(v[:, i], 10000 if kind == "probabilities" else 1000) for i in range(v.shape[1])]
        like = template if template is not None else cube
        meta = (got.name() == like.name() and got.units == like.units and got.dtype == np.float32 and C.attrs_post(like.attributes, got.attributes)
                and got.coord("time") == like.coord("time") and got.coord("forecast_reference_time") == like.coord("forecast_reference_time")
                and [c.name() for c in got.coords(dim_coords=True)][-len(pl.shape):] == [c.name() for c in like.coords(dim_coords=True)][-len(pl.shape):])
        if kind == "percentiles":
            meta = meta and np.allclose(got.coord("percentile").points, want_ps, atol=1e-4)
        elif kind == "realizations":
            meta = meta and got.coord("realization") == cube.coord("realization")
        else:
            meta = meta and got.coord(var_name="threshold") == like.coord(var_name="threshold")
    s.event("forecast", pred=pred, x=xs, extra=extra, a=a, b=b, g=g, d=d, dist=dist, kind=kind, ts=ts or [], above=bool(above),
            ps=[int(np.rint(p * 10000)) for p in want_ps or []], shuffled=bool(shuffled), raw=raw, sea=sea, got=vals, meta=bool(meta), kept=same(before, given), out=out(got))


def score(ctx, s):
    rng = ctx.rng
    n, m = int(rng.randint(1, 6)), int(rng.randint(2, 6))
    dist = ["norm", "truncnorm"][rng.randint(2)]
    pred = "mean" if rng.rand() < 0.7 else "realizations"
    ne = int(rng.randint(0, 3)) if pred == "mean" else 0
    xs = members(rng, ctx.cases_members, n, m)
    extra1 = [[int(rng.randint(0, 1500)) for _ in range(ne)] for _ in range(n)]
    pl = Places(rng, n, grid=False)
    a, b, g, d = numbers(rng, pl, pred, 1 + ne, m, dist, False)
    lo = [centre(pred, x, e, aa, bb) for x, e, aa, bb in zip(xs, extra1, a, b)]
    sc = [spread(x, gg, dd) for x, gg, dd in zip(xs, g, d)]
    if min(sc) < 0.1 or (dist == "truncnorm" and min(lo) < 0) or max(sc) > 15:
        return
    truth = [int(np.clip(np.rint(100 * (l + q * rng.choice([0.3, 1, 3]) * rng.randn())), 0 if dist == "truncnorm" else -3000, 5000)) for l, q in zip(lo, sc)]
    fp = np.array(xs, dtype=np.float64) / 100
    if pred == "mean":
        fp = np.column_stack([fp.mean(axis=1)] + [np.array([e[j] for e in extra1]) / 100 for j in range(ne)]) if ne else fp.mean(axis=1)
    plugin = ContinuousRankedProbabilityScoreMinimisers(pred)
    fn = plugin.calculate_normal_crps if dist == "norm" else plugin.calculate_truncated_normal_crps
    guess = np.array(flat(a, b, g, d, False), dtype=np.float64)
    got = ctx.call(lambda: fn(guess, fp, np.array(truth) / 100, np.var(np.array(xs) / 100, axis=1, ddof=1), np.sqrt(np.pi)))
    s.event("score", pred=pred, x=xs, extra=extra1, a=a, b=b, g=g, d=d, dist=dist, truth=truth, got=0 if isinstance(got, Failed) else int(np.rint(float(got) * 1000)), out=out(got))


# --- estimation ------------------------------------------------------------------------

def training(rng, pl, nt, m, base=800):
    clim = [[int(base + rng.randint(-500, 500)) for _ in range(pl.n)] for _ in range(nt)]
    sp = int(rng.choice([60, 150, 250]))
    x = [[[int(np.clip(c + 70 + sp * rng.randn(), 0, 2500)) for c in row] for _ in range(m)] for row in clim]
    v = [[int(np.clip(c + 120 * rng.randn(), 0, 2500)) for c in row] for row in clim]
    return x, v


def coef_values(got, pbp):
    return [np.array(got.extract_cube("emos_coefficient_" + k).data, dtype=float) for k in ("alpha", "beta", "gamma", "delta")]


def equal_coefs(one, two, tol=0.0):
    if len(one) != len(two):
        return False
    for p, q in zip(one, two):
        if p.name() != q.name() or not np.allclose(p.data, q.data, rtol=0, atol=tol, equal_nan=True):
            return False
    return True


def estimate(ctx, pl, fc, tr, cli=False, mask=None, extra=None, **kw):
    def run():
        f, t = CubeList([c.copy() for c in fc]), CubeList([c.copy() for c in tr])
        if cli:
            k = dict(kw)
            if "desired_units" in k:
                k["units"] = k.pop("desired_units")
            lst = list(f) + list(t) + ([mask] if mask is not None else [])
            lst = [lst[i] for i in ctx.rng.permutation(len(lst))]
            return unwrap(escli.process)(*lst, truth_attribute="kind=truth", **k)
        k = dict(kw)
        return EstimateCoefficientsForEnsembleCalibration(k.pop("distribution"), **k)(f.merge_cube(), t.merge_cube(), additional_fields=extra, landsea_mask=mask.copy() if mask is not None else None)
    return ctx.call(run)


def fitted(ctx, s):
    rng = ctx.rng
    pl = Places(rng, int(rng.randint(1, 4)))
    nt, m = int(rng.randint(3, 6)), int(rng.randint(2, 5))
    if nt * pl.n > 16:
        nt = max(2, 16 // pl.n)
    x, v = training(rng, pl, nt, m)
    days = [int(q) for q in rng.permutation(np.arange(1, 10))[:nt]]
    name, units = "air_temperature", "celsius"
    lead = int(rng.choice([4, 12])) * HOUR
    got = estimate(ctx, pl, history(rng, pl, x, name, units, days, lead), truths(pl, v, name, units, days), cli=rng.rand() < 0.4, distribution="norm", use_default_initial_guess=True)
    ok = not isinstance(got, Failed)
    if not ok:
        s.event("fitted", x=[], truth=[], a=0, b=0, g=0, d=0, meta=False, out=out(got))
        return
    al, be, ga, de = [int(np.rint(float(np.squeeze(q)) * 1000)) for q in coef_values(got, False)]
    frts = [C.T0 - d * DAY - lead for d in days]
    fr = got[0].coord("forecast_reference_time")
    meta = ([c.name() for c in got] == ["emos_coefficient_" + k for k in ("alpha", "beta", "gamma", "delta")]
            and [str(c.units) for c in got] == [units, "1", units, "1"]
            and all(c.attributes["diagnostic_standard_name"] == name and c.attributes["distribution"] == "norm" and "shape_parameters" not in c.attributes for c in got)
            and int(fr.points[0]) == max(frts) and [int(q) for q in fr.bounds[0]] == [min(frts), max(frts)]
            and got[0].coord("forecast_period").points[0] == lead and [str(q) for q in got[1].coord("predictor_name").points] == [name])
    s.event("fitted", x=[[x[k][j][i] for j in range(m)] for k in range(nt) for i in range(pl.n)], truth=[v[k][i] for k in range(nt) for i in range(pl.n)],
            a=al, b=be, g=ga, d=de, meta=bool(meta), out="ok")


def guess(ctx, s):
    rng = ctx.rng
    default = rng.rand() < 0.4
    pred = "mean" if rng.rand() < 0.6 else "realizations"
    k = int(rng.randint(1, 4)) if pred == "mean" else int(rng.randint(2, 5))
    n = int(rng.randint(k + 4, 20))
    fp = (rng.rand(k, n) * 20).astype(np.float32)
    tr = (fp.mean(axis=0) + rng.randn(n)).astype(np.float32)
    miss = False
    if rng.rand() < 0.4:
        msk = rng.rand(n) < 0.2
        fp, tr = np.ma.masked_array(fp, np.broadcast_to(msk, fp.shape)), np.ma.masked_array(tr, msk)
    elif rng.rand() < 0.2:
        tr[0] = np.nan
        miss = True
    plugin = EstimateCoefficientsForEnsembleCalibration("norm", use_default_initial_guess=bool(default), predictor=pred)
    got = ctx.call(lambda: plugin.compute_initial_guess(tr, fp, pred, None if pred == "mean" else k))
    o = out(got)
    if default or miss:
        b = 1 / k if pred == "mean" else np.sqrt(1 / k)
        s.event("default", got=[] if o == "error" else [int(np.rint(float(q) * 1000)) for q in got], want=[0] + [int(np.rint(1000 * b))] * k + [0, 1000], out=o)
        return
    good = ~np.ma.getmaskarray(tr)
    f, t = np.ma.getdata(fp)[:, good].astype(float), np.ma.getdata(tr)[good].astype(float)
    mom = []
    if o == "ok":
        r = t - got[0] - np.array(got[1:-2], dtype=float) @ f
        mom = [int(np.rint(1e4 * q)) for q in [r.mean()] + [(r * row).mean() / 10 for row in f]]
    s.event("guess", moments=mom, tol=20, spread=[int(got[-2]), int(got[-1])] if o == "ok" else [], out=o)


def equal(ctx, s):
    rng = ctx.rng
    what = ["one_site_alone", "sea_ignored", "unmatched_times_ignored", "missing_truths_ignored", "units_alike", "order_of_inputs", "missing_site_keeps_guess", "order_of_sites", "command_alike"]
    ctx.turn = getattr(ctx, "turn", int(rng.randint(9))) + 1
    first = ctx.turn // 9 % 2 == 0
    what = what[ctx.turn % 9]
    dist = ["norm", "truncnorm"][rng.randint(2)]
    pred = "mean" if rng.rand() < 0.75 else "realizations"
    name, units = ("wind_speed", "m s-1") if dist == "truncnorm" else ("air_temperature", "celsius")
    spot = what in ("one_site_alone", "missing_site_keeps_guess", "order_of_sites")
    pl = Places(rng, int(rng.randint(2, 4)), grid=False) if spot else Places(rng, int(rng.randint(2, 4)))
    nt, m = int(rng.randint(4, 7)), int(rng.randint(2, 4))
    x, v = training(rng, pl, nt, m)
    days = list(range(1, nt + 1))
    lead = 4 * HOUR
    kw = dict(distribution=dist, predictor=pred, tolerance=float(rng.choice([0.02, 0.1])), max_iterations=int(rng.choice([8, 15, 40])))
    default = rng.rand() < 0.5
    kw["use_default_initial_guess"] = bool(default)
    fc, tr = history(rng, pl, x, name, units, days, lead), truths(pl, v, name, units, days)
    if what in ("one_site_alone", "missing_site_keeps_guess", "order_of_sites"):
        kw["point_by_point"] = True
        gone = int(rng.randint(pl.n))
        if what == "missing_site_keeps_guess":
            kw["use_default_initial_guess"] = True
            for row in v:
                row[gone] = NAN
            kw["proportion_of_nans"] = 1.0
            tr = truths(pl, v, name, units, days)
        got = estimate(ctx, pl, fc, tr, cli=(first or rng.rand() < 0.3) and "proportion_of_nans" not in kw, **kw)
        if isinstance(got, Failed):
            s.event("equal", what=what, one=["both"], two=[str(got.text)[:80]], out="ok")
            return
        if what == "missing_site_keeps_guess":
            k = 1 if pred == "mean" else m
            vals = [whole(np.atleast_2d(c.data)[..., gone], 1000) for c in got]
            b = 1000 if pred == "mean" else int(np.rint(1000 * np.sqrt(1 / m)))
            s.event("equal", what=what, one=vals, two=[[0], [b] * k, [0], [1000]], out="ok")
            return
        if what == "order_of_sites":
            perm = [int(q) for q in rng.permutation(pl.n)]

            def turn(cs):
                r = CubeList()
                for c in cs:
                    q = c[..., perm]
                    q.remove_coord("spot_index")
                    q.add_dim_coord(C.DimCoord(np.arange(pl.n, dtype=np.int32), long_name="spot_index", units="1"), q.ndim - 1)
                    r.append(q)
                return r
            alt = estimate(ctx, pl, turn(fc), turn(tr), **kw)
            one = [whole(np.atleast_2d(c.data)[..., perm[i]], 1000) for i in range(pl.n) for c in got]
            two = ["failed"] if isinstance(alt, Failed) else [whole(np.atleast_2d(c.data)[..., i], 1000) for i in range(pl.n) for c in alt]
            s.event("equal", what=what, one=one, two=two, out="ok")
            return
        i = int(rng.randint(pl.n))
        pick = lambda cs: CubeList([c[..., i:i + 1] for c in cs])
        alone = estimate(ctx, pl, pick(fc), pick(tr), **kw)
        one = [whole(np.atleast_2d(c.data)[..., i], 1000) for c in got]
        two = ["failed"] if isinstance(alone, Failed) else [whole(np.asarray(c.data).reshape(-1), 1000) for c in alone]
        s.event("equal", what=what, one=one, two=two, out="ok")
        return
    mask = None
    if what == "sea_ignored":
        land = rng.rand(pl.n) < 0.6
        land[rng.randint(pl.n)] = True
        mask = pl.fixed(land.astype(int), "land_binary_mask", "1")
        x2 = [[[q if ok else int(rng.randint(0, 3000)) for q, ok in zip(row, land)] for row in mem] for mem in x]
        v2 = [[q if ok else (NAN if rng.rand() < 0.5 else int(rng.randint(0, 3000))) for q, ok in zip(row, land)] for row in v]
        f2, t2 = history(rng, pl, x2, name, units, days, lead), truths(pl, v2, name, units, days)
        if pl.space == "spot":
            kw["proportion_of_nans"] = 1.0
        if default and rng.rand() < 0.4:      # a missing truth on land
            i = int(np.flatnonzero(land)[0])
            v[0][i] = v2[0][i] = NAN
            tr, t2 = truths(pl, v, name, units, days), truths(pl, v2, name, units, days)
    elif what == "command_alike":
        f2, t2 = CubeList([c.copy() for c in fc]), CubeList([c.copy() for c in tr])
        if rng.rand() < 0.5:
            kw["desired_units"] = "km h-1" if dist == "truncnorm" else "K"
    elif what == "unmatched_times_ignored":
        x2, v2 = training(rng, pl, 2, m)
        f2 = CubeList(list(fc) + list(history(rng, pl, x2, name, units, [nt + 3, nt + 5], lead)))
        t2 = CubeList(list(tr) + list(truths(pl, v2, name, units, [nt + 4, nt + 6])))
    elif what == "missing_truths_ignored":
        kw["use_default_initial_guess"] = True
        kw["proportion_of_nans"] = 1.0
        x2, v2 = training(rng, pl, 1, m)
        v2 = [[NAN] * pl.n]
        f2 = CubeList(list(fc) + list(history(rng, pl, x2, name, units, [nt + 1], lead)))
        t2 = CubeList(list(tr) + list(truths(pl, v2, name, units, [nt + 1])))
    elif what == "units_alike":
        kw["desired_units"] = units
        f2, t2 = CubeList([c.copy() for c in fc]), CubeList([c.copy() for c in tr])
        other = "km h-1" if dist == "truncnorm" else "K"
        for c in (f2 if rng.rand() < 0.5 else t2):
            c.data = c.data.astype(np.float64)
            c.convert_units(other)
    else:
        f2, t2 = CubeList([fc[i] for i in rng.permutation(nt)]), CubeList([tr[i] for i in rng.permutation(nt)])
    cli = rng.rand() < 0.5 and "proportion_of_nans" not in kw
    one, two = estimate(ctx, pl, fc, tr, cli=cli and what != "command_alike", mask=mask, **kw), estimate(ctx, pl, f2, t2, cli=cli or what == "command_alike", mask=mask, **kw)
    if isinstance(one, Failed) or isinstance(two, Failed):
        s.event("equal", what=what, one=["both"], two=[str(getattr(one, "text", "")), str(getattr(two, "text", ""))], out="ok")
        return
    tol = 2e-3 if what == "units_alike" else 0.0
    s.event("equal", what=what, one=[True], two=[equal_coefs(one, two, tol)], out="ok")


def truth_cube(times, vals, bounds=None, frt=None, member=False, lead=HOUR):
    """Sites (2) at given hours."""
    r = CubeList()
    for k, h in enumerate(times):
        t = C.T0 + h * HOUR
        tb = [t - bounds[k][0] * HOUR, t + bounds[k][1] * HOUR] if bounds and bounds[k] else None
        r.append(C.grid(np.array(vals[k], dtype=float), "air_temperature", "K", lead=[C.realization(len(vals[k]))] if member else [], space="spot", t=t, frt=t - lead if frt else None, tb=tb))
    return r.merge_cube()


def pairs(ctx, s):
    rng = ctx.rng
    bnd = rng.rand() < 0.5
    ft = sorted(int(h) for h in rng.choice(8, rng.randint(1, 5), replace=False))
    tt = sorted(int(h) for h in rng.choice(8, rng.randint(1, 6), replace=False))
    fb = [[1, 0]] * len(ft) if bnd else None
    w = [1, 0] if rng.rand() < 0.6 else [[3, 0], [1, 1]][rng.randint(2)]
    tb = [w] * len(tt) if bnd else None
    empty = [bool(v) for v in rng.rand(len(ft)) < 0.2]
    fv = [[[np.nan if e else 100.0 * h + 10 * j + i for i in range(2)] for j in range(2)] for h, e in zip(ft, empty)]
    tv = [[1000.0 + 100 * h + i for i in range(2)] for h in tt]
    if rng.rand() < 0.3:
        tv[0][0] = np.nan
    f, t = truth_cube(ft, fv, fb, True, True), truth_cube(tt, tv, tb)
    got = ctx.call(lambda: filter_non_matching_cubes(f.copy(), t.copy()))
    o = out(got)
    hours = lambda c: [int((q - C.T0) // HOUR) for q in c.coord("time").points]
    values, fts, tts = True, [], []
    if o == "ok":
        gf, gt = got
        fts, tts = hours(gf), hours(gt)
        nf = gf.data if gf.coord_dims("time") else gf.data[np.newaxis]
        axis = gf.coord_dims("time")[0] if gf.coord_dims("time") else 0
        nf = np.moveaxis(nf, axis, 0)
        nt_ = np.moveaxis(gt.data, gt.coord_dims("time")[0], 0) if gt.coord_dims("time") else gt.data[np.newaxis]
        for k, h in enumerate(fts):
            values = values and h in ft and np.array_equal(nf[k], np.array(fv[ft.index(h)], dtype=np.float32), equal_nan=True)
        for k, h in enumerate(tts):
            values = values and h in tt and np.array_equal(nt_[k], np.array(tv[tt.index(h)], dtype=np.float32), equal_nan=True)
    rec = lambda times, b, e: [dict(time=h, lo=-b[k][0] if b else 0, hi=b[k][1] if b else 0, empty=bool(e[k])) for k, h in enumerate(times)]
    s.event("pairs", f=rec(ft, fb, empty), t=rec(tt, tb, [False] * len(tt)), res=o, ftimes=fts, ttimes=tts, values=bool(values))


def usable(ctx, s):
    rng = ctx.rng
    fp1, frt1 = int(rng.choice([1, 3, 4, 6])) * HOUR, C.T0 + int(rng.choice([0, 3])) * HOUR
    fp2 = fp1 - int(rng.choice([0, 900, 2700, 3600, -900, 3599]))
    frt2 = frt1 + int(rng.choice([0, DAY, -3 * DAY, 900, HOUR, 12 * HOUR]))
    if fp2 < 0:
        return
    mk = lambda fp, frt: C.grid(np.zeros(2), "air_temperature", "K", space="spot", t=frt + fp, frt=frt)
    got = ctx.call(lambda: forecast_coords_match(mk(fp1, frt1), mk(fp2, frt2)))
    s.event("usable", fp1=fp1, frt1=frt1, fp2=fp2, frt2=frt2, out=out(got))


def sufficient(ctx, s):
    rng = ctx.rng
    nt, m, ns = int(rng.randint(1, 6)), int(rng.randint(1, 4)), int(rng.randint(1, 4))
    gone = rng.rand(nt, ns) < rng.choice([0.1, 0.5, 0.9])
    f = rng.rand(nt, m, ns)
    t = rng.rand(nt, ns)
    f[np.broadcast_to(gone[:, None, :], f.shape)] = np.nan
    t[gone] = np.nan
    pbp = bool(rng.rand() < 0.5)
    allowed = int(rng.choice([0, 200, 250, 333, 500, 600, 750, 1000]))
    fc = C.grid(f.transpose(1, 0, 2), "air_temperature", "K", lead=[C.realization(m)], space="spot", t=[C.T0 + k * DAY for k in range(nt)], frt=None)
    tc = C.grid(t, "air_temperature", "K", space="spot", t=[C.T0 + k * DAY for k in range(nt)], frt=None)
    got = ctx.call(lambda: check_data_sufficiency(fc, tc, pbp, allowed / 1000))
    bad = [int(v) for v in gone.sum(axis=0)] if pbp else [int(gone.sum())]
    s.event("sufficient", bad=bad, all=nt if pbp else nt * ns, allowed=allowed, out=out(got))


# --- inputs of the command -------------------------------------------------------------

def inputs(ctx, items, dist="norm", pers=False, wanted=None):
    rng = ctx.rng
    pl = Places(rng, 2)
    m = 3
    lead = 4 * HOUR
    main = [q for q in items if q not in ("coef", "static", "mask")]
    names = {"fc": "air_temperature", "other": "wind_speed"}
    units = {"fc": "K", "other": "m s-1"}
    lst, ns = [], 0
    fk = next((q for q in main if q != "prob"), "fc")
    for it in items:
        if it in names:
            d = (284 if it == "fc" else 4) + np.sort(rng.rand(m, *pl.shape), axis=0) * 8
            ldc = C.percentiles([25, 50, 75]) if pers else C.realization(m)
            lst.append(("main", CubeList([pl.cube(d, names[it], units[it], lead=[ldc], t=C.T0, frt=C.T0 - lead)])))
        elif it == "prob":
            d = np.broadcast_to(np.array([1.0, 0.6, 0.0]).reshape((3,) + (1,) * len(pl.shape)), (3,) + pl.shape)
            lst.append(("prob", CubeList([C.prob(d, [v + (280 if fk == "fc" else 0) for v in (2.0, 8.0, 14.0)], name=names[fk], units=units[fk], space=pl.space, t=C.T0, frt=C.T0 - lead)])))
        elif it == "static":
            lst.append(("static", CubeList([pl.fixed(rng.rand(pl.n), EXTRAS[ns % 3] + ("" if ns < 3 else str(ns)), "1")])))
            ns += 1
        elif it == "mask":
            lst.append(("mask", CubeList([pl.fixed(np.ones(pl.n), "land_binary_mask", "1")])))
        else:
            lst.append(("coef", None))
    return pl, m, lead, lst, names[fk], units[fk]


def with_coefs(ctx, pl, m, lead, lst, name, units, named):
    extra = [c[0].name() for k, c in lst if k == "static" or (k == "mask" and not named)]
    vals = [5.0, 1.0] + [0.5] * len(extra) + [0.5, 1.0]
    cs = coefficients(ctx.rng, pl, name, units, m, "mean", extra, "norm", vals, False, lead)
    return [(k, cs if c is None else c) for k, c in lst]


def sort_inputs(ctx, s, items):
    rng = ctx.rng
    named = bool(rng.rand() < 0.5)
    pl, m, lead, lst, name, units = inputs(ctx, items)
    one = pl.fixed(np.zeros(pl.n), "emos_coefficient_alpha", "K")
    lst = [(k, CubeList([one.copy()]) if c is None else c) for k, c in lst]
    got = ctx.call(lambda: split_forecasts_and_coeffs([c for _, c in lst], "land_binary_mask" if named else None))
    o = out(got)
    rec = dict(forecast="none", template=False, coefs=0, statics=0, mask=False)
    if o == "ok":
        f, cs, st, mk, tp = got
        kind = "prob" if "probability" in f.name() else {"air_temperature": "fc", "wind_speed": "other"}[f.name()]
        rec = dict(forecast=kind, template=tp is not None, coefs=len(cs) if cs else 0, statics=len(st) if st else 0, mask=mk is not None)
    s.event("sorted", items=list(items), named=named, out=o, **rec)


def outcome(ctx, s, items):
    rng = ctx.rng
    named = bool(rng.rand() < 0.5)
    nc = sum(q == "coef" for q in items)
    pers = bool(rng.rand() < 0.4)
    valid = bool(rng.rand() < 0.6)
    main = [q for q in items if q not in ("coef", "static", "mask")]
    masks = sum(q == "mask" for q in items)
    if nc > 1 or (pers and main == ["prob"]) or (masks and named and nc and (len(main) > 1 or pers)) or masks > 1:
        return
    pl, m, lead, lst, name, units = inputs(ctx, items, pers=pers)
    lst = with_coefs(ctx, pl, m, lead, lst, name, units, named)
    f0 = next((c[0].copy() for k, c in lst if k == "main"), None)
    p0 = next((c[0].copy() for k, c in lst if k == "prob"), None)
    kw = dict(percentiles=[20.0, 60.0] if pers else None, land_sea_mask_name="land_binary_mask" if named else None, realizations_count=m)
    if not valid:
        kw["validity_times"] = [["0500"], ["0415", "1600"]][rng.randint(2)]
    elif rng.rand() < 0.5:
        kw["validity_times"] = [["0400"], ["1000", "0400"]][rng.randint(2)]
    got = ctx.call(lambda: unwrap(apcli.process)(*[c for _, c in lst], **kw))
    same_as = lambda c: c is not None and got.name() == c.name() and got.shape == c.shape and np.allclose(got.data, c.data, atol=1e-5)
    if isinstance(got, Failed):
        res, com = "error", False
    else:
        com = "Calibration of this forecast has been attempted" in str(got.attributes.get("comment", ""))
        if f0 is None:
            res = "forecast" if same_as(p0) else "calibrated"
        elif same_as(p0):
            res = "template"
        elif same_as(f0):
            res = "forecast"
        elif pers and got.coords("percentile") and np.allclose(got.coord("percentile").points, [20, 60]):
            mid = np.median(np.asarray(f0.data))
            want = f0.data[1] + 0.4 * (f0.data[2] - f0.data[1])
            res = "resampled" if np.allclose(got.data[1], want, atol=1e-3) else "calibrated"
        else:
            res = "calibrated"
    s.event("outcome", items=list(items), named=named, valid=valid, pers=pers, res=res, comment=bool(com))


def frt(ctx, s):
    rng = ctx.rng
    n = int(rng.randint(1, 6))
    pts = sorted(int(v) for v in rng.choice(200, n, replace=False))
    b = None
    if rng.rand() < 0.5:
        b = [[p - int(rng.randint(0, 3)), p + int(rng.randint(0, 3))] for p in pts]
        for k in range(1, n):
            b[k][0], b[k][1] = max(b[k][0], b[k - 1][0] + 1), max(b[k][1], b[k - 1][1] + 1)
    base = 1510286400
    c = C.DimCoord(np.array(pts, dtype=np.int64) * HOUR + base, "forecast_reference_time", units=C.TUNITS, bounds=None if b is None else np.array(b, dtype=np.int64) * HOUR + base)
    if rng.rand() < 0.3:
        c = AuxCoord(c.points[::-1], "forecast_reference_time", units=C.TUNITS, bounds=None if b is None else c.bounds[::-1])
    got = ctx.call(lambda: create_unified_frt_coord(c))
    hr = lambda v: int((int(v) - base) // HOUR)
    ok = not isinstance(got, Failed) and got.shape == (1,) and got.has_bounds()
    s.event("frt", pts=pts, bounds=[q for r in b for q in r] if b else [], point=hr(got.points[0]) if ok else -1, lo=hr(got.bounds[0, 0]) if ok else -1, hi=hr(got.bounds[0, 1]) if ok else -1, out="ok" if ok else "error")


def rejected(ctx, s):
    rng = ctx.rng
    why = ["other_diagnostic", "other_units", "other_lead_time", "other_cycle", "other_domain", "sea_mask_with_points", "sea_mask_with_template", "no_count", "other_sites",
           "missing_predictor", "members_with_predictors", "moving_predictor", "unknown_distribution", "unknown_predictor", "units_of_truths", "no_matching_times",
           "mixed_distributions", "no_truths", "many_names", "mixed_lead_times", "surplus_predictor"][rng.randint(21)]
    pl = Places(rng, 2, grid=why not in ("other_sites",))
    while why == "other_domain" and pl.space == "spot":
        pl = Places(rng, 2)
    m, lead, name, units = 3, 4 * HOUR, "air_temperature", "K"
    x, v = training(rng, pl, 3, m)
    fcube = pl.cube(np.array(x[0]) / 100, name, units, lead=[C.realization(m)], t=C.T0, frt=C.T0 - lead)
    ex = ["surface_altitude"] if why in ("other_sites", "missing_predictor") else []
    cf = coefficients(rng, pl, name, units, m, "mean", ex, "norm", [0.0, 1.0] + [0.1] * len(ex) + [0.1, 1.0], False, lead)
    mask = pl.fixed(np.ones(pl.n), "land_binary_mask", "1")
    days = [1, 2, 3]
    fc, tr = history(rng, pl, x, name, units, days, lead), truths(pl, v, name, units, days)
    est = lambda *a, **k: EstimateCoefficientsForEnsembleCalibration(*a, **dict(dict(max_iterations=20), **k))
    apply = lambda **k: ApplyEMOS()(fcube, cf, **k)
    static = pl.fixed(np.ones(pl.n), "surface_altitude", "1")
    if why == "other_diagnostic":
        fcube.rename("dew_point_temperature")
        run = apply
    elif why == "other_units":
        fcube.units = "celsius"
        run = apply
    elif why == "other_lead_time":
        fcube.coord("forecast_period").points = fcube.coord("forecast_period").points + np.int32(HOUR)
        run = apply
    elif why == "other_cycle":
        fcube.coord("forecast_reference_time").points = fcube.coord("forecast_reference_time").points + 2 * HOUR
        run = apply
    elif why == "other_domain":
        c = fcube.coord(axis="xy"[rng.randint(2)])
        c.points = c.points + np.float32(50.0 if pl.space == "ll" else 50000.0)
        run = apply
    elif why == "sea_mask_with_points":
        run = lambda: est("norm", point_by_point=True)(fc.merge_cube(), tr.merge_cube(), landsea_mask=mask)
    elif why == "sea_mask_with_template":
        tp = C.prob(np.zeros((2,) + pl.shape), [5.0, 10.0], name=name, units=units, space=pl.space, t=C.T0, frt=C.T0 - lead)
        run = lambda: ApplyEMOS()(fcube, cf, land_sea_mask=mask, prob_template=tp)
    elif why == "no_count":
        fcube = pl.cube(np.sort(np.array(x[0]), axis=0) / 100, name, units, lead=[C.percentiles([25, 50, 75])], t=C.T0, frt=C.T0 - lead)
        run = lambda: ApplyEMOS()(fcube, cf)
    elif why == "other_sites":
        static.coord("wmo_id").points = np.array(["99999"] + list(static.coord("wmo_id").points[1:]))
        run = lambda: apply(additional_fields=CubeList([static]))
    elif why == "missing_predictor":
        run = apply
    elif why == "surplus_predictor":
        run = lambda: apply(additional_fields=CubeList([static]))
    elif why == "members_with_predictors":
        run = lambda: est("norm", predictor="realizations")(fc.merge_cube(), tr.merge_cube(), additional_fields=CubeList([static]))
    elif why == "moving_predictor":
        mv = pl.cube(np.ones(pl.n), "rainfall_rate", "1", t=C.T0, frt=C.T0 - lead)
        run = lambda: est("norm")(fc.merge_cube(), tr.merge_cube(), additional_fields=CubeList([mv]))
    elif why == "unknown_distribution":
        run = lambda: est("gamma_hat")(fc.merge_cube(), tr.merge_cube())
    elif why == "unknown_predictor":
        run = lambda: est("norm", predictor="median")(fc.merge_cube(), tr.merge_cube())
    elif why == "units_of_truths":
        for c in tr:
            c.units = "celsius"
        run = lambda: est("norm")(fc.merge_cube(), tr.merge_cube())
    elif why == "no_matching_times":
        tr = truths(pl, v, name, units, [11, 12, 13])
        run = lambda: est("norm")(fc.merge_cube(), tr.merge_cube())
    elif why == "mixed_distributions":
        cf[int(rng.randint(4))].attributes["distribution"] = "truncnorm"
        run = apply
    elif why == "no_truths":
        run = lambda: unwrap(escli.process)(*fc, distribution="norm", truth_attribute="kind=truth")
    elif why == "many_names":
        a, b = tr[0].copy(), tr[0].copy()
        a.rename("wind_speed"), b.rename("rainfall_rate")
        run = lambda: unwrap(escli.process)(*fc, *tr, a, b, distribution="norm", truth_attribute="kind=truth", max_iterations=20)
    else:
        fc[0].coord("forecast_period").points = fc[0].coord("forecast_period").points + np.int32(HOUR)
        fc[0].coord("forecast_reference_time").points = fc[0].coord("forecast_reference_time").points - HOUR
        run = lambda: unwrap(escli.process)(*fc, *tr, distribution="norm", truth_attribute="kind=truth", max_iterations=20)
    got = ctx.call(run)
    s.event("rejected", why=why, out=out(got))


def drive(ctx):
    ctx.cases_members = [c for c in ctx.cases if "members" in c]
    lists = [c for c in ctx.cases if "items" in c]
    k = 4 if ctx.thorough else 1
    for name, fn, n in (("params", params, 40), ("forecast", forecast, 100), ("score", score, 80), ("fitted", fitted, 7), ("guess", guess, 60), ("equal", equal, 19),
                        ("pairs", pairs, 80), ("usable", usable, 60), ("sufficient", sufficient, 60), ("frt", frt, 30), ("rejected", rejected, 80)):
        with ctx.session(name) as s:
            for _ in range(n * k):
                fn(ctx, s)
    with ctx.session("sorted") as s:
        for c in ctx.pick(lists, 180 * k):
            sort_inputs(ctx, s, c["items"])
    with ctx.session("outcome") as s:
        for c in ctx.pick(lists, 150 * k):
            outcome(ctx, s, c["items"])
