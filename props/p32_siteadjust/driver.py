"""Corrections learnt from past forecasts: mean bias, and rescaling by altitude difference."""
import warnings

import numpy as np
from iris.coords import AuxCoord, DimCoord
from iris.cube import CubeList
from vkit import cubes as C
from vkit.main import Failed

from improver.calibration.dz_rescaling import ApplyDzRescaling, EstimateDzRescaling
from improver.calibration.simple_bias_correction import ApplyBiasCorrection, CalculateForecastBias
from improver.cli import apply_bias_correction as abcli
from improver.cli import apply_dz_rescaling as azcli
from improver.cli import calculate_forecast_bias as cbcli
from improver.cli import estimate_dz_rescaling as ezcli
from improver.spotdata.build_spotdata_cube import build_spotdata_cube

MASKED, NAN = 2000000002, 2000000001
DAY, HOUR = 86400, 3600
OBS = {"title": "Observations", "source": "Radarnet", "institution": "Met Office", "kind": "truth"}


def unwrap(fn):
    fn = getattr(fn, "__wrapped__", fn)
    return getattr(fn, "__wrapped__", fn)


def out(r):
    return "error" if isinstance(r, Failed) else "ok"


def whole(a, scale):
    m = np.ma.getmaskarray(a)
    v = np.asarray(np.ma.getdata(a), dtype=float)
    return [MASKED if mm else NAN if np.isnan(x) else int(np.clip(np.rint(x * scale), -1.9e9, 1.9e9)) for x, mm in zip(v.flat, m.flat)]


def snap(cubes):
    return [c.copy() for c in cubes if c is not None]


def same(before, after):
    after = [c for c in after if c is not None]
    return all(a.metadata == b.metadata and a.coords() == b.coords() and a.shape == b.shape
               and np.array_equal(np.ma.getmaskarray(a.data), np.ma.getmaskarray(b.data))
               and np.array_equal(np.ma.filled(a.data, 0), np.ma.filled(b.data, 0), equal_nan=True) for a, b in zip(before, after))


class Places:
    """Points: sites or a grid."""

    def __init__(self, rng, n=None, grid=True):
        self.space = ["spot", "xy", "ll"][rng.randint(3)] if grid else "spot"
        if self.space == "spot":
            self.shape = (int(rng.randint(1, 5)) if n is None else n,)
        else:
            self.shape = (int(rng.randint(2, 4)), int(rng.randint(2, 4)))
        self.n = int(np.prod(self.shape))

    def cube(self, values, name, units, lead=(), **kw):
        k = [len(c.points) for c in lead]
        return C.grid(np.asarray(values, dtype=float).reshape(tuple(k) + self.shape), name, units, lead=lead, space=self.space, **kw)

    def fixed(self, values, name, units):
        return self.cube(values, name, units, t=None, attrs={"title": "Static", "source": "IMPROVER", "institution": "Met Office"})


def floats(v, scale=100):
    """Numbers with missing ones masked (or plain where none is missing)."""
    v = np.array(v)
    bad = v == MASKED
    r = np.where(bad, 0, v) / scale
    return np.ma.masked_array(r, bad) if bad.any() else r


def mcube(pl, v, name, units, lead=(), **kw):
    k = [len(c.points) for c in lead]
    return C.grid(floats(v).reshape(tuple(k) + pl.shape), name, units, lead=lead, space=pl.space, **kw)


# --- bias --------------------------------------------------------------------------

def bias(ctx, s):
    rng = ctx.rng
    pl = Places(rng)
    case = ctx.ft[rng.randint(len(ctx.ft))]
    n = int(rng.randint(1, 5))
    lead = int(rng.choice([3, 6, 30])) * HOUR
    days = [int(d) for d in rng.permutation(10)[:n] + 1]
    tdays = days if rng.rand() < 0.6 else [d for d in days if rng.rand() < 0.7] + [int(d) for d in 20 + rng.permutation(5)[:rng.randint(1, 3)]]
    if not set(tdays) & set(days):
        tdays = tdays + [days[0]]
    missing = rng.rand() < 0.5

    def numbers(k, which):
        r = []
        for _ in range(k):
            v = [int(rng.choice(case[which])) if rng.rand() < 0.5 else int(rng.randint(0, 3000)) for _ in range(pl.n)]
            r.append([q if missing or q != MASKED else 40 for q in v])
        return r

    fv, tv = numbers(len(days), "f"), numbers(len(tdays), "t")
    name, units = [("wind_speed", "m s-1"), ("air_temperature", "celsius")][rng.randint(2)]
    extra = [[], [], [C.realization([0])], [C.percentiles([50])]][rng.randint(4)]
    T = lambda d: C.T0 - d * DAY
    fs = CubeList(mcube(pl, v, name, units, lead=extra, t=T(d), frt=T(d) - lead, tdim=0) for v, d in zip(fv, days))
    ts = CubeList(mcube(pl, v, name, units, t=T(d), frt=T(d), attrs=OBS) for v, d in zip(tv, tdays))
    cli = rng.rand() < 0.3
    before = snap(list(fs) + list(ts))
    if cli:
        cubes = list(fs) + list(ts)
        cubes = [cubes[k] for k in rng.permutation(len(cubes))]
        r = ctx.call(lambda: unwrap(cbcli.process)(*cubes, truth_attribute="kind=truth"))
    else:
        hist, obs = fs.merge_cube(), ts.merge_cube()
        before = snap([hist])
        r = ctx.call(lambda: CalculateForecastBias()(hist, obs))
    rec = dict(fs=[{"time": T(d) // HOUR, "frt": (T(d) - lead) // HOUR, "v": v} for v, d in zip(fv, days)],
               ts=[{"time": T(d) // HOUR, "v": v} for v, d in zip(tv, tdays)], dim=len(set(days) & set(tdays)) > 1 if not extra else len(set(days) & set(tdays)) > 1)
    if isinstance(r, Failed):
        s.event("bias", out="error", err=r.text[:200], **rec)
        return
    frt = r.coord("forecast_reference_time")
    meta = r.name() == "forecast_error_of_" + name and r.units == units and r.dtype == np.float32 and r.attributes == {
        "title": "Forecast bias data", "source": C.ATTRS["source"], "institution": C.ATTRS["institution"]} and not r.coords("time") and \
        r.coord("forecast_period").points[0] == lead and r.shape[-len(pl.shape):] == pl.shape and frt.points.dtype == np.int64
    s.event("bias", got=whole(r.data, 1000), point=int(frt.points[0]) // HOUR, lo=int(frt.bounds.min()) // HOUR if frt.has_bounds() else NAN,
            hi=int(frt.bounds.max()) // HOUR if frt.has_bounds() else NAN, meta=bool(meta), kept=bool(same(before, list(fs) + list(ts) if cli else [hist])), **rec)


def bias_cubes(rng, pl, b, name, units, lead):
    r = CubeList()
    for k, v in enumerate(b):
        c = mcube(pl, v, "forecast_error_of_" + name, units, t=C.T0 - (k + 1) * DAY, frt=C.T0 - (k + 1) * DAY - lead,
                  attrs={"title": "Forecast bias data", "source": "IMPROVER", "institution": "Met Office"})
        c.remove_coord("time")
        r.append(c)
    return r


def corrected(ctx, s):
    rng = ctx.rng
    pl = Places(rng)
    m = int(rng.randint(1, 4))
    nb = int(rng.choice([1, 1, 2, 3]))
    lead = int(rng.choice([3, 6, 30])) * HOUR
    name, units = [("wind_speed", "m s-1"), ("air_temperature", "celsius")][rng.randint(2)]
    miss = rng.rand(2) < [0.25, 0.5]
    x = [[MASKED if miss[0] and rng.rand() < 0.2 else int(rng.randint(0, 2000)) for _ in range(pl.n)] for _ in range(m)]
    if miss[0]:
        bad = [q == MASKED for q in x[0]]
        x = [[MASKED if z else (q if q != MASKED else 77) for q, z in zip(v, bad)] for v in x]
    b = [[MASKED if miss[1] and rng.rand() < 0.3 else int(rng.randint(-600, 600)) for _ in range(pl.n)] for _ in range(nb)]
    fill = bool(rng.rand() < 0.5)
    lo = NAN if rng.rand() < 0.5 else int(rng.choice([0, 100, 500]))
    hi = NAN if rng.rand() < 0.5 else int(rng.choice([900, 1500]))
    scalar = m == 1 and rng.rand() < 0.5
    ld = [] if scalar else [C.realization(m)]
    f = mcube(pl, x, name, units, lead=ld, t=C.T0, frt=C.T0 - lead)
    bs = bias_cubes(rng, pl, b, name, units, lead)
    bounded = nb == 1 and rng.rand() < 0.5
    if bounded:
        c = bs[0].coord("forecast_reference_time")
        c.bounds = np.array([[c.points[0] - 3 * DAY, c.points[0]]], dtype=np.int64)
    items = [f] + list(bs)
    items = [items[k] for k in rng.permutation(len(items))]
    before = snap([f] + list(bs))
    kw = dict(lower_bound=None if lo == NAN else lo / 100, upper_bound=None if hi == NAN else hi / 100)
    if rng.rand() < 0.5:
        r = ctx.call(lambda: unwrap(abcli.process)(*items, fill_masked_bias_data=fill, **kw))
    else:
        r = ctx.call(lambda: ApplyBiasCorrection(fill_masked_bias_values=fill, **kw)(CubeList(items)))
    rec = dict(f=x, biases=b, fill=fill, lo=lo, hi=hi)
    if isinstance(r, Failed):
        s.event("corrected", out="error", err=r.text[:200], **rec)
        return
    g = whole(r.data, 1000)
    meta = r.name() == name and r.units == units and r.dtype == np.float32 and r.shape == f.shape and r.coords() == f.coords() and r.attributes == f.attributes \
        and [c.name() for c in r.coords(dim_coords=True)] == [c.name() for c in f.coords(dim_coords=True)]
    s.event("corrected", got=[g[k * pl.n:(k + 1) * pl.n] for k in range(m)], meta=bool(meta), kept=bool(same(before, [f] + list(bs))), **rec)


def uncorrected(ctx, s):
    rng = ctx.rng
    pl = Places(rng)
    m = int(rng.randint(1, 4))
    x = [[int(rng.randint(0, 2000)) for _ in range(pl.n)] for _ in range(m)]
    f = mcube(pl, x, "wind_speed", "m s-1", lead=[C.realization(m)], t=C.T0, frt=C.T0 - 3 * HOUR)
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        r = ctx.call(lambda: ApplyBiasCorrection(lower_bound=5.0)(f) if rng.rand() < 0.5 else unwrap(abcli.process)(f, lower_bound=5.0))
    if isinstance(r, Failed):
        s.event("uncorrected", out="error", err=r.text[:200])
        return
    g = whole(r.data, 100)
    s.event("uncorrected", f=x, got=[g[k * pl.n:(k + 1) * pl.n] for k in range(m)],
            comment=bool("no calibration has been applied" in r.attributes.get("comment", "") and any("will be returned" in str(q.message) for q in w)))


# --- altitude ------------------------------------------------------------------------

IDS = ["03002", "03100", "03772", "03803", "99001", "99002", "03017"]
METHODS = ["nearest", "nearest_land", "nearest_minimum_dz", "nearest_land_minimum_dz"]


def sites(ids, v, name, units, lead=(), **kw):
    c = C.grid(np.asarray(v, dtype=float), name, units, lead=lead, space="spot", ids=ids,
               lat=[50 + IDS.index(i) for i in ids], lon=[IDS.index(i) for i in ids], alt=[10 * IDS.index(i) for i in ids], **kw)
    return c


def neighbours(rng, ids, d, used, methods=METHODS):
    """Displacements d (m) under the method used; other methods hold others."""
    data = np.zeros((len(methods), 3, len(ids)))
    for k, mt in enumerate(methods):
        data[k, 0] = rng.randint(0, 9, len(ids))
        data[k, 1] = rng.randint(0, 9, len(ids))
        data[k, 2] = d if mt == used else rng.randint(-30, 30, len(ids)) * 10
    return build_spotdata_cube(data.astype(np.float32), "grid_neighbours", "1", np.array([10 * IDS.index(i) for i in ids], dtype=np.float32),
                               np.array([50 + IDS.index(i) for i in ids], dtype=np.float32), np.array([IDS.index(i) for i in ids], dtype=np.float32), list(ids),
                               neighbour_methods=methods, grid_attributes=["x_index", "y_index", "vertical_displacement"])


def fit(ctx, s):
    rng = ctx.rng
    case = ctx.sites[rng.randint(len(ctx.sites))]["sites"]
    n = int(rng.randint(2, 7))
    all_ids = [str(i) for i in rng.permutation(IDS)]
    ids = all_ids[:n]
    spread = int(rng.choice([3, 10, 30]))
    ds = {i: int(rng.randint(-spread, spread + 1)) for i in IDS}
    if rng.rand() < 0.4:
        for i, q in zip(ids, case):
            ds[i] = q["d"]
    nt = int(rng.randint(1, 4))
    days = [int(k) for k in rng.permutation(8)[:nt] + 1]
    slope = rng.choice([0.0, 0.01, -0.02, 0.03])
    noise = rng.choice([0.0, 0.05, 0.3])
    perfect = rng.rand() < 0.12
    F, T = {}, {}
    holes = rng.rand() < 0.35
    for d in days:
        for i in IDS:
            t = int(rng.randint(300, 2500))
            f = int(np.clip(t * np.exp(slope * ds[i] + noise * rng.normal()), 100, 9000))
            if perfect:
                f = t
            if rng.rand() < 0.08:
                f = 0
            if rng.rand() < 0.08:
                t = 0
            if holes and rng.rand() < 0.15:
                t = NAN
            if holes and rng.rand() < 0.08:
                f = NAN
            F[d, i], T[d, i] = f, t
        if all(F[d, i] == NAN for i in ids):
            F[d, ids[0]] = 500
    subset = rng.rand() < 0.4
    sub = lambda: [i for i in all_ids if i in ids or rng.rand() < 0.4] if subset else list(ids)
    fi, ti, ni = sub(), sub(), sub()
    if rng.rand() < 0.25:
        ti = [str(i) for i in rng.permutation(ti)]
    if rng.rand() < 0.25:
        ni = [str(i) for i in rng.permutation(ni)]
    tdays = days if rng.rand() < 0.7 else days + [int(rng.randint(20, 24))]
    for i in IDS:
        if tdays[-1] not in days:
            F[tdays[-1], i] = T[tdays[-1], i] = 700
    for d in days:
        if all(F[d, i] == NAN for i in fi):
            F[d, fi[0]] = 500
    lead = int(rng.choice([3, 6, 30]))
    off = int(rng.choice([0, 0, 1, -2]))
    ps = [[50], [50], [20, 50, 80]][rng.randint(3)]
    num = lambda v: np.array([np.nan if q == NAN else q / 100 for q in v])
    TT = lambda d: C.T0 - d * DAY
    fc = CubeList(sites(fi, np.array([num([F[d, i] for i in fi]) * (1 + (p - 50) / 100) for p in ps]), "wind_speed", "m s-1", lead=[C.percentiles(ps)],
                        t=TT(d), frt=TT(d) - lead * HOUR) for d in days).merge_cube()
    tr = CubeList(sites(ti, num([T[d, i] for i in ti]), "wind_speed", "m s-1", t=TT(d), frt=TT(d)) for d in tdays).merge_cube()
    land, alt = bool(rng.rand() < 0.5), bool(rng.rand() < 0.5)
    used = METHODS[(1 if land else 0) + (2 if alt else 0)]
    nc = neighbours(rng, ni, [10 * ds[i] for i in ni], used)
    nc.attributes["model_grid_hash"] = "123"
    lo, hi = (None, None) if rng.rand() < 0.5 else [(-200, 200), (-75, 80), (None, 100), (-100, None)][rng.randint(4)]
    kw = dict(forecast_period=lead + off, dz_lower_bound=lo, dz_upper_bound=hi, land_constraint=land, similar_altitude=alt)
    key = "wmo_id"
    if rng.rand() < 0.2:
        key = "station_id"
        for c in (fc, tr, nc):
            c.coord("wmo_id").rename(key)
        kw["site_id_coord"] = key
    before = snap([fc, tr, nc])
    if rng.rand() < 0.3:
        r = ctx.call(lambda: unwrap(ezcli.process)(fc, tr, nc, **kw))
    else:
        r = ctx.call(lambda: EstimateDzRescaling(**kw)(fc, tr, nc))
    rec = dict(f=[{"time": d, "site": i, "v": F[d, i]} for d in days for i in fi], t=[{"time": d, "site": i, "v": T[d, i]} for d in tdays for i in ti],
               n=[{"site": i, "d": ds[i]} for i in ni], lo=-1000 if lo is None else int(np.ceil(lo / 10)), hi=1000 if hi is None else hi // 10)
    if lo is not None and lo % 10 or hi is not None and hi % 10:
        # bounds between steps hold the factor at the bound itself: keep to displacements inside
        if any(abs(ds[i]) * 10 > 75 for i in ni):
            return
    if isinstance(r, Failed):
        u = [i for i in fi if i in ti and i in ni]
        usable = {ds[i] for d in days for i in u if F[d, i] not in (0, NAN) and T[d, i] not in (0, NAN) and rec["lo"] <= ds[i] <= rec["hi"]}
        if len(usable) > 1:
            s.event("fit", out="error", err=r.text[:200], **rec)
        return
    meta = r.name() == "scaled_vertical_displacement" and r.units == "1" and r.shape == (len(ni),) and list(r.coord(key).points) == ni and \
        r.coord("forecast_reference_time_hour").dtype == np.int32 and r.coord("forecast_period").points[0] == (lead + off) * HOUR and r.coord("forecast_period").units == "seconds" and \
        r.coord("forecast_reference_time_hour").points[0] == ((TT(days[0]) - (lead + off) * HOUR) % DAY) // HOUR * HOUR and r.coord("forecast_reference_time_hour").units == "seconds" and \
        not any(c.name() in ("grid_attributes", "grid_attributes_key", "neighbour_selection_method", "time", "forecast_reference_time") for c in r.coords()) and \
        "model_grid_hash" not in r.attributes and np.array_equal(r.coord("latitude").points, nc.coord("latitude").points)
    s.event("fit", got=whole(np.minimum(r.data, 1e5), 10000), meta=bool(meta), kept=bool(same(before, [fc, tr, nc])), **rec)


def table(rng, ids, fps, hours, w):
    cl = CubeList()
    for a, h in enumerate(hours):
        for b, fp in enumerate(fps):
            c = sites(ids, np.array(w[a][b]) / 10000, "scaled_vertical_displacement", "1", t=None, attrs={})
            c.add_aux_coord(AuxCoord(np.array([fp * HOUR], dtype=np.int32), "forecast_period", units="seconds"))
            c.add_aux_coord(AuxCoord(np.array([h * HOUR], dtype=np.int32), long_name="forecast_reference_time_hour", units="seconds"))
            cl.append(c)
    return cl.merge_cube()


def rescale(ctx, s, case):
    rng = ctx.rng
    fps, hours, fp, h = case["fps"], case["hours"], case["fp"], case["h"]
    ids = [str(i) for i in rng.permutation(IDS)[: rng.randint(1, 5)]]
    w = [[[int(v) for v in rng.randint(5000, 20000, len(ids))] for _ in fps] for _ in hours]
    ps = [[50], [20, 50, 80]][rng.randint(2)]
    x = [[int(v) for v in rng.randint(0, 3000, len(ids))] for _ in ps]
    frt = C.T0 - C.T0 % DAY + h * HOUR
    f = sites(ids, np.array(x) / 100, "wind_speed", "m s-1", lead=[C.percentiles(ps)], t=frt + fp * HOUR, frt=frt)
    tab = table(rng, ids, fps, hours, w)
    ln = int(rng.choice([0, 1, 1, 2]))
    key = "wmo_id"
    if rng.rand() < 0.2:
        key = "station_id"
        f.coord("wmo_id").rename(key), tab.coord("wmo_id").rename(key)
    was = f.copy()
    if ln == 1 and rng.rand() < 0.5:
        r = ctx.call(lambda: unwrap(azcli.process)(f, tab, site_id_coord=key))
    else:
        r = ctx.call(lambda: ApplyDzRescaling(site_id_coord=key, frt_hour_leniency=ln)(f, tab))
    rec = dict(fps=fps, hours=hours, fp=fp, h=h, len=ln, f=x, table=w)
    if isinstance(r, Failed):
        s.event("rescale", out="error", err=r.text[:200], **rec)
        return
    g = whole(r.data, 1000)
    att = dict(r.attributes)
    att.pop("title"), was.attributes.pop("title")
    meta = r.name() == "wind_speed" and r.units == "m s-1" and r.dtype == np.float32 and r.coords() == was.coords() and att == was.attributes
    s.event("rescale", out="ok", got=[g[k * len(ids):(k + 1) * len(ids)] for k in range(len(ps))], meta=bool(meta), **rec)


def rejected(ctx, s):
    rng = ctx.rng
    why = ["chances", "many_members", "many_percentiles", "cycle_hours", "lead_times", "no_times", "other_cycle", "other_lead", "mixed_bias_cycles", "mixed_bias_leads",
           "bounded_biases", "two_forecasts", "no_forecast", "other_sites", "fewer_sites", "reordered_sites"][rng.randint(16)]
    pl = Places(rng)
    lead = 6 * HOUR
    val = lambda *k: rng.randint(0, 2000, k + (pl.n,))
    T = lambda d: C.T0 - d * DAY
    ts = CubeList(mcube(pl, val(), "wind_speed", "m s-1", t=T(d), frt=T(d), attrs=OBS) for d in (1, 2)).merge_cube()
    fs = lambda ld=(), **kw: CubeList(mcube(pl, val(*[len(c.points) for c in ld]), "wind_speed", "m s-1", lead=ld, t=T(d), frt=T(d) - lead, **kw) for d in (1, 2)).merge_cube()
    f = mcube(pl, val(2), "wind_speed", "m s-1", lead=[C.realization(2)], t=C.T0, frt=C.T0 - lead)
    bs = bias_cubes(rng, pl, [val(), val()], "wind_speed", "m s-1", lead)
    if why == "chances":
        h = CubeList(C.prob(np.zeros((2,) + pl.shape), [5.0, 10.0], name="wind_speed", units="m s-1", space=pl.space, t=T(d), frt=T(d) - lead) for d in (1, 2)).merge_cube()
        run = lambda: CalculateForecastBias()(h, ts)
    elif why == "many_members":
        run = lambda: CalculateForecastBias()(fs([C.realization(2)]), ts)
    elif why == "many_percentiles":
        run = lambda: CalculateForecastBias()(fs([C.percentiles([25, 75])]), ts)
    elif why in ("cycle_hours", "lead_times"):
        h = CubeList(mcube(pl, val(), "wind_speed", "m s-1", t=T(d) + (0 if why == "lead_times" else k * HOUR), frt=T(d) - lead + (k * HOUR if why == "cycle_hours" else -k * DAY)) for k, d in enumerate((1, 2)))
        t2 = CubeList(mcube(pl, val(), "wind_speed", "m s-1", t=c.coord("time").points[0], frt=c.coord("time").points[0], attrs=OBS) for c in h).merge_cube()
        run = lambda: CalculateForecastBias()(h.merge_cube(), t2)
    elif why == "no_times":
        t2 = CubeList(mcube(pl, val(), "wind_speed", "m s-1", t=T(d), frt=T(d), attrs=OBS) for d in (7, 8)).merge_cube()
        run = lambda: CalculateForecastBias()(fs(), t2)
    elif why in ("other_cycle", "other_lead"):
        frt = f.coord("forecast_reference_time")
        k = HOUR if why == "other_cycle" else DAY
        f = mcube(pl, val(2), "wind_speed", "m s-1", lead=[C.realization(2)], t=C.T0 + (k if why == "other_cycle" else 0), frt=C.T0 - lead + (k if why == "other_cycle" else -k))
        run = lambda: ApplyBiasCorrection()(CubeList([f] + list(bs[: rng.randint(1, 3)])))
    elif why in ("mixed_bias_cycles", "mixed_bias_leads"):
        c = bs[1].coord("forecast_reference_time" if why == "mixed_bias_cycles" else "forecast_period")
        c.points = c.points + np.array(HOUR, dtype=c.points.dtype)
        run = lambda: ApplyBiasCorrection()(CubeList([f] + list(bs)))
    elif why == "bounded_biases":
        c = bs[int(rng.randint(2))].coord("forecast_reference_time")
        c.bounds = np.array([[c.points[0] - DAY, c.points[0]]], dtype=np.int64)
        run = lambda: ApplyBiasCorrection()(CubeList([f] + list(bs)))
    elif why == "two_forecasts":
        run = lambda: ApplyBiasCorrection()(CubeList([f, f.copy()] + list(bs)))
    elif why == "no_forecast":
        run = lambda: ApplyBiasCorrection()(CubeList(bs))
    else:
        ids = ["03002", "03100", "03772"]
        oth = {"other_sites": ["03002", "03100", "99001"], "fewer_sites": ["03002", "03100"], "reordered_sites": ["03100", "03002", "03772"]}[why]
        g = sites(ids, rng.randint(0, 20, (1, 3)), "wind_speed", "m s-1", lead=[C.percentiles([50])], t=C.T0, frt=C.T0 - lead)
        hr = int(((C.T0 - lead) % DAY) // HOUR)
        run = lambda: ApplyDzRescaling()(g, table(rng, oth, [6], [hr], [[[10000] * len(oth)]]))
    s.event("rejected", why=why, out=out(ctx.call(run)))


def drive(ctx):
    ctx.ft = [c for c in ctx.cases if "f" in c and "sites" not in c]
    ctx.sites = [c for c in ctx.cases if "sites" in c]
    tables = [c for c in ctx.cases if "fps" in c]
    k = 4 if ctx.thorough else 1
    for name, fn, n in (("bias", bias, 120), ("corrected", corrected, 150), ("uncorrected", uncorrected, 20), ("fit", fit, 160), ("rejected", rejected, 80)):
        with ctx.session(name) as s:
            for _ in range(n * k):
                fn(ctx, s)
    with ctx.session("rescale") as s:
        for c in ctx.pick(tables, 200 * k):
            rescale(ctx, s, c)
