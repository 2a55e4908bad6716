import numpy as np
from vkit import fx, fx1, shape
from vkit import cubes as C
from vkit.main import Failed

from improver.between_thresholds import OccurrenceBetweenThresholds
from improver.cli.generate_percentiles import process as generate_percentiles
from improver.ensemble_copula_coupling.ensemble_copula_coupling import (
    ConvertProbabilitiesToPercentiles, RebadgeRealizationsAsPercentiles, ResamplePercentiles)
from improver.expected_value import ExpectedValue
from improver.percentile import PercentileConverter
from improver.utilities.probability_manipulation import (invert_probabilities,
                                                         to_threshold_inequality)

M = 2000000002
RELS = ["greater_than", "greater_than_or_equal_to", "less_than", "less_than_or_equal_to"]
# diagnostics: name, units, smallest and largest value (in thousandths), spread of thresholds
DIAG = {"air_temperature": ("K", 173150, 333150, (250, 300)),
        "lwe_precipitation_rate": ("mm h-1", 0, 400000, (0, 60)),
        "wind_speed": ("m s-1", 0, 50000, (1, 40)),
        "lwe_precipitation_rate_in_vicinity": ("mm h-1", 0, 400000, (0, 60))}


def pts(arr, axis):
    """List per point (in C order of the other dimensions) of values along axis."""
    m = np.ma.getmaskarray(arr)
    a = np.moveaxis(np.ma.getdata(arr), axis, -1)
    m = np.moveaxis(m, axis, -1)
    a, m = a.reshape((-1, a.shape[-1])), m.reshape((-1, m.shape[-1]))
    return np.ma.masked_array(a, mask=m)


def points(arr, axis, scale):
    p = pts(arr, axis)
    return [fx(p[i], scale) for i in range(p.shape[0])]


def random_prob(rng, ctx, relative=None, nt=None, mask=None, name=None, real=None):
    name = name or ["air_temperature", "lwe_precipitation_rate", "wind_speed"][rng.randint(3)]
    units, lo, hi, (a, b) = DIAG[name]
    nt = nt or int(rng.randint(2, 6))
    t = sorted(rng.choice(np.arange(a * 4, b * 4), nt, replace=False).tolist())
    rel = relative or RELS[rng.randint(4)]
    ny, nx = int(rng.randint(2, 4)), int(rng.randint(2, 4))
    nr = int(rng.randint(1, 4)) if real is None else real
    lead = [C.realization(nr)] if nr > 1 else []
    shp = tuple(c.shape[0] for c in lead) + (ny, nx)
    c = np.sort(rng.randint(0, 21, (nt,) + shp), axis=0)
    if rng.rand() < 0.3:
        c = np.sort(rng.choice([0, 0, 10, 20, 20], (nt,) + shp), axis=0)
    p = (20 - c) if rel.startswith("greater") else c
    data = (p / 20.0).astype(np.float32)
    if mask if mask is not None else rng.rand() < 0.3:
        mm = rng.rand(*shp[-2:]) < 0.3
        mm[0, 0] = False
        if mm.any():
            full = np.broadcast_to(mm, data.shape).copy()
            data = np.ma.masked_array(data, mask=full)
            p = np.where(full, M, p)
    lf = bool(rng.randint(2)) and bool(lead)
    if lf:
        data, p = np.moveaxis(data, 0, 1), np.moveaxis(p, 0, 1)
    cube = C.prob(data, [x / 4.0 for x in t], name=name, units=units, relative=rel, lead=lead,
                  lead_first=lf)
    return cube, p, [250 * x for x in t], rel, name, lo, hi, int(lf)


def probs2perc(ctx, s, plug_kw, kind, rng, single=False):
    cube, p, t, rel, name, lo, hi, ax = random_prob(rng, ctx)
    prob = [[int(v) for v in row] for row in
            np.moveaxis(p, ax, -1).reshape((-1, p.shape[ax])).tolist()]
    widen = bool(plug_kw.get("ecc_bounds_warning"))
    if kind == "n":
        n = int(rng.randint(1, 8))
        kw = {"no_of_percentiles": n}
        pn, pd = [100 * (i + 1) for i in range(n)], n + 1
    elif kind == "default":
        n = len(t)
        kw = {}
        pn, pd = [100 * (i + 1) for i in range(n)], n + 1
    else:
        n = 1 if single else int(rng.randint(1, 6))
        req = rng.choice(np.arange(0, 101), n, replace=False).tolist()
        if rng.rand() < 0.5:
            req = rng.choice([0, 5, 10, 25, 50, 75, 90, 95, 100], n, replace=False).tolist()
        kw = {"percentiles": [float(x) for x in req]}
        pn, pd = sorted(req), 1
    plug = ConvertProbabilitiesToPercentiles(**plug_kw)
    cli = kind == "perc" and rng.rand() < 0.3
    twice = rng.rand() < 0.3
    for go in range(2 if twice else 1):
        ref = cube.copy()
        if cli:
            r = ctx.call(generate_percentiles, cube, percentiles=[str(x) for x in req],
                         ignore_ecc_bounds_exceedance=widen,
                         skip_ecc_bounds=plug_kw.get("skip_ecc_bounds", False),
                         mask_percentiles=plug_kw.get("mask_percentiles", False))
        else:
            r = ctx.call(plug, cube, **kw)
        plain = dict(prob=prob, t=t, rel=rel, lo=lo, hi=hi, pn=pn, pd=pd, widen=widen,
                     skip=bool(plug_kw.get("skip_ecc_bounds")), cli=cli,
                     maskp=bool(plug_kw.get("mask_percentiles")), tol=4, go=go)
        if isinstance(r, Failed):
            s.event("prob2perc", out="error", err=r.text, **plain)
            return
        pc = r.coord("percentile")
        ax2 = r.coord_dims("percentile")
        d = r.data if ax2 else r.data[np.newaxis]
        if ref.coords("realization", dim_coords=True) and len(pn) > 1:
            pass
        vals = points(d, ax2[0] if ax2 else 0, 1000)
        meta = r.name() == name and r.units == DIAG[name][0] and pc.units == "%" and \
            not r.coords(var_name="threshold") and dict(r.attributes) == dict(ref.attributes) and \
            all(r.coords(c) and r.coord(c) == ref.coord(c) for c in
                ("time", "forecast_period", "projection_x_coordinate",
                 "projection_y_coordinate")) and r.dtype == np.float32
        s.event("prob2perc", out="ok", values=vals,
                pcoord=[int(round(float(v) * pd)) for v in pc.points], meta=bool(meta), **plain)


def resample(ctx, s, rng):
    name = ["air_temperature", "wind_speed"][rng.randint(2)]
    units, lo, hi, (a, b) = DIAG[name]
    k = int(rng.randint(2, 6))
    ps = sorted(rng.choice(np.arange(0, 101, 5), k, replace=False).tolist())
    ny, nx = int(rng.randint(1, 4)), int(rng.randint(2, 4))
    data = np.sort(rng.randint(a * 4, b * 4, (k, ny, nx)), axis=0)
    skip = bool(rng.randint(2))
    widen = bool(rng.rand() < 0.3)
    if widen and not skip:
        data[-1, 0, 0] = (hi + 3000) // 250
    out = np.array(data * 250)
    arr = (data / 4.0).astype(np.float32)
    if rng.rand() < 0.4:
        mm = rng.rand(ny, nx) < 0.4
        mm[0, 0] = False
        if mm.any():
            arr = np.ma.masked_array(arr, mask=np.broadcast_to(mm, arr.shape).copy())
            out = np.where(np.ma.getmaskarray(arr), M, out)
    cube = C.grid(arr, name, units, lead=[C.percentiles(ps)])
    first = rng.rand() < 0.7
    if not first:
        cube.transpose([1, 0, 2] if rng.rand() < 0.5 else [1, 2, 0])
    ref = cube.copy()
    if rng.rand() < 0.5:
        n = int(rng.randint(1, 7))
        kw = {"no_of_percentiles": n}
        pn, pd = [100 * (i + 1) for i in range(n)], n + 1
    else:
        n = int(rng.randint(1, 6))
        req = rng.choice(np.arange(0, 101), n, replace=False).tolist()
        kw = {"percentiles": [float(x) for x in req]}
        pn, pd = sorted(req), 1
    plug = ResamplePercentiles(ecc_bounds_warning=widen, skip_ecc_bounds=skip)
    plain = dict(data=[[int(v) for v in r] for r in
                       np.moveaxis(out, 0, -1).reshape((-1, k)).tolist()], ps=ps, lo=lo, hi=hi,
                 pn=pn, pd=pd, skip=skip, widen=widen, tol=5)
    for go in range(1 + int(rng.randint(2))):
        r = ctx.call(plug, cube, **kw)
        if isinstance(r, Failed):
            s.event("resample", out="error", err=r.text, go=go, **plain)
            return
        pc = r.coord("percentile")
        ax2 = r.coord_dims("percentile")
        d = r.data if ax2 else r.data[np.newaxis]
        meta = r.name() == name and r.units == units and pc.units == "%" and \
            dict(r.attributes) == dict(ref.attributes) and \
            all(r.coords(c) and r.coord(c) == ref.coord(c) for c in
                ("time", "forecast_period", "projection_x_coordinate", "projection_y_coordinate"))
        s.event("resample", out="ok", values=points(d, ax2[0] if ax2 else 0, 1000), go=go,
                pcoord=[int(round(float(v) * pd)) for v in pc.points], meta=bool(meta), **plain)


def collapse(ctx, s, rng):
    shp = (int(rng.randint(1, 6)), int(rng.randint(1, 4)), int(rng.randint(2, 4)))
    data = rng.randint(-40, 60, shp)
    arr = data.astype(np.float32)
    masked = rng.rand() < 0.35
    enc = data.copy()
    if masked:
        mm = rng.rand(*shp) < 0.3
        arr = np.ma.masked_array(arr, mask=mm)
        enc = np.where(mm, M, data)
        masked = bool(mm.any())
    cube = C.grid(arr, "air_temperature", "K", lead=[C.realization(shp[0])])
    over = ["realization", ["realization"], ["projection_y_coordinate", "projection_x_coordinate"],
            ["projection_x_coordinate", "projection_y_coordinate"],
            ["realization", "projection_x_coordinate"]][rng.randint(5)]
    dims = [{"realization": 0, "projection_y_coordinate": 1, "projection_x_coordinate": 2}[c]
            for c in (over if isinstance(over, list) else [over])]
    keep = [i for i in range(3) if i not in dims]
    groups = np.transpose(enc, keep + dims).reshape(
        (int(np.prod([shp[i] for i in keep])), -1)).tolist()
    dflt = rng.rand() < 0.2
    pcs = [0, 5, 10, 20, 25, 30, 40, 50, 60, 70, 75, 80, 90, 95, 100] if dflt else \
        rng.choice(np.arange(0, 101), rng.randint(1, 5), replace=False).tolist()
    if not dflt and rng.rand() < 0.7:
        pcs = sorted(pcs)
    ref = cube.copy()
    if masked or rng.rand() < 0.5:
        r = ctx.call(generate_percentiles, cube, coordinates=over,
                     percentiles=None if dflt else [str(x) for x in pcs])
    else:
        r = ctx.call(PercentileConverter(over, percentiles=None if dflt else pcs), cube)
    plain = dict(data=groups, pn=pcs, masked=masked)
    if isinstance(r, Failed):
        s.event("collapse", out="error", err=r.text, **plain)
        return
    pc = r.coord("percentile")
    ax2 = r.coord_dims("percentile")
    d = r.data if ax2 else r.data[np.newaxis]
    left = [c for c in (over if isinstance(over, list) else [over]) if r.coords(c)]
    meta = r.name() == "air_temperature" and r.units == "K" and pc.units == "%" and not left and \
        r.dtype == ref.dtype and dict(r.attributes) == dict(ref.attributes)
    s.event("collapse", out="ok", values=points(d, ax2[0] if ax2 else 0, 100),
            pcoord=[int(round(float(v))) for v in pc.points], meta=bool(meta), **plain)


def rebadge(ctx, s, rng):
    n = int(rng.randint(1, 7))
    shp = (n, 2, int(rng.randint(2, 4)))
    data = rng.randint(-40, 60, shp)
    cube = C.grid(data, "air_temperature", "K", lead=[C.realization(n, int(rng.randint(0, 3)))])
    if rng.rand() < 0.3:
        cube.transpose([1, 0, 2])
    opt = bool(rng.randint(2))
    ref = cube.copy()
    if rng.rand() < 0.5:
        r = ctx.call(generate_percentiles, cube, optimal_crps_percentiles=opt)
    else:
        r = ctx.call(RebadgeRealizationsAsPercentiles(optimal_crps_percentiles=opt), cube)
    plain = dict(data=np.moveaxis(data, 0, -1).reshape((-1, n)).tolist(), optimal=opt)
    if isinstance(r, Failed):
        s.event("rebadge", out="error", err=r.text, **plain)
        return
    ax = r.coord_dims("percentile")[0]
    meta = r.name() == "air_temperature" and r.coord("percentile").units == "%" and \
        not r.coords("realization") and cube == ref and np.array_equal(cube.data, ref.data)
    s.event("rebadge", out="ok", values=points(r.data, ax, 1), meta=bool(meta),
            pcoord=fx(r.coord("percentile").points, 1000), **plain)


def between(ctx, s, rng):
    name = ["air_temperature", "lwe_precipitation_rate", "visibility_in_air"][rng.randint(3)]
    conv = {"air_temperature": ("K", "celsius", lambda v: v - 273150),
            "lwe_precipitation_rate": ("mm h-1", "mm h-1", lambda v: v),
            "visibility_in_air": ("m", "km", lambda v: v)}[name]
    nt = int(rng.randint(2, 6))
    if name == "visibility_in_air":
        t = sorted(rng.choice([50, 100, 1000, 2500, 5000, 10000], nt, replace=False).tolist())
        given = [x / 1000.0 for x in t]
        tenc = [1000 * x for x in t]
        tpts = [float(x) for x in t]
    else:
        base = 270 if name == "air_temperature" else 0
        t = sorted(rng.choice(np.arange(base * 4, base * 4 + 80), nt, replace=False).tolist())
        tenc = [250 * x for x in t]
        tpts = [x / 4.0 for x in t]
        given = [x / 4.0 - (273.15 if name == "air_temperature" else 0) for x in t]
    rel = RELS[rng.randint(4)]
    shp = (2, int(rng.randint(2, 4)))
    c = np.sort(rng.randint(0, 21, (nt,) + shp), axis=0)
    p = (20 - c) if rel.startswith("greater") else c
    data = (p / 20.0).astype(np.float32)
    if rng.rand() < 0.3:
        mm = rng.rand(*shp) < 0.4
        data = np.ma.masked_array(data, mask=np.broadcast_to(mm, data.shape).copy())
        p = np.where(np.ma.getmaskarray(data), M, p)
    lf = bool(rng.rand() < 0.3)
    cube = C.prob(data, tpts, name=name, units=conv[0], relative=rel)
    if rng.rand() < 0.5:
        cube.transpose([1, 0, 2])
    ups = sorted(rng.choice(np.arange(1, nt), rng.randint(1, nt), replace=False).tolist())
    idx = [[int(rng.randint(0, u)), int(u)] for u in ups]
    ranges = [[given[i], given[j]] for i, j in idx]
    if rng.rand() < 0.3:      # the bounds of a range may come in either order
        pass
    ref = cube.copy()
    plug = OccurrenceBetweenThresholds([list(r) for r in ranges], conv[1])
    r = ctx.call(plug, cube)
    plain = dict(prob=np.moveaxis(p, 0, -1).reshape((-1, nt)).tolist(), t=tenc, rel=rel,
                 diag=name, ranges=[[tenc[i], tenc[j]] for i, j in idx])
    if isinstance(r, Failed):
        s.event("between", out="error", err=r.text, **plain)
        return
    tc = r.coord(var_name="threshold")
    ax = r.coord_dims(tc)
    d = r.data if ax else r.data[np.newaxis]
    d = np.moveaxis(d, ax[0], 0) if ax else d
    rnd = (lambda v: int(round(float(v) / 10.0) * 10)) if name == "air_temperature" else \
        (lambda v: int(round(float(v))))
    meta = tc.units == conv[0] and cube == ref and \
        C.attrs_post(ref.attributes, r.attributes) and r.coord("time") == ref.coord("time")
    s.event("between", out="ok",
            values=[fx(d[i], 100000) for i in range(d.shape[0])],
            tpoints=[rnd(v * 1000) for v in tc.points],
            tbounds=[[rnd(v * 1000) for v in b] for b in tc.bounds],
            cname=r.name(), attr=str(tc.attributes.get("spp__relative_to_threshold")),
            meta=bool(meta), **plain)


def invert(ctx, s, cube, p, rel, name, ax, want):
    ref = cube.copy()
    if want == "any":
        r = ctx.call(invert_probabilities, cube)
    else:
        r = ctx.call(to_threshold_inequality, cube, **({} if want == "above" and ctx.rng.rand() < 0.5 else dict(above=want == "above")))
    prob = np.moveaxis(p, ax, -1).reshape((-1, p.shape[ax])).tolist()
    if isinstance(r, Failed):
        s.event("invert", out="error", err=r.text, rel=rel, want=want)
        return None
    tc = r.coord(var_name="threshold")
    s.event("invert", out="ok", prob=prob, rel=rel, want=want, diag=name, cname=r.name(),
            values=points(r.data, ax, 100000),
            attr=str(tc.attributes["spp__relative_to_threshold"]),
            input_same=bool(cube == ref))
    return r


def expected(ctx, s, rng, cube, p, t, rel, name, ax, units, mul=1, tol=3):
    ref = cube.copy()
    r = ctx.call(ExpectedValue(), cube)
    prob = np.moveaxis(p, ax, -1).reshape((-1, p.shape[ax])).tolist()
    plain = dict(prob=prob, t=t, rel=rel, diag=name, mul=mul, tol=tol)
    if isinstance(r, Failed):
        s.event("expected", out="error", err=r.text, **plain)
        return
    meta = C.attrs_post(ref.attributes, r.attributes) and not r.coords(var_name="threshold") and \
        [(m.method, tuple(m.coord_names)) for m in r.cell_methods] == [("mean", ("realization",))] \
        and r.coord("time") == ref.coord("time") and r.dtype == np.float32
    s.event("expected", out="ok", values=fx(r.data, 1000), cname=r.name(),
            units_ok=bool(r.units == units), meta=bool(meta), **plain)


def expected_mean(ctx, s, rng):
    n = int(rng.randint(1, 7))
    data = rng.randint(-40, 60, (n, 2, 3))
    if rng.randint(2):
        cube = C.grid(data, lead=[C.realization(n)])
    else:
        data = np.sort(data, axis=0)
        step = 100.0 / (n + 1)
        ps = [step * (i + 1) for i in range(n)]
        if n > 2 and rng.randint(2):
            ps = [100.0 * i / (n - 1) for i in range(n)]
        cube = C.grid(data, lead=[C.percentiles(ps)])
    ref = cube.copy()
    r = ctx.call(ExpectedValue(), cube)
    plain = dict(data=(np.moveaxis(data, 0, -1).reshape((-1, n)) * 1000).tolist())
    if isinstance(r, Failed):
        s.event("expected_mean", out="error", err=r.text, **plain)
        return
    meta = r.name() == ref.name() and r.units == ref.units and not r.coords("realization") and \
        not r.coords("percentile") and C.attrs_post(ref.attributes, r.attributes) and \
        [(m.method, tuple(m.coord_names)) for m in r.cell_methods] == [("mean", ("realization",))]
    s.event("expected_mean", out="ok", values=fx(r.data, 1000), meta=bool(meta), **plain)


def drive(ctx):
    rng = ctx.rng
    big = ctx.thorough
    k = 1 if not big else 20
    for c in ctx.pick(ctx.cases, 40 * k):
        with ctx.session("spec") as s:
            cc = np.array(c["c"])[:, np.newaxis, np.newaxis] * np.ones((1, 2, 2), dtype=int)
            rel = c["rel"]
            p = (20 - cc) if rel.startswith("greater") else cc
            t = [0.0, 10.0, 40.0]
            cube = C.prob(p / 20.0, t, name="wind_speed", units="m s-1", relative=rel)
            cube2 = cube
            for _ in range(c["n"] + 1):
                cube2 = invert(ctx, s, cube2, p, rel, "wind_speed", 0, "any")
                if cube2 is None:
                    break
                p = 20 - p
                rel = {"greater_than": "less_than_or_equal_to", "less_than": "greater_than_or_equal_to",
                       "greater_than_or_equal_to": "less_than",
                       "less_than_or_equal_to": "greater_than"}[rel]
            if cube2 is not None:
                expected(ctx, s, rng, cube2, p, [0, 10000, 40000], rel, "wind_speed", 0, "m s-1")
    for i in range(60 * k):
        kw = {}
        if rng.rand() < 0.3:
            kw["skip_ecc_bounds"] = True
        if rng.rand() < 0.3:
            kw["ecc_bounds_warning"] = True
        if rng.rand() < 0.35:
            kw["mask_percentiles"] = True
        with ctx.session("prob2perc") as s:
            probs2perc(ctx, s, kw, ["n", "default", "perc", "perc"][rng.randint(4)], rng,
                       single=bool(rng.rand() < 0.2))
    for i in range(50 * k):
        with ctx.session("resample") as s:
            resample(ctx, s, rng)
    for i in range(40 * k):
        with ctx.session("collapse") as s:
            collapse(ctx, s, rng)
    for i in range(15 * k):
        with ctx.session("rebadge") as s:
            rebadge(ctx, s, rng)
    for i in range(40 * k):
        with ctx.session("between") as s:
            between(ctx, s, rng)
    for i in range(30 * k):
        with ctx.session("invert") as s:
            cube, p, t, rel, name, lo, hi, ax = random_prob(rng, ctx)
            invert(ctx, s, cube, p, rel, name, ax, ["any", "above", "below"][rng.randint(3)])
    for i in range(30 * k):
        with ctx.session("expected") as s:
            cube, p, t, rel, name, lo, hi, ax = random_prob(rng, ctx, mask=False)
            expected(ctx, s, rng, cube, p, t, rel, name, ax, DIAG[name][0])
    for i in range(20 * k):
        with ctx.session("expected_mean") as s:
            expected_mean(ctx, s, rng)
    pr = C.prob(np.array([[[0.1, 0.2]], [[0.5, 0.6]]]), [280.0, 290.0], relative="less_than")
    bad_cdf = C.prob(np.array([[[0.6, 0.2]], [[0.5, 0.6]]]), [280.0, 290.0], relative="less_than")
    out = C.prob(np.array([[[0.1, 0.2]], [[0.5, 0.6]]]), [280.0, 390.0], relative="less_than")
    low = C.prob(np.array([[[0.1, 0.2]], [[0.5, 0.6]]]), [100.0, 290.0], relative="less_than")
    bet = C.prob(np.array([[[0.1, 0.2]], [[0.5, 0.6]]]), [280.0, 290.0],
                 relative="between_thresholds")
    dec = C.prob(np.array([[[0.5, 0.6]], [[0.1, 0.2]]]), [290.0, 280.0], relative="less_than")
    pcs = C.grid(np.array([[[1.0, 2.0]], [[3.0, 4.0]]]) + 280, lead=[C.percentiles([20, 50])])
    hot = C.grid(np.array([[[1.0, 2.0]], [[399.0, 4.0]]]) + 280, lead=[C.percentiles([20, 50])])
    plain = C.grid(np.array([[1.0, 2.0]]))
    P2P = ConvertProbabilitiesToPercentiles
    bad = {
        "both_percentile_options": lambda: P2P()(pr.copy(), no_of_percentiles=2, percentiles=[5.0]),
        "unknown_sampling": lambda: P2P()(pr.copy(), no_of_percentiles=2, sampling="wild"),
        "thresholds_above_bounds": lambda: P2P()(out.copy()),
        "thresholds_below_bounds": lambda: P2P()(low.copy()),
        "between_to_percentiles": lambda: P2P()(bet.copy()),
        "percentile_above_100": lambda: ResamplePercentiles()(pcs.copy(), percentiles=[101.0]),
        "percentile_below_0": lambda: ResamplePercentiles()(pcs.copy(), percentiles=[-1.0]),
        "values_outside_bounds": lambda: ResamplePercentiles()(hot.copy(), percentiles=[10.0]),
        "no_percentiles": lambda: ResamplePercentiles()(plain.copy(), percentiles=[10.0]),
        "rebadge_without_realizations": lambda: RebadgeRealizationsAsPercentiles()(plain.copy()),
        "collapse_missing": lambda: PercentileConverter("realization")(plain.copy()),
        "collapse_not_string": lambda: PercentileConverter(1),
        "invert_no_threshold": lambda: invert_probabilities(plain.copy()),
        "inequality_no_threshold": lambda: to_threshold_inequality(plain.copy()),
        "expected_falling_cdf": lambda: ExpectedValue()(bad_cdf.copy()),
        "expected_falling_thresholds": lambda: ExpectedValue()(dec.copy()),
        "expected_uneven_percentiles": lambda: ExpectedValue()(pcs.copy()),
        "between_missing_threshold": lambda: OccurrenceBetweenThresholds(
            [[280.0, 285.0]], "K")(pr.copy()),
        "between_too_close": lambda: OccurrenceBetweenThresholds([[280.0, 280.000001]], "K"),
        "between_not_probability": lambda: OccurrenceBetweenThresholds(
            [[280.0, 290.0]], "K")(plain.copy()),
        "between_of_between": lambda: OccurrenceBetweenThresholds(
            [[280.0, 290.0]], "K")(bet.copy()),
    }
    for why, f in bad.items():
        with ctx.session("reject") as s:
            r = ctx.call(f)
            s.event("rejected", why=why, out="error" if isinstance(r, Failed) else "ok")
