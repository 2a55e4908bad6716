"""Reliability tables built, added, manipulated and applied, recorded."""
import numpy as np
from iris.cube import Cube, CubeList
from vkit import cubes as C
from vkit.main import Failed

from improver.calibration.reliability_calibration import (
    AggregateReliabilityCalibrationTables, ApplyReliabilityCalibration, ConstructReliabilityCalibrationTables, ManipulateReliabilityTable)
from improver.cli import aggregate_reliability_tables as agcli
from improver.cli import apply_reliability_calibration as apcli
from improver.cli import construct_reliability_tables as cocli
from improver.cli import manipulate_reliability_table as macli

MASKED = 2000000002
NAN = 2000000001
ONE = 4194304
DAY = 86400
ROWS = ["observation_count", "sum_of_forecast_probabilities", "forecast_count"]


def unwrap(fn):
    fn = getattr(fn, "__wrapped__", fn)
    return getattr(fn, "__wrapped__", fn)


def out(r):
    return "error" if isinstance(r, Failed) else "ok"


def shuffle(rng, seq):
    return [seq[i] for i in rng.permutation(len(seq))]


def snap(*cubes):
    return [c.copy() for c in cubes]


def same(before, after):
    return all(a.metadata == b.metadata and a.coords() == b.coords() and a.dtype == b.dtype
               and np.array_equal(np.ma.getmaskarray(a.data), np.ma.getmaskarray(b.data))
               and np.array_equal(np.ma.filled(a.data, 0), np.ma.filled(b.data, 0), equal_nan=True) for a, b in zip(before, after))


def fm(data, scale):
    a = np.ma.masked_invalid(np.ma.masked_array(np.ma.getdata(data).astype(float), np.ma.getmaskarray(data)))
    return [MASKED if m else int(np.rint(v)) for v, m in zip((np.ma.getdata(a) * scale).flat, np.ma.getmaskarray(a).flat)]


def arr(v, shape, k):
    v = np.array(v).reshape(-1)
    m = (v == MASKED)
    d = np.where(v == NAN, np.nan, v / k)
    d = np.where(m, 0.25, d).reshape(shape)
    return np.ma.masked_array(d, m.reshape(shape)) if m.any() else d


def place_kw(space, n):
    return dict(space="spot") if space == "spot" else dict(space=space)


def base_shape(rng, n):
    """How n places are laid out."""
    if n == 1:
        return "spot", (1,)
    k = rng.rand()
    if k < 0.4:
        return "spot", (n,)
    f = [d for d in range(2, n) if n % d == 0]
    d = f[rng.randint(len(f))] if f else None
    if d is None or n // d < 2:
        return "spot", (n,)
    return ("xy" if k < 0.8 else "ll"), (d, n // d)


# --- construction ------------------------------------------------------------------

def construct(ctx, s, f, t, ft, tt, nb, lo, hi):
    """f, t: thresholds by times by places."""
    rng = ctx.rng
    nth, n = len(f), len(f[0][0])
    space, shp = base_shape(rng, n)
    ths = [270.0 + i for i in range(nth)]
    scalar = nth == 1 and rng.rand() < 0.5
    bnds = rng.rand() < 0.3
    order = rng.rand() < 0.5

    def cubes(v, times, attrs, frt):
        r = []
        for k, x in enumerate(times):
            d = arr([q for h in v for q in h[k]], (nth,) + shp, ONE if frt else 1)
            tm = C.T0 + x * DAY
            c = C.prob(d, ths, relative="greater_than", t=tm, frt=tm - 14400, tb=[tm - 3600, tm] if bnds else None, attrs=attrs, **place_kw(space, n))
            r.append(c[0] if scalar else c)
        return r

    fa = {"title": "Model Forecast", "source": "IMPROVER", "institution": "Met Office", "mosg__model_configuration": "uk_ens"}
    ta = {"title": "Radar", "source": "Radarnet", "institution": "Met Office", "kind": "truth"}
    fs, ts = cubes(f, ft, fa, True), cubes(t, tt, ta, False)
    agg = rng.rand() < 0.3 and n > 1
    dims = ["latitude", "longitude"] if space == "ll" else ["projection_y_coordinate", "projection_x_coordinate"] if space == "xy" else ["spot_index"]
    kw = dict(n_probability_bins=nb, single_value_lower_limit=lo, single_value_upper_limit=hi)
    cli = rng.rand() < 0.4
    if cli:
        lst = shuffle(rng, fs + ts)
        before = snap(*lst)
        given = lst
        got = ctx.call(lambda: unwrap(cocli.process)(*lst, truth_attribute="kind=truth", aggregate_coordinates=list(dims) if agg else None, **kw))
    else:
        fc, tc = CubeList(fs).merge_cube(), CubeList(ts).merge_cube()
        if order and fc.coord_dims("time") == (0,) and fc.ndim > len(shp) + 1:
            p = [1, 0] + list(range(2, fc.ndim))
            fc.transpose(p)
            if tc.ndim == fc.ndim:
                tc.transpose(p)
        given = [fc, tc]
        before = snap(*given)
        got = ctx.call(lambda: ConstructReliabilityCalibrationTables(**kw)(fc, tc, list(dims) if agg else None))
    ok = not isinstance(got, Failed)
    g, meta, frt = [], False, []
    if ok:
        tcn = "air_temperature"
        sl = list(got.slices_over(tcn)) if got.coord_dims(tcn) else [got]
        for x in sl:
            d = np.ma.masked_array(x.data).reshape(3, nb, -1)
            g.append([[[fm(d[0, b, p:p + 1], 1)[0], fm(d[1, b, p:p + 1], ONE)[0], fm(d[2, b, p:p + 1], 1)[0]] for p in range(d.shape[2])] for b in range(nb)])
        fr = got.coord("forecast_reference_time")
        frt = [int((v - C.T0 + 14400) // DAY) for v in fr.bounds[0]]
        pb = got.coord("probability_bin")
        meta = (got.name() == "reliability_calibration_table" and got.dtype == np.float32 and str(got.units) == "1" and fr.points[0] == fr.bounds[0, 1]
                and [str(v) for v in got.coord("table_row_name").points] == ROWS and pb.shape == (nb,) and abs(pb.bounds[0, 0]) < 1e-9 and abs(pb.bounds[-1, 1] - 1) < 1e-9
                and np.allclose(pb.bounds[1:, 0], pb.bounds[:-1, 1], atol=2e-6) and (pb.bounds[1:, 0] > pb.bounds[:-1, 1]).all() and set(got.attributes) == {"title", "source", "institution"} and got.coord("forecast_period").points[0] == 14400
                and got.attributes.get("title") == "Reliability calibration data table" and got.attributes.get("institution") == "Met Office"
                and len(sl) == nth and [float(x.coord(tcn).points[0]) for x in sl] == ths)
        if lo:
            meta = meta and abs(pb.bounds[0, 1] - 1e-6) < 1e-9
        if hi:
            meta = meta and abs(pb.bounds[-1, 0] - (1 - 1e-6)) < 1e-7
    s.event("construct", f=f, t=t, ft=ft, tt=tt, nb=nb, lo=bool(lo), hi=bool(hi), agg=bool(agg), out=out(got), got=g, meta=bool(meta), frt=frt, same=bool(same(before, given)))


# --- tables by hand -----------------------------------------------------------------

def table(tabs, places=None, frt=(0, 3), bounds=None, nth=None, th=None, space="spot", shp=None, scale=64.0, mask=None):
    """tabs: thresholds by places by bins of (o, s, n); places None for no spatial dimension."""
    a = np.array(tabs, dtype=float)  # h, p, b, r
    a[..., 1] /= scale
    nb = a.shape[2]
    d = a.transpose(0, 3, 2, 1)  # h, r, b, p
    nh = d.shape[0]
    if places is None:
        d = d[..., 0]
    else:
        d = d.reshape(nh, 3, nb, *shp)
    if mask is not None:
        d = np.ma.masked_array(d, np.broadcast_to(mask.reshape(shp), d.shape).copy())
    tc = C.thresholds(th or [270.0 + i for i in range(nh)])
    b = bounds if bounds is not None else np.array([[i / nb, (i + 1) / nb] for i in range(nb)])
    b = np.array(b, dtype=np.float32)
    c = Cube(d.astype(np.float32), units="1", long_name="reliability_calibration_table")
    c.attributes.update({"title": "Reliability calibration data table", "source": "IMPROVER", "institution": "Met Office"})
    c.add_dim_coord(tc, 0)
    c.add_dim_coord(C.DimCoord(np.arange(3, dtype=np.int32), long_name="table_row_index", units="1"), 1)
    c.add_dim_coord(C.DimCoord(b.mean(axis=1), long_name="probability_bin", units="1", bounds=b), 2)
    c.add_aux_coord(C.AuxCoord(np.array(ROWS), long_name="table_row_name", units="no_unit"), 1)
    if places is not None:
        if space == "spot":
            C.add_spot(c, 3)
        else:
            y, x = C.xy(shp[0], shp[1], space)
            c.add_dim_coord(y, 3)
            c.add_dim_coord(x, 4)
    r = C.AuxCoord(np.array([C.T0 + frt[1] * DAY], dtype=np.int64), "forecast_reference_time", units=C.TUNITS,
                   bounds=np.array([[C.T0 + frt[0] * DAY, C.T0 + frt[1] * DAY]], dtype=np.int64))
    c.add_aux_coord(r)
    c.add_aux_coord(C.AuxCoord(np.array([14400], dtype=np.int32), "forecast_period", units="seconds"))
    return c


def aggregate(ctx, s, frts, n, over):
    rng = ctx.rng
    nb, nh = rng.randint(1, 4), rng.randint(1, 3)
    space, shp = base_shape(rng, n)
    cs, tabs = [], []
    for fr in frts:
        a = rng.randint(0, 30, (nh, n, nb, 3))
        mask = None
        if rng.rand() < 0.4:
            mask = rng.rand(n) < 0.4
        c = table(a, places=n, frt=fr, space=space, shp=shp, mask=mask, scale=1.0)
        cs.append(c)
        d = np.ma.masked_array(c.data).reshape(nh, 3, nb, n)
        tabs.append([fm(d[..., p], 1) for p in range(n)])
    k = rng.permutation(len(cs))
    lst = [cs[i] for i in k]
    dims = {"spot": ["spot_index"], "xy": ["projection_y_coordinate", "projection_x_coordinate"], "ll": ["longitude", "latitude"]}[space]
    before = snap(*lst)
    coords = list(dims) if over else (None if rng.rand() < 0.5 else [])
    keep = None if coords is None else list(coords)
    got = ctx.call(lambda: AggregateReliabilityCalibrationTables()(CubeList(lst), coordinates=coords) if rng.rand() < 0.6
                   else unwrap(agcli.process)(*lst, coordinates=coords))
    ok = not isinstance(got, Failed)
    g, frt = [], []
    if ok:
        d = np.ma.masked_array(got.data).reshape(nh, 3, nb, -1)
        g = [fm(d[..., p], 1) for p in range(d.shape[3])]
        frt = [int((v - C.T0) // DAY) for v in got.coord("forecast_reference_time").bounds[0]]
    s.event("aggregate", tabs=tabs, frts=[list(x) for x in frts], over=bool(over), out=out(got), got=g, frt=frt,
            meta=bool(ok and got.name() == "reliability_calibration_table" and got.dtype == np.float32 and got.coord("probability_bin") == cs[0].coord("probability_bin")
                      and got.coord("forecast_reference_time").points[0] == got.coord("forecast_reference_time").bounds[0, 1]
                      and got.attributes.get("title") == "Reliability calibration data table"), same=bool(same(before, lst) and coords == keep))


def read(c, edges, nb):
    """Bins of a one-threshold table, as (o x 10000, s in 64ths, n, first, last)."""
    d = np.atleast_2d(np.ma.getdata(c.data))
    if d.shape[0] != 3:
        d = d.reshape(3, -1)
    b = c.coord("probability_bin").bounds
    o = fm(d[0], 10000)
    sm, n = fm(d[1], 64), fm(d[2], 1)
    r = []
    for i in range(d.shape[1]):
        first = int(np.argmin(np.abs(edges[:, 0] - b[i, 0]))) + 1
        last = int(np.argmin(np.abs(edges[:, 1] - b[i, 1]))) + 1
        r.append([o[i], sm[i], n[i], first, last])
    return r


def manipulate(ctx, s, tabs, mn):
    """tabs: by threshold, bins (o, s, n, first, last)."""
    rng = ctx.rng
    nh, nb = len(tabs), len(tabs[0])
    pbp = rng.rand() < 0.3 and nh > 1
    edges = np.array([[i / nb, np.nextafter(np.float32((i + 1) / nb), np.float32(0)) if i < nb - 1 else 1.0] for i in range(nb)])
    rows = [[b[:3] for b in q] for q in tabs]
    if pbp:
        # the same tables as places of one threshold
        space, shp = base_shape(rng, nh)
        c = table([rows], places=nh, bounds=edges, space=space, shp=shp)
    else:
        c = table([[q] for q in rows], bounds=edges)
    before = snap(c)
    if rng.rand() < 0.6:
        got = ctx.call(lambda: ManipulateReliabilityTable(minimum_forecast_count=mn, point_by_point=pbp)(c))
    else:
        got = ctx.call(lambda: unwrap(macli.process)(c, minimum_forecast_count=mn, point_by_point=pbp))
    ok = not isinstance(got, Failed)
    g = [read(x, edges, nb) for x in got] if ok else []
    s.event("manipulate", tabs=tabs, min=mn, out=out(got), got=g, same=bool(same(before, [c])),
            meta=bool(ok and all(x.name() == "reliability_calibration_table" and x.attributes == c.attributes
                                 and x.coord("forecast_reference_time") == c.coord("forecast_reference_time")
                                 and np.allclose(x.coord("probability_bin").points, x.coord("probability_bin").bounds.mean(axis=1), atol=1e-6) for x in got)
                      and (pbp or [float(x.coord("air_temperature").points[0]) for x in got] == [270.0 + i for i in range(nh)])))
    return got if ok and not pbp else None


def forecast(rng, x, space, shp, above, extra=None):
    nh = len(x)
    d = arr([v for h in x for v in h], (nh,) + shp, 64)
    c = C.prob(d, [270.0 + i for i in range(nh)], relative="greater_than" if above else "less_than",
               attrs={"title": "Model Forecast", "source": "IMPROVER", "institution": "Met Office"}, **place_kw(space, 0))
    return c


def meta_applied(got, c, above):
    return (got.name() == c.name() and got.dtype == np.float32 and str(got.units) == "1" and (got.shape == c.shape or got.shape == c.shape[1:] and c.shape[0] == 1) and got.coord("air_temperature") == c.coord("air_temperature")
            and got.coord("time") == c.coord("time") and got.attributes.get("title") == "Post-Processed Model Forecast"
            and sorted(k.name() for k in got.coords()) == sorted(k.name() for k in c.coords())
            and all(got.coord(axis=a) == c.coord(axis=a) for a in "xy"))


def apply(ctx, s, x, tabs, above):
    """x: thresholds by places (64ths or MASKED); tabs: by threshold, bins (o, s, n)."""
    rng = ctx.rng
    nh, n = len(x), len(x[0])
    space, shp = base_shape(rng, n)
    c = forecast(rng, x, space, shp, above)
    lst, drop = [], rng.rand() < 0.06
    tabs = [list(q) for q in tabs]
    gone = rng.randint(nh) if drop else -1
    for h, q in enumerate(tabs):
        if h != gone:
            t = table([[[b[:3] for b in q]]], th=[270.0 + h])[0]
            if len(q) == 1:
                t = t if rng.rand() < 0.5 else t[:, 0]
            lst.append(t)
    if gone >= 0:
        tabs[gone] = []
    ts = CubeList(shuffle(rng, lst))
    whole = gone < 0 and len({len(q) for q in tabs}) == 1 and rng.rand() < 0.5
    if whole and len(tabs[0]) > 1:
        ts = table([[[b[:3] for b in q]] for q in tabs])
    before = snap(c, *([ts] if isinstance(ts, Cube) else ts))
    got = ctx.call(lambda: ApplyReliabilityCalibration()(c, ts) if rng.rand() < 0.6 or isinstance(ts, Cube) else unwrap(apcli.process)(c, ts))
    ok = not isinstance(got, Failed)
    s.event("apply", x=x, tabs=[[list(b[:3]) + [1, 1] for b in q] for q in tabs], above=bool(above), out=out(got), got=[fm(v, 10000) for v in got.data.reshape(nh, -1)] if ok else [],
            meta=bool(ok and meta_applied(got, c, above)), same=bool(same(before, [c] + ([ts] if isinstance(ts, Cube) else list(ts)))))


def pointwise(ctx, s, x, tabs, above):
    """tabs: by place by threshold, bins (o, s, n), all of one length."""
    rng = ctx.rng
    nh, n = len(x), len(x[0])
    space, shp = base_shape(rng, n)
    c = forecast(rng, x, space, shp, above)
    whole = table([[[b[:3] for b in tabs[p][h]] for p in range(n)] for h in range(nh)], places=n, space=space, shp=shp)
    y, xn = whole.coord(axis="y").name(), whole.coord(axis="x").name()
    lst = CubeList()
    for th in whole.slices_over("air_temperature"):
        for pt in th.slices_over([y, xn] if space != "spot" else ["spot_index"]):
            lst.append(pt)
    lst = CubeList(shuffle(rng, lst)) if rng.rand() < 0.7 else lst
    before = snap(c)
    got = ctx.call(lambda: ApplyReliabilityCalibration(point_by_point=True)(c, lst) if rng.rand() < 0.6 else unwrap(apcli.process)(c, lst, point_by_point=True))
    ok = not isinstance(got, Failed)
    s.event("pointwise", x=x, tabs=[[[list(b[:3]) + [1, 1] for b in q] for q in pt] for pt in tabs], above=bool(above), out=out(got),
            got=[fm(v, 10000) for v in got.data.reshape(nh, -1)] if ok else [], meta=bool(ok and meta_applied(got, c, above)), same=bool(same(before, [c])))


def refusals(ctx, s):
    rng = ctx.rng
    mk = lambda ths, t, frt, attrs: C.prob(rng.randint(0, 2, (len(ths), 2, 2)), ths, t=t, frt=frt, attrs=attrs)
    fa, ta = {"title": "M", "source": "IMPROVER", "institution": "Met Office"}, {"title": "R", "kind": "truth", "source": "I", "institution": "Met Office"}
    f = [mk([270.0, 271.0], C.T0 + i * DAY, C.T0 + i * DAY - 3600, fa) for i in range(2)]
    t = [mk([270.0, 271.0], C.T0 + i * DAY, C.T0 + i * DAY, ta) for i in range(2)]
    t2 = [mk([270.0, 272.0], C.T0 + i * DAY, C.T0 + i * DAY, ta) for i in range(2)]
    cold = [mk([270.0, 271.0], C.T0 + i * DAY, C.T0 + i * DAY, ta) for i in range(2)]
    below = [c.copy() for c in cold]
    for c in cold:
        c.coord("air_temperature").units = "celsius"
    for c in below:
        c.coord("air_temperature").attributes["spp__relative_to_threshold"] = "less_than"
    late = [mk([270.0, 271.0], C.T0 + i * DAY + i * 3600, C.T0 + i * DAY - 3600 + i * 3600, fa) for i in range(2)]
    latet = [mk([270.0, 271.0], C.T0 + i * DAY + i * 3600, C.T0 + i * DAY, ta) for i in range(2)]
    fps = [mk([270.0, 271.0], C.T0 + i * DAY, C.T0 + i * DAY - 3600 - i * DAY, fa) for i in range(2)]
    M = lambda q: CubeList(q).merge_cube()
    K = ConstructReliabilityCalibrationTables
    todo = [("thresholds_in_other_units", lambda: K()(M(f), M(cold))), ("thresholds_the_other_way", lambda: K()(M(f), M(below))),
            ("other_thresholds", lambda: K()(M(f), M(t2))), ("other_hours", lambda: K()(M(late), M(latet))), ("other_periods", lambda: K()(M(fps), M(t))),
            ("two_bins_both_single", lambda: K(n_probability_bins=2, single_value_lower_limit=True, single_value_upper_limit=True)),
            ("no_truth", lambda: unwrap(cocli.process)(*f, truth_attribute="kind=truth")), ("no_forecast", lambda: unwrap(cocli.process)(*t, truth_attribute="kind=truth")),
            ("minimum_of_nought", lambda: ManipulateReliabilityTable(minimum_forecast_count=0))]
    for why, fn in shuffle(rng, todo):
        s.event("rejected", why=why, out=out(ctx.call(fn)))
    c = f[0]
    got = ctx.call(lambda: unwrap(apcli.process)(c, None))
    s.event("unchanged", why="without_table", out="ok" if got is c or got == c else "error")


def bins(rng, nb, lo=1, hi=12):
    """Well separated, filled bins."""
    r = []
    for i in range(nb):
        n = int(rng.randint(lo, hi))
        mid = 64 * (2 * i + 1) / (2 * nb) + rng.choice([-2, 0, 0, 1])
        r.append([int(rng.randint(0, n + 1)), int(round(n * mid)), n])
    return r


def rising(rng, nb):
    r = bins(rng, nb)
    o = sorted(b[0] / b[2] for b in r)
    return [[int(round(k * b[2])), b[1], b[2]] for k, b in zip(o, r)]


def drive(ctx):
    rng = ctx.rng
    by = lambda k: [c for c in ctx.cases if k in c]
    deep = ctx.thorough
    with ctx.session("construct") as s:
        for c in ctx.pick(by("how"), 25 if not deep else 200):
            k = len(c["f"])
            construct(ctx, s, [[[p] for p in c["f"]]], [[[o] for o in c["t"]]], list(range(k)), list(range(k)), c["nb"], c["how"][0], c["how"][1])
        for _ in range(30 if not deep else 250):
            nt, nth, n = rng.randint(1, 5), rng.randint(1, 4), int(rng.choice([1, 4, 6]))
            lo, hi = bool(rng.rand() < 0.4), bool(rng.rand() < 0.4)
            nb = int(rng.choice([1, 2, 3, 5, 7])) + int(lo) + int(hi)
            if lo and hi and nb <= 2:
                nb = 3
            pr = lambda: int(rng.choice([0, 2, 8, ONE // 2, ONE, ONE - 2, ONE - 8, ONE // 4, 3 * ONE // 4] + [int(x) for x in rng.randint(0, ONE, 9)]))
            f = [[[pr() for _ in range(n)] for _ in range(nt)] for _ in range(nth)]
            if rng.rand() < 0.3 and n > 1:
                for h in f:
                    for q in h:
                        if rng.rand() < 0.5:
                            q[rng.randint(n)] = NAN
            tt = list(range(nt))
            if rng.rand() < 0.5:
                tt = sorted(set([int(x) for x in rng.randint(0, nt + 2, nt + 1)]))
            m = [[rng.rand() < 0.4 for _ in range(n)] if rng.rand() < 0.6 else [False] * n for _ in tt] if rng.rand() < 0.6 else [[False] * n for _ in tt]
            t = [[[MASKED if m[k][p] else int(rng.randint(2)) for p in range(n)] for k in range(len(tt))] for _ in range(nth)]
            construct(ctx, s, f, t, list(range(nt)), tt, nb, lo, hi)
    with ctx.session("aggregate") as s:
        for _ in range(24 if not deep else 150):
            k = int(rng.choice([2, 2, 3]))
            st = np.cumsum(rng.randint(1, 4, 2 * k))
            fr = [(int(st[2 * i]), int(st[2 * i + 1])) for i in range(k)]
            if rng.rand() < 0.25:
                fr[1] = (fr[0][1] - (rng.rand() < 0.5), fr[1][1])
            if rng.rand() < 0.2:
                fr = fr[:1]
            over = bool(rng.rand() < 0.5)
            if len(fr) == 1 and not over:
                continue
            aggregate(ctx, s, fr, int(rng.choice([2, 4, 6])), over)
    with ctx.session("manipulate") as s:
        cs = by("tab")
        for _ in range(60 if not deep else 500):
            k = rng.randint(1, 4)
            q = [cs[i] for i in rng.randint(0, len(cs), k)]
            manipulate(ctx, s, [c["tab"] for c in q], q[0]["min"])
        for _ in range(25 if not deep else 200):
            nb, k = rng.randint(2, 8), rng.randint(1, 4)
            tabs = [[b + [i + 1, i + 1] for i, b in enumerate(bins(rng, nb, 0, 30))] for _ in range(k)]
            mn = int(rng.choice([1, 2, 5, 10, 20, 45])) if rng.rand() < 0.5 else max(1, int(tabs[0][rng.randint(nb)][2]))
            manipulate(ctx, s, tabs, mn)
    with ctx.session("apply") as s:
        for _ in range(40 if not deep else 300):
            nh, n = rng.randint(1, 5), int(rng.choice([1, 4, 6, 9]))
            above = bool(rng.rand() < 0.6)
            tabs = [rising(rng, int(rng.choice([1, 2, 3, 4]))) if rng.rand() < 0.7 else bins(rng, int(rng.choice([2, 3]))) for _ in range(nh)]
            x = [[int(v) for v in rng.choice([0, 1, 8, 16, 31, 32, 33, 48, 63, 64], n)] for _ in range(nh)]
            if rng.rand() < 0.5:
                x = [list(q) for q in np.sort(np.array(x), axis=0)[::-1 if above else 1].tolist()]
            if rng.rand() < 0.3:
                p = rng.randint(n)
                for h in x:
                    h[p] = MASKED
            apply(ctx, s, x, tabs, above)
    with ctx.session("pointwise") as s:
        for _ in range(10 if not deep else 80):
            nh, n, nb = rng.randint(1, 4), int(rng.choice([4, 6])), int(rng.choice([2, 3, 4]))
            above = bool(rng.rand() < 0.6)
            tabs = [[rising(rng, nb) for _ in range(nh)] for _ in range(n)]
            x = [[int(v) for v in rng.choice([0, 1, 8, 16, 31, 32, 33, 48, 63, 64], n)] for _ in range(nh)]
            pointwise(ctx, s, x, tabs, above)
    with ctx.session("refusals") as s:
        refusals(ctx, s)
