"""Lightning nowcasts, thresholds by latitude and the regression, recorded."""
import numpy as np
from iris.cube import CubeList
from vkit import cubes as C
from vkit.main import Failed

from improver.cli import lightning_from_cape_and_precip as lcli
from improver.cli import lightning_multivariate_probability_usaf2024 as mcli
from improver.lightning import LightningFromCapePrecip, LightningMultivariateProbability_USAF2024, latitude_to_threshold
from improver.nowcasting.lightning import NowcastLightning
from improver.threshold import LatitudeDependentThreshold

MASKED = 2000000002
PRECIP = "lwe_precipitation_rate"
ICE = "vertical_integral_of_ice"


def unwrap(fn):
    fn = getattr(fn, "__wrapped__", fn)
    return getattr(fn, "__wrapped__", fn)


def out(r):
    return "error" if isinstance(r, Failed) else "ok"


def shuffle(rng, seq):
    return [seq[i] for i in rng.permutation(len(seq))]


def same(before, after):
    return all(a.metadata == b.metadata and a.coords() == b.coords() and a.dtype == b.dtype
               and np.array_equal(np.ma.getmaskarray(a.data), np.ma.getmaskarray(b.data))
               and np.array_equal(np.ma.filled(a.data, 0), np.ma.filled(b.data, 0)) for a, b in zip(before, after))


def whole(a, scale):
    return [int(v) for v in np.rint(np.asarray(a, dtype=float) * scale).flat]


# --- nowcast ------------------------------------------------------------------------

def times(t0, mins):
    """Times as a dimension when there are several."""
    ts = [t0 + 60 * m for m in mins]
    return ts if len(ts) > 1 else ts[0]


def stack(a, shp, lead, many):
    """a: [..., times, cells]; without the time dimension when there is but one."""
    a = np.array(a, dtype=float).reshape(lead + (-1,) + shp)
    return a if many else a.reshape(lead + shp)


def nowcast(ctx, s, vt, gt, guess, rate, anyp, heavy, intense, ice, shp, spoil=None):
    rng = ctx.rng
    t0 = C.T0
    space = "xy"
    pu = ("mm h-1", 1.0) if rng.rand() < 0.6 else ("m s-1", 1 / 3.6e6)
    many = len(vt) > 1
    th = [0.5, 7.0, 35.0]
    rows = [anyp, heavy, intense]
    if rng.rand() < 0.3:
        th.insert(1, 2.0)
        rows.insert(1, [[int(v) for v in rng.randint(0, 1000, len(anyp[0]))] for _ in vt])
    tf = many and rng.rand() < 0.4
    pd = stack(rows, shp, (len(th),), many) / 1000
    kw = dict(space=space, t=times(t0, vt), frt=t0, dx=10000.0, dy=10000.0)
    pkw = dict(kw)
    if many:
        pkw["tdim"] = 0 if tf else 1
        if tf:
            pd = np.moveaxis(pd, 1, 0)
    precip = C.prob(pd, [v * pu[1] for v in th], name=PRECIP, units=pu[0], **pkw)
    rd = stack(rate, shp, (), many) / 4
    # strikes may be dated at more times than asked for
    if rng.rand() < 0.3 and many:
        extra = [m for m in range(0, 400, 15) if m not in vt][:1]
        rvt = sorted(list(vt) + extra)
        rr = [rate[vt.index(m)] if m in vt else rate[0] for m in rvt]
        rc = C.grid(stack(rr, shp, (), True) / 4, "rate_of_lightning", "min^-1", space=space, t=times(t0, rvt), frt=t0, dx=10000.0, dy=10000.0)
    else:
        rc = C.grid(rd, "rate_of_lightning", "min^-1", **kw)
    gd = stack(guess, shp, (), len(gt) > 1) / 10000
    fg = C.grid(gd, "probability_of_rate_of_lightning_above_threshold", "1", space=space, t=times(t0, gt), frt=t0 - 3600 * int(rng.randint(0, 7)), dx=10000.0, dy=10000.0)
    lst = [fg, rc, precip]
    ic = None
    if ice:
        order = [0.5, 1.0, 2.0]
        ic = C.prob(np.array(ice, dtype=float).reshape((3,) + shp) / 1000, order, name=ICE, units="kg m-2", space=space, t=t0, frt=t0, dx=10000.0, dy=10000.0)
        lst.append(ic)
    if spoil == "no_guess":
        lst.remove(fg)
    elif spoil == "no_strikes":
        lst.remove(rc)
    elif spoil == "no_rain":
        lst.remove(precip)
    elif spoil == "no_heavy_rain":
        lst[2] = C.prob(np.full((2,) + shp, 0.5), [0.5, 35.0], name=PRECIP, units="mm h-1", space=space, t=times(t0, vt), frt=t0, dx=10000.0, dy=10000.0) if not many else None
    elif spoil == "no_any_rain":
        lst[2] = C.prob(np.full((2,) + shp, 0.5), [7.0, 35.0], name=PRECIP, units="mm h-1", space=space, t=times(t0, vt), frt=t0, dx=10000.0, dy=10000.0) if not many else None
    elif spoil == "strikes_at_another_time":
        lst[1] = C.grid(rd, "rate_of_lightning", "min^-1", space=space, t=times(t0 + 300, vt), frt=t0, dx=10000.0, dy=10000.0)
    elif spoil == "ice_at_other_thresholds":
        lst.append(C.prob(np.full((3,) + shp, 0.5), [0.5, 1.0, 3.0], name=ICE, units="kg m-2", space=space, t=t0, frt=t0, dx=10000.0, dy=10000.0))
    before = [c.copy() for c in lst]
    data = [np.array(c.data) for c in lst]
    got = ctx.call(lambda: NowcastLightning(radius=10000.0)(CubeList(shuffle(rng, lst))))
    if spoil:
        s.event("rejected", why=spoil, out=out(got))
        return
    ok = not isinstance(got, Failed)
    g, meta = [], False
    if ok:
        g = [whole(c.data, 10000) for c in (got.slices_over("time") if many else [got])]
        fp = got.coord("forecast_period").copy()
        fp.convert_units("minutes")
        meta = (got.name() == "probability_of_rate_of_lightning_above_threshold" and str(got.units) == "1" and not got.coords(PRECIP)
                and [int(v) for v in got.coord("time").points] == [t0 + 60 * m for m in vt] and np.allclose(fp.points, vt)
                and got.shape == ((len(vt),) if many else ()) + shp and C.attrs_post(before[2].attributes, got.attributes)
                and all(got.coord(axis=a) == before[2].coord(axis=a) for a in "xy") and np.all(got.data >= 0) and np.all(got.data <= 1))
    s.event("nowcast", vt=list(vt), gt=list(gt), guess=guess, rate=rate, any=anyp, heavy=heavy, intense=intense, ice=ice, out=out(got), got=g,
            meta=bool(meta), same=bool(all(np.array_equal(a, b.data) for a, b in zip(data, lst)) and lst[0] == before[0]))


# --- by latitude ---------------------------------------------------------------------

def lats(rng, n):
    v = sorted(int(x) for x in rng.choice(np.arange(-80, 81, 5) if rng.rand() < 0.5 else np.arange(-88, 89), n, replace=False))
    return v[::-1] if rng.rand() < 0.3 else v


def llgrid(data, name, units, ys, **kw):
    return C.grid(data, name, units, space="ll", y=np.array(ys, dtype=np.float32), **kw)


def margin(v, thr):
    return abs(v - thr) > 1e-3 * max(abs(thr), 1)


def bylat40(lat, mid, trop):
    a = min(max(abs(lat), 10), 50)
    return 40 * trop - (trop - mid) * (a - 10)


def capeprecip(ctx, s, spoil=None):
    rng = ctx.rng
    ny, nx = rng.randint(2, 6), rng.randint(2, 5)
    ys = lats(rng, ny)
    nr = int(rng.choice([0, 0, 2]))
    cape, rain = [], []
    for _ in range(max(nr, 1)):
        cape.append([[int(c) if abs(40 * c - bylat40(y, 350, 500)) > 20 else int(c) + 2 for c in rng.choice([0, 300, 349, 351, 400, 425, 450, 499, 501, 800], nx)] for y in ys])
        rain.append([[int(w) if w != bylat40(y, 1, 4) else int(w) + 1 for w in rng.choice([0, 20, 39, 41, 60, 80, 100, 120, 150, 159, 161, 300], nx)] for y in ys])
    hours = int(rng.choice([1, 3]))
    t = C.T0
    lead = [C.realization(nr)] if nr else []
    cd = np.array(cape, dtype=float) if nr else np.array(cape[0], dtype=float)
    wd = (np.array(rain, dtype=float) if nr else np.array(rain[0], dtype=float)) / 40
    at = {"title": "MOGREPS-UK Model Forecast", "source": "IMPROVER", "institution": "Met Office", "mosg__model_configuration": "uk_ens"}
    unit = ("mm h-1", 1.0) if rng.rand() < 0.5 else ("m s-1", 1 / 3.6e6)
    tb = [t, t + 3600 * hours]
    frt = t - 7200
    if spoil == "window_of_two_hours":
        tb = [t, t + 7200]
    c = llgrid(cd, "atmosphere_convective_available_potential_energy", "J kg-1", ys, lead=lead, t=t + (3600 if spoil == "cape_not_at_the_start" else 0), frt=frt - (3600 if spoil == "other_reference_times" else 0), attrs=at)
    w = llgrid(wd * unit[1], "lwe_precipitation_rate_max" if rng.rand() < 0.5 else "precipitation_rate_max", unit[0], ys if spoil != "other_grids" else [v + 0.5 for v in ys], lead=lead, t=tb[1], tb=tb, frt=frt, attrs=at)
    lst = [c, w]
    if spoil == "no_cape":
        lst = [w]
    elif spoil == "no_rain_rate":
        lst = [c]
    before = [q.copy() for q in lst]
    mid = rng.rand() < 0.4
    args = shuffle(rng, lst)
    got = ctx.call(lambda: LightningFromCapePrecip(model_id_attr="mosg__model_configuration" if mid else None)(*args) if rng.rand() < 0.6
                   else unwrap(lcli.process)(*args, model_id_attr="mosg__model_configuration" if mid else None))
    if spoil:
        s.event("rejected", why="cape_" + spoil, out=out(got))
        return
    ok = not isinstance(got, Failed)
    n = "number_of_lightning_flashes_per_unit_area"
    gs = []
    if ok:
        gs = [[whole(row, 1) for row in q.data] for q in (got.slices_over("realization") if nr else [got])]
    meta = ok and bool(got.name() == "probability_of_%s_above_threshold" % n and got.dtype == np.float32 and str(got.units) == "1" and got.shape == w.shape
                       and got.coord("time") == before[1].coord("time") and got.coord("forecast_period") == before[1].coord("forecast_period")
                       and got.coord(n).points[0] == 0 and str(got.coord(n).units) == "m-2" and got.coord(n).var_name == "threshold"
                       and got.coord(n).attributes.get("spp__relative_to_threshold") == "greater_than"
                       and got.attributes.get("source") == "IMPROVER" and got.attributes.get("institution") == "Met Office"
                       and (got.attributes.get("mosg__model_configuration") == "uk_ens") == bool(mid))
    for k in range(max(nr, 1)):
        s.event("capeprecip", lats=ys, cape=cape[k], rain=rain[k], out=out(got), got=gs[k] if ok and len(gs) == max(nr, 1) else [], meta=bool(meta), same=bool(same(before, lst)))


def bylat(ctx, s):
    rng = ctx.rng
    ny, nx = rng.randint(1, 6), rng.randint(1, 5)
    ny, nx = max(ny, 2), max(nx, 2)
    ys = lats(rng, ny)
    mid, trop = int(rng.randint(-20, 20)), int(rng.randint(-20, 60))
    trop += mid == trop  # rescaling onto a single value is refused
    cmp = str(rng.choice(["gt", "ge", "lt", "le"]))
    sym = {"gt": ">", "ge": ">=", "lt": "<", "le": "<="}
    v = []
    for y in ys:
        # ties only where the threshold is a whole number at either end
        row = []
        for x in rng.randint(-25, 65, nx):
            x = int(x)
            if 40 * x == bylat40(y, mid, trop) and 10 < abs(y) < 50:
                x += 1
            row.append(x)
        if abs(y) >= 50 and rng.rand() < 0.5:
            row[0] = mid
        if abs(y) <= 10 and rng.rand() < 0.5:
            row[0] = trop
        v.append(row)
    d = np.array(v, dtype=float)
    if rng.rand() < 0.3:
        m = rng.rand(ny, nx) < 0.3
        if m.any() and not m.all():
            d = np.ma.masked_array(d, m)
            v = [[MASKED if b else x for x, b in zip(r, q)] for r, q in zip(v, m)]
    nr = int(rng.choice([0, 0, 2]))
    conv = rng.rand() < 0.3
    dd = d / 1000 if conv else d
    if conv:  # ties cannot survive the conversion
        near = any(x != MASKED and 40 * x == bylat40(y, mid, trop) for y, r in zip(ys, v) for x in r)
        if near:
            conv, dd = False, d
    if nr:
        dd = np.ma.stack([dd] * nr) if np.ma.isMaskedArray(dd) else np.stack([dd] * nr)
    c = llgrid(dd, "wind_speed", "km s-1" if conv else "m s-1", ys, lead=[C.realization(nr)] if nr else [], attrs={"title": "Q Forecast"})
    before = [c.copy()]
    got = ctx.call(lambda: LatitudeDependentThreshold(lambda la: latitude_to_threshold(la, midlatitude=float(mid), tropics=float(trop)),
                                                      threshold_units="m s-1" if conv or rng.rand() < 0.5 else None, comparison_operator=sym[cmp] if rng.rand() < 0.5 else cmp)(c))
    ok = not isinstance(got, Failed)
    g, thr, meta = [], [], False
    if ok:
        g0 = got[-1] if nr else got
        g = [[MASKED if b else int(round(float(x))) for x, b in zip(r, q)] for r, q in zip(np.ma.getdata(g0.data), np.ma.getmaskarray(g0.data))]
        tc = got.coord("wind_speed")
        thr = whole(tc.points * (1000 if conv else 1), 40)
        meta = (got.name() == "probability_of_wind_speed_%s_threshold" % ("above" if cmp[0] == "g" else "below") and got.dtype == np.float32 and str(got.units) == "1"
                and got.shape == c.shape and tc.var_name == "threshold" and str(tc.units) == str(c.units) and got.coord_dims(tc) == got.coord_dims("latitude")
                and tc.attributes.get("spp__relative_to_threshold") == {"gt": "greater_than", "ge": "greater_than_or_equal_to", "lt": "less_than", "le": "less_than_or_equal_to"}[cmp]
                and all(got.coord(k) == before[0].coord(k) for k in ("latitude", "longitude", "time")))
    s.event("bylat", lats=ys, mid=mid, trop=trop, cmp=cmp, v=v, out=out(got), got=g, thr=thr, meta=bool(meta), same=bool(same(before, [c])))


# --- regression -----------------------------------------------------------------------

NAMES = [("cape", "atmosphere_specific_convective_available_potential_energy", "J kg-1"),
         ("li", "temperature_difference_between_ambient_air_and_air_lifted_adiabatically", "K"),
         ("q", "precipitable_water", "kg m-2"), ("cin", "atmosphere_specific_convective_inhibition", "J kg-1"), ("a", "precipitation_amount", "kg m-2")]


def inches(a):
    return (a * 39370 + 500) // 1000


def regression(ctx, s, cells, spoil=None):
    rng = ctx.rng
    n = len(cells)
    nr = 2 if n % 2 == 0 and n >= 8 and rng.rand() < 0.5 else 0
    k = n // nr if nr else n
    f = [d for d in range(2, k) if k % d == 0 and k // d >= 2]
    d = f[rng.randint(len(f))]
    shp = ((nr,) if nr else ()) + (d, k // d)
    t = C.T0
    tb = [t, t + 10800]
    at = {"title": "M Forecast", "source": "IMPROVER", "institution": "Met Office", "mosg__model_configuration": "uk_ens"}
    lst = {}
    for key, nm, un in NAMES:
        sc = {"li": 0.1, "q": 0.1, "a": 0.1}.get(key, 1.0)
        v = np.array([c[key] for c in cells], dtype=float).reshape(shp) * sc
        u = "mm" if un == "kg m-2" and rng.rand() < 0.4 else un
        kw = dict(t=t, frt=t - 3600)
        if key == "a":
            kw = dict(t=tb[1], tb=tb, frt=t - 3600)
        if spoil == "window_of_an_hour" and key == "a":
            kw.update(t=t + 3600, tb=[t, t + 3600])
        if spoil == key + "_late":
            kw.update(t=t + 3600)
        if spoil == key + "_of_another_run":
            kw.update(frt=t - 7200)
        if spoil == key + "_in_other_units":
            u = {"J kg-1": "kJ kg-1", "K": "Celsius", "kg m-2": "m"}[un]
        sp = dict(y0=3.0) if spoil == key + "_on_another_grid" else {}
        lst[key] = C.grid(v, nm, u, lead=[C.realization(nr)] if nr else [], attrs=at, space="ll", **kw, **sp)
    if spoil and spoil.startswith("no_"):
        del lst[spoil[3:]]
    cubes = list(lst.values())
    before = [c.copy() for c in cubes]
    mid = "mosg__model_configuration" if rng.rand() < 0.4 else None
    args = shuffle(rng, cubes)
    got = ctx.call(lambda: LightningMultivariateProbability_USAF2024()(CubeList(args), model_id_attr=mid) if rng.rand() < 0.6 else unwrap(mcli.process)(*args, model_id_attr=mid))
    if spoil:
        s.event("rejected", why="regression_" + spoil, out=out(got))
        return
    ok = not isinstance(got, Failed)
    nm = "number_of_lightning_flashes_per_unit_area"
    meta = False
    if ok:
        a = lst["a"]
        meta = (got.name() == "probability_of_%s_in_vicinity_above_threshold" % nm and got.dtype == np.float32 and str(got.units) == "1" and got.shape == a.shape
                and got.coord("time") == a.coord("time") and got.coord("forecast_period") == a.coord("forecast_period") and got.coord("radius_of_vicinity").points[0] == 20000
                and str(got.coord("radius_of_vicinity").units) == "m" and got.coord(nm).points[0] == 0 and got.coord(nm).var_name == "threshold"
                and got.coord(nm).attributes.get("spp__relative_to_threshold") == "greater_than" and all(got.coord(axis=x) == a.coord(axis=x) for x in "xy")
                and got.attributes.get("institution") == "Met Office" and (got.attributes.get("mosg__model_configuration") == "uk_ens") == bool(mid))
    s.event("regression", cape=[c["cape"] for c in cells], li=[c["li"] for c in cells], q=[c["q"] for c in cells], cin=[c["cin"] for c in cells], a=[c["a"] for c in cells],
            out=out(got), got=whole(got.data, 10000) if ok else [], meta=bool(meta), same=bool(same(before, cubes)))


def clear(c):
    """Away from the switch between the regressions."""
    return abs(inches(c["a"]) - c["q"] - 100) > 2


def drive(ctx):
    rng = ctx.rng
    cells = [c["cell"] for c in ctx.cases if "cell" in c]
    reg = [c["reg"] for c in ctx.cases if "reg" in c and clear(c["reg"])]
    deep = ctx.thorough
    with ctx.session("nowcast") as s:
        for i in range(40 if not deep else 300):
            shp = [(4, 4), (4, 5), (6, 4)][rng.randint(3)]
            n = shp[0] * shp[1]
            m = int(rng.choice([0, 45, 90, 150, 360])) if not deep else int(rng.choice([0, 15, 45, 90, 149, 150, 360]))
            nt = int(rng.choice([1, 1, 2, 3]))
            vt = [m]
            if nt > 1:
                vt = sorted(int(x) for x in rng.choice([0, 15, 30, 45, 60, 75, 90, 135, 150, 180, 300, 360], nt, replace=False))
            by = [c for c in cells if c["m"] == vt[0]] if len(vt) == 1 and rng.rand() < 0.7 else cells
            pick = lambda: [by[j] for j in rng.randint(0, len(by), n)]
            cc = [pick() for _ in vt]
            gt = sorted(set(int(x) for x in rng.choice([-60, 0, 60, 120, 180, 240, 300, 360, 420], rng.randint(1, 4))))
            if rng.rand() < 0.7:
                gt = sorted(set(gt + [60 * int(round(v / 60)) for v in vt]))
            if rng.rand() < 0.2:
                gt = [vt[0] + int(rng.choice([119, 120, 121, -120, -121]))]
            guess = [[int(v) for v in rng.choice([0, 30, 67, 100, 1000, 2499, 2500, 2600, 6000, 9999, 10000], n)] for _ in gt]
            if len(gt) == 1:
                guess = [[c["g"] for c in cc[0]]]
            col = lambda k: [[c[k] for c in q] for q in cc]
            ice = []
            if rng.rand() < 0.6:
                base = [c["ice"] for c in cc[0]]
                ice = [base, [int(v * f) for v, f in zip(base, rng.rand(n))]]
                ice.append([int(v * f) for v, f in zip(ice[1], rng.rand(n))])
            nowcast(ctx, s, vt, gt, guess, col("r"), col("any"), col("heavy"), col("intense"), ice, shp)
        for why in ("no_guess", "no_strikes", "no_rain", "no_heavy_rain", "no_any_rain", "strikes_at_another_time", "ice_at_other_thresholds"):
            q = [[500] * 16]
            nowcast(ctx, s, [45], [60], q, [[1] * 16], q, [[0] * 16], [[0] * 16], [], (4, 4), spoil=why)
    with ctx.session("latitude") as s:
        for _ in range(25 if not deep else 200):
            capeprecip(ctx, s)
            bylat(ctx, s)
        for why in ("no_cape", "no_rain_rate", "window_of_two_hours", "cape_not_at_the_start", "other_reference_times", "other_grids"):
            capeprecip(ctx, s, why)
    with ctx.session("regression") as s:
        for _ in range(25 if not deep else 200):
            n = int(rng.choice([4, 6, 8, 12]))
            cc = [reg[j] for j in rng.randint(0, len(reg), n)]
            for j in range(n):
                if rng.rand() < 0.4:
                    c = dict(cape=int(rng.choice([0, 1, 30, 250, 900, 2500, 4500])), li=int(rng.randint(-90, 60)), q=int(rng.randint(0, 500)), cin=-int(rng.choice([0, 3, 20, 100, 900])), a=int(rng.choice([0, 1, 3, 8, 30, 90, 180])))
                    if clear(c):
                        cc[j] = c
            regression(ctx, s, cc)
        todo = ["no_" + k for k, _, _ in NAMES] + [k + "_late" for k, _, _ in NAMES if k != "a"] + [k + "_of_another_run" for k, _, _ in NAMES] + ["window_of_an_hour"]
        todo += [k + "_on_another_grid" for k, _, _ in NAMES] + [k + "_in_other_units" for k, _, _ in NAMES]
        for why in (shuffle(rng, todo)[:10] if not deep else todo):
            regression(ctx, s, [reg[j] for j in rng.randint(0, len(reg), 4)], spoil=why)
