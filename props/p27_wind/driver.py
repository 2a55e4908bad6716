"""Mean wind directions, gusts, components and updraughts, recorded."""
from unittest import mock

import numpy as np
from vkit import cubes as C
from vkit.main import Failed

from improver.wind_calculations.vertical_updraught import VerticalUpdraught
from improver.wind_calculations.wind_components import ResolveWindComponents
from improver.wind_calculations.wind_direction import WindDirection
from improver.wind_calculations.wind_gust_diagnostic import WindGustDiagnostic

NAN = 2000000001


def out(r):
    return "error" if isinstance(r, Failed) else "ok"


def whole(a, scale):
    return [NAN if np.isnan(v) else int(np.rint(v * scale)) for v in np.asarray(a, dtype=float).flat]


def same(before, after):
    return all(a.name() == b.name() and a.units == b.units and a.attributes == b.attributes and a.shape == b.shape and a.coords() == b.coords()
               and np.array_equal(a.data, b.data, equal_nan=True) for a, b in zip(before, after))


# --- directions -----------------------------------------------------------------------

def direction(ctx, s, plugin, backup, d, ny, nx, start=0):
    """d[t][member][cell] sixteenths of a turn."""
    rng = ctx.rng
    nt, nr = len(d), len(d[0])
    a = np.array(d, dtype=float).reshape(nt, nr, ny, nx) * 22.5
    if rng.rand() < 0.2:
        a = np.where((a == 0) & (rng.rand(*a.shape) < 0.5), 360.0, a)
    down = rng.rand() < 0.25
    zero = nr - 1 if down else 0
    rc = C.realization([start + k for k in range(nr)][::-1 if down else 1])
    ts = [C.T0 + 3600 * k for k in range(nt)]
    tf = rng.rand() < 0.5
    if nt == 1 and rng.rand() < 0.7:
        cube = C.grid(a[0], "wind_from_direction", "degrees", lead=[rc], t=ts[0])
    elif tf:
        cube = C.grid(a, "wind_from_direction", "degrees", lead=[rc], t=ts, tdim=0)
    else:
        cube = C.grid(np.moveaxis(a, 0, 1), "wind_from_direction", "degrees", lead=[rc], t=ts, tdim=1)
    if rng.rand() < 0.3:
        cube.convert_units("radians")
    if rng.rand() < 0.3 and cube.ndim == 3:
        cube.transpose([1, 0, 2] if rng.rand() < 0.5 else [1, 2, 0])
    dims = [c.name() for c in cube.coords(dim_coords=True) if c.name() != "realization"]
    attrs = dict(cube.attributes)
    got = ctx.call(lambda: plugin(cube))
    sn, cs, deg, meta = [], [], [], False
    if not isinstance(got, Failed):
        meta = (not got.coords("realization") and got.name() == "wind_from_direction" and str(got.units) == "degrees"
                and got.dtype == np.float32 and C.attrs_post(attrs, got.attributes)
                and any(m.method == "mean" and tuple(m.coord_names) == ("realization",) for m in got.cell_methods)
                and [int(p) for p in got.coord("time").points] == ts and len(got.coord("forecast_period").points) == nt
                and [c.name() for c in got.coords(dim_coords=True)] == dims)
        g = got.copy()
        order = (["time"] if "time" in dims else []) + ["projection_y_coordinate", "projection_x_coordinate"]
        names = [c.name() for c in g.coords(dim_coords=True)]
        if sorted(names) == sorted(order):
            g.transpose([names.index(n) for n in order])
            v = np.asarray(g.data, dtype=float).reshape(-1, ny * nx)
            sn = [whole(np.sin(np.deg2rad(r)), 1000) for r in v]
            cs = [whole(np.cos(np.deg2rad(r)), 1000) for r in v]
            deg = [whole(r, 100) for r in v]
    s.event("direction", d=d, ny=ny, nx=nx, backup=backup, zero=zero + 1, out=out(got), sn=sn, cs=cs, deg=deg, meta=bool(meta))


def directions(ctx):
    rng = ctx.rng
    cases = [c["hist"] for c in ctx.cases if "hist" in c]
    picked = ctx.pick(cases, 90 if ctx.thorough else 30)
    if any(len(m) == 1 for h in picked for m in h):
        picked = [h for h in picked if all(len(m) > 1 for m in h)] + ctx.pick([h for h in picked if any(len(m) == 1 for m in h)], 6)
    for h in picked:
        with ctx.session("directions") as s:
            backup = ["neighbourhood", "first_realization"][rng.randint(2)]
            plugin = WindDirection(backup_method=backup)
            for ds in h:
                ny, nx = int(rng.randint(6, 9)), int(rng.randint(6, 9))
                nt = int(rng.choice([1, 1, 2, 3]))
                d = [[[int(v) for v in (np.full(ny * nx, m) + (rng.randint(0, 16, ny * nx) if rng.rand() < 0.3 else 0)) % 16] for m in ds] for _ in range(nt)]
                # leave some cancelling cells among steady ones
                if rng.rand() < 0.6 and len(ds) > 1:
                    base = int(rng.randint(16))
                    for t in range(nt):
                        for i in range(ny * nx):
                            if rng.rand() < 0.8:
                                for r in range(len(ds)):
                                    d[t][r][i] = int((base + rng.randint(-1, 2)) % 16)
                            else:
                                a = int(rng.randint(16))
                                for r in range(len(ds)):
                                    d[t][r][i] = (a + 8 * r) % 16 if len(ds) == 2 or r < 2 else d[t][r][i]
                start = 0 if backup == "first_realization" or rng.rand() < 0.6 else 3
                direction(ctx, s, plugin, backup, d, ny, nx, start)
    with ctx.session("directions_big") as s:
        for _ in range(20 if ctx.thorough else 6):
            backup = ["neighbourhood", "first_realization"][rng.randint(2)]
            ny, nx, nr, nt = int(rng.randint(8, 12)), int(rng.randint(8, 12)), int(rng.randint(2, 5)), int(rng.choice([1, 2]))
            base = rng.randint(16)
            d = (base + rng.randint(-2, 3, (nt, nr, ny * nx))) % 16
            for _ in range(4):
                i, a = rng.randint(ny * nx), rng.randint(16)
                d[:, :, i] = [(a + 16 // nr * r) % 16 if nr in (2, 4) else (a + (8 if r == 1 else 0)) % 16 for r in range(nr)]
            direction(ctx, s, WindDirection(backup_method=backup), backup, d.astype(int).tolist(), ny, nx)
    with ctx.session("directions_opposed") as s:
        # steady cells, each opposed by its neighbours
        for _ in range(12 if ctx.thorough else 4):
            backup = ["neighbourhood", "first_realization"][rng.randint(2)]
            ny, nx, a = int(rng.randint(8, 11)), int(rng.randint(8, 11)), rng.randint(16)
            y, x = np.divmod(np.arange(ny * nx), nx)
            d = np.array([[(a + 8 * ((y + x) % 2)) % 16] * 2])
            i = rng.randint(ny * nx)
            d[0, 1, i] = (d[0, 0, i] + 8) % 16
            direction(ctx, s, WindDirection(backup_method=backup), backup, d.astype(int).tolist(), ny, nx)
    with ctx.session("directions_nearly_cancelling") as s:
        for _ in range(16 if ctx.thorough else 6):
            backup = ["neighbourhood", "first_realization"][rng.randint(2)]
            ny, nx, a = int(rng.randint(8, 11)), int(rng.randint(8, 11)), int(rng.randint(16))
            n = ny * nx
            first, off = np.full(n, a), np.full(n, 18000)
            for i in rng.choice(n, 4, replace=False):
                first[i], off[i] = rng.randint(16), int(rng.choice([-1, 1])) * int(rng.choice([50, 90, 110, 120, 150, 200, 400]))
            one = first * 22.5
            two = np.where(off == 18000, one, one + 180 + off / 100)
            cube = C.grid(np.mod(np.stack([one, two]), 360).reshape(2, ny, nx), "wind_from_direction", "degrees", lead=[C.realization([0, 1])])
            got = ctx.call(lambda: WindDirection(backup_method=backup)(cube))
            s.event("nearly", a=a, first=[int(v) for v in first], off=[int(v) for v in off], backup=backup, out=out(got),
                    deg=[] if isinstance(got, Failed) else whole(np.asarray(got.data), 100))


# --- gusts ------------------------------------------------------------------------------

def gust(ctx, s, pg, pw, gp, wp, gt, wt, gb, plugin=None):
    rng = ctx.rng
    ny, nx = int(rng.randint(1, 4)), int(rng.randint(1, 4))
    frt = C.T0 - 7200

    def build(name, ps, ts, tb):
        a = rng.randint(0, 300, (len(ps), len(ts), ny * nx)).astype(float)
        if rng.rand() < 0.2:
            a[rng.rand(*a.shape) < 0.1] = np.nan
        many, several = len(ts) > 1, len(ps) > 1
        data = a.reshape((len(ps), len(ts), ny, nx)) / 10
        if not many:
            data = data[:, 0]
        lead = [C.percentiles(ps)]
        kw = dict(t=ts if many else ts[0], frt=frt)
        if tb:
            kw["tb"] = tb if many else tb[0]
        if many:
            tf = False
            kw["tdim"] = 1
        cube = C.grid(data, name, "m s-1", lead=lead, **kw)
        if not several and rng.rand() < 0.8:
            cube = cube[0]
        return cube, a
    g, ga = build("wind_speed_of_gust", gp, gt, gb)
    w, wa = build("wind_speed", wp, wt, None)
    before = [g.copy(), w.copy()]
    plugin = plugin or WindGustDiagnostic(pg, pw)
    got = ctx.call(lambda: plugin(g, w))
    val, meta, label = [], False, ""
    if not isinstance(got, Failed):
        val = [whole(r, 10) for r in np.asarray(got.data).reshape(len(gt), -1)]
        label = got.attributes.get("wind_gust_diagnostic", "")
        if label == "<WindGustDiagnostic: wind-gust perc=%3.1f, wind-speed perc=%3.1f>" % (pg, pw):
            label = "by percentiles"
        rest = {k: v for k, v in got.attributes.items() if k != "wind_gust_diagnostic"}
        meta = (got.name() == "wind_speed_of_gust" and not got.coords("percentile") and got.coord("time") == before[0].coord("time")
                and got.shape[-2:] == (ny, nx) and C.attrs_post(before[0].attributes, rest) and str(got.units) == "m s-1")
    tup = lambda a, ps: [[whole(a[p][t], 1) for t in range(a.shape[1])] for p in range(len(ps))]
    s.event("gust", pg=pg, pw=pw, gp=gp, wp=wp, gt=[t - C.T0 for t in gt], wt=[t - C.T0 for t in wt],
            gb=[[lo - C.T0, hi - C.T0] for lo, hi in gb] if gb else [], g=tup(ga, gp), w=tup(wa, wp), out=out(got), got=val, label=label,
            meta=bool(meta), same=bool(same(before, [g, w])))


def gusts(ctx):
    rng = ctx.rng
    with ctx.session("gusts") as s:
        for _ in range(240 if ctx.thorough else 70):
            pg, pw = [(50, 95), (95, 100), (50, 50), (90, 95), (50, 100), (95, 90), (90, 100)][rng.randint(7)]
            def some(p):
                ps = sorted(set([p] + [int(v) for v in rng.choice([5, 10, 25, 50, 75, 90, 95, 100], rng.randint(0, 4))]))
                if rng.rand() < 0.08:
                    ps = [v for v in ps if v != p] or [33]
                return ps
            n = int(rng.choice([1, 1, 2, 3]))
            gt = [C.T0 + 3600 * k for k in range(1, n + 1)]
            gb = [[t - 3600, t] for t in gt] if rng.rand() < 0.6 else None
            r = rng.rand()
            if r < 0.6:
                wt = list(gt)
            elif r < 0.8:
                off = int(rng.choice([0, 600, 1800, 3600]))
                wt = [t - off for t in gt]
                if rng.rand() < 0.5:
                    wt[0] = gt[0] - 3600
            elif r < 0.9:
                wt = list(gt)
                wt[-1] += int(rng.choice([-3601, -7200, 1, 900]))
                if sorted(set(wt)) != wt:
                    wt = gt[:-1] + [gt[-1] + 900]
            else:
                wt = gt[:-1] or [gt[0] + 60, gt[0] + 120]
            gust(ctx, s, pg, pw, some(pg), some(pw), gt, wt, gb)
        for other in range(2):
            pair = [C.grid(rng.randint(0, 300, (2, 2, 2)) / 10, n, "m s-1", lead=[C.percentiles([50, 95])])
                    for n in ("wind_speed_of_gust", "wind_speed")]
            pair[other].coord("percentile").rename("percentile_over_neighbourhood")
            s.event("rejected", why="other_percentiles", out=out(ctx.call(lambda: WindGustDiagnostic(50, 95)(*pair))))


# --- components ---------------------------------------------------------------------------

def resolve(adj, speed, wdir):
    with mock.patch.object(ResolveWindComponents, "calc_true_north_offset", staticmethod(lambda ref: adj)):
        return ResolveWindComponents()(speed, wdir)


def components(ctx):
    rng = ctx.rng
    cases = [c["pt"] for c in ctx.cases if "pt" in c]
    with ctx.session("components") as s:
        for _ in range(120 if ctx.thorough else 40):
            ny, nx, nr = int(rng.randint(1, 4)), int(rng.randint(1, 4)), int(rng.randint(1, 3))
            pts = [cases[i] for i in rng.randint(0, len(cases), nr * ny * nx)]
            frm = bool(rng.rand() < 0.7)
            north = [pts[i]["n"] for i in range(ny * nx)]
            v = np.array([p["v"] for p in pts]).reshape(nr, ny * nx)
            d = np.array([p["d"] for p in pts]).reshape(nr, ny * nx)
            # both directions named, and winds resolved more than once from the same cubes
            lead = [C.realization(nr)] if nr > 1 else []
            shp = (nr, ny, nx) if nr > 1 else (ny, nx)
            sp = C.grid(v.reshape(shp) / 10.0, "wind_speed", "m s-1", lead=lead)
            wd = C.grid(d.reshape(shp) * 22.5, "wind_from_direction" if frm else "wind_to_direction", "degrees", lead=lead)
            if rng.rand() < 0.3:
                wd.convert_units("radians")
            adj = (np.array(north) * np.pi / 8).reshape(ny, nx).astype(np.float32)
            angle = [np.array(wd.data), wd.units]
            before = [sp.copy()]
            for _ in range(2 if rng.rand() < 0.5 else 1):
                got = ctx.call(lambda: resolve(adj, sp, wd))
                u, n, meta = [], [], False
                if not isinstance(got, Failed):
                    u = [whole(r, 1000) for r in np.asarray(got[0].data).reshape(nr, -1)]
                    n = [whole(r, 1000) for r in np.asarray(got[1].data).reshape(nr, -1)]
                    meta = (got[0].name() == "grid_eastward_wind" and got[1].name() == "grid_northward_wind"
                            and all(str(c.units) == "m s-1" and c.dtype == np.float32 and c.shape == shp and c.coords() == sp.coords() for c in got))
                after = wd.copy()
                after.convert_units(angle[1])
                kept = np.allclose(after.data, angle[0], atol=1e-3) and same(before, [sp])
                s.event("components", v=v.tolist(), d=d.tolist(), north=north, out=out(got), u=u, nn=n, meta=bool(meta), same=bool(kept), **{"from": frm})
        for why in ["speed_of_another_name", "direction_of_another_name", "other_grid", "other_time", "more_members"]:
            sp = C.grid(np.full((2, 3, 3), 5.0), "wind_speed", "m s-1", lead=[C.realization(2)])
            wd = C.grid(np.full((2, 3, 3), 90.0), "wind_from_direction", "degrees", lead=[C.realization(2)])
            if why == "speed_of_another_name":
                sp.rename("air_temperature")
            elif why == "direction_of_another_name":
                wd.rename("wind_speed")
            elif why == "other_grid":
                wd = C.grid(np.full((2, 3, 3), 90.0), "wind_from_direction", "degrees", lead=[C.realization(2)], dx=1000.0)
            elif why == "other_time":
                wd = C.grid(np.full((2, 3, 3), 90.0), "wind_from_direction", "degrees", lead=[C.realization(2)], t=C.T0 + 3600)
            else:
                wd = C.grid(np.full((3, 3, 3), 90.0), "wind_from_direction", "degrees", lead=[C.realization(3)])
            s.event("rejected", why=why, out=out(ctx.call(lambda: resolve(np.zeros((3, 3), np.float32), sp, wd))))


# --- updraughts ---------------------------------------------------------------------------

CAPE = "atmosphere_convective_available_potential_energy"
RAIN = "lwe_precipitation_rate_max"


def updraught(ctx, s, why=None):
    rng = ctx.rng
    cases = [c["pt"] for c in ctx.cases if "pt" in c]
    ny, nx, nt, nr = int(rng.randint(1, 4)), int(rng.randint(1, 4)), int(rng.choice([1, 1, 2, 3])), int(rng.randint(1, 3))
    if why == "later_time_off":
        nt = 3
    n = nt * nr * ny * nx
    pts = [cases[i] for i in rng.randint(0, len(cases), n)]
    c = [p["c"] if rng.rand() < 0.6 else int(rng.randint(0, 4000)) for p in pts]
    p = [p["p"] if rng.rand() < 0.6 else int(rng.randint(0, 2000)) for p in pts]
    unit = ("mm h-1", 10.0) if rng.rand() < 0.5 else ("m s-1", 3.6e7)
    if unit[0] == "m s-1":
        p = [v + 1 if v == 50 else v for v in p]
    per = 3600
    ct = [C.T0 + per * k for k in range(nt)]
    pt = [t + per for t in ct]
    pb = [[t, t + per] for t in ct]
    lead = [C.realization(nr)] if nr > 1 else []
    shp = ((nr,) if nr > 1 else ()) + ((nt,) if nt > 1 else ()) + (ny, nx)
    one = lambda q: q if nt > 1 else q[0]
    attrs = dict(C.ATTRS, mosg__model_configuration="uk_ens")
    kw = dict(frt=C.T0 - 3600, lead=lead, attrs=attrs)
    cd = list(ct)
    if why == "later_time_off":
        cd[-1] += 600
    elif why == "cape_at_end":
        cd = pt
    cape = C.grid(np.array(c).reshape(shp), CAPE, "J kg-1", t=one(cd), tb=one(pb) if why == "cape_over_a_period" else None,
                  **dict(kw, frt=C.T0 - 7200 if why == "other_reference_time" else C.T0 - 3600, **({"dx": 1000.0} if why == "other_grid" else {})))
    rain = C.grid(np.array(p).reshape(shp) / unit[1], RAIN, unit[0], t=one(pt), tb=None if why == "rain_at_an_instant" else one(pb), **kw)
    if why == "other_grid":
        cape.coord(axis="x").points = cape.coord(axis="x").points + np.float32(500)
    if rng.rand() < 0.3:
        cape.convert_units("kJ kg-1")
        c = [v if v != 10 else 11 for v in c]
        cape.data = (np.array(c).reshape(shp) / 1000).astype(np.float32)
    mid = "mosg__model_configuration" if rng.rand() < 0.5 or why == "other_model" else None
    if why == "other_model":
        cape.attributes["mosg__model_configuration"] = "uk_det"
    lst = [cape, rain]
    if why == "cape_missing":
        lst = [rain]
    elif why == "rain_missing":
        lst = [cape]
    elif why == "surplus_input":
        lst.append(C.grid(np.zeros(shp), "air_temperature", "K", t=one(ct), **kw))
    lst = [lst[i] for i in rng.permutation(len(lst))]
    r0 = rain.copy()
    a0 = cape.copy()
    for _ in range(2 if not why and rng.rand() < 0.3 else 1):
        got = ctx.call(lambda: VerticalUpdraught(model_id_attr=mid)(*lst))
        if why:
            s.event("rejected", why=why, out=out(got))
            return
        val, meta = [], False
        if not isinstance(got, Failed):
            val = whole(got.data, 1000)
            back = [rain.copy(), cape.copy()]
            back[0].convert_units(r0.units)
            back[1].convert_units(a0.units)
            want = dict(C.ATTRS)
            if mid:
                want[mid] = "uk_ens"
            meta = (got.name() == "maximum_vertical_updraught" and str(got.units) == "m s-1" and got.dtype == np.float32 and got.shape == shp
                    and got.coord("time") == r0.coord("time") and got.coord("forecast_period") == r0.coord("forecast_period")
                    and dict(got.attributes) == want and np.allclose(back[0].data, r0.data, rtol=1e-4) and np.allclose(back[1].data, a0.data, rtol=1e-4))
        s.event("updraught", cape=c, rain=p, out=out(got), got=val, meta=bool(meta))


def updraughts(ctx):
    with ctx.session("updraughts") as s:
        for _ in range(120 if ctx.thorough else 40):
            updraught(ctx, s)
        for why in ["later_time_off", "cape_at_end", "cape_over_a_period", "other_reference_time", "rain_at_an_instant", "other_grid", "other_model",
                    "cape_missing", "rain_missing", "surplus_input"]:
            updraught(ctx, s, why)


def drive(ctx):
    directions(ctx)
    gusts(ctx)
    components(ctx)
    updraughts(ctx)
