"""Extrapolation nowcasts, accumulations and the radar's missing data, recorded."""
import datetime
import sys
import types

import numpy as np
from iris.cube import CubeList
from vkit import fx
from vkit import cubes as C
from vkit.main import Failed

from improver.cli import extend_radar_mask as emcli
from improver.cli import fill_radar_holes as fhcli
from improver.cli import nowcast_accumulate as nacli
from improver.cli import nowcast_extrapolate as necli
from improver.nowcasting.accumulation import Accumulation
from improver.nowcasting.forecasting import AdvectField, CreateExtrapolationForecast
from improver.nowcasting.pysteps_advection import PystepsExtrapolate
from improver.nowcasting.utilities import ExtendRadarMask, FillRadarHoles

MASKED = 2000000002
DX = 2048.0


def extrapolate(precip, velocity, timesteps, allow_nonfinite_values=False, interp_order=1, **kw):
    """Stands in for pysteps: every step's value is that of the nearest cell upstream."""
    assert interp_order == 0 and allow_nonfinite_values and precip.ndim == 2
    ny, nx = precip.shape
    out = np.full((timesteps, ny, nx), np.nan)
    for n in range(timesteps):
        for y in range(ny):
            for x in range(nx):
                u, v = velocity[0, y, x] * (n + 1), velocity[1, y, x] * (n + 1)
                if np.isfinite(u) and np.isfinite(v):
                    sx, sy = int(round(x - u)), int(round(y - v))
                    if 0 <= sx < nx and 0 <= sy < ny:
                        out[n, y, x] = precip[sy, sx]
    return out


def stub():
    names = ["pysteps", "pysteps.extrapolation", "pysteps.extrapolation.semilagrangian"]
    for n in names:
        sys.modules[n] = types.ModuleType(n)
    sys.modules[names[2]].extrapolate = extrapolate


def unwrap(fn):
    fn = getattr(fn, "__wrapped__", fn)
    return getattr(fn, "__wrapped__", fn)


def out(r):
    return "error" if isinstance(r, Failed) else "ok"


def shuffle(rng, seq):
    return [seq[i] for i in rng.permutation(len(seq))]


def snap(*cubes):
    return [c.copy() for c in cubes]


def same(before, after):
    return all(a.metadata == b.metadata and a.coords() == b.coords() and a.dtype == b.dtype
               and np.array_equal(np.ma.getmaskarray(a.data), np.ma.getmaskarray(b.data))
               and np.array_equal(np.ma.filled(a.data, 0), np.ma.filled(b.data, 0), equal_nan=True) for a, b in zip(before, after))


def marr(v, shape, k=1.0, fill=7.0, nan=False):
    """Values with MASKED among them as an array (masked where needed)."""
    m = np.array([x == MASKED for x in v]).reshape(shape)
    d = (np.array([fill if x == MASKED else x for x in v], dtype=float) * k).reshape(shape)
    if nan:
        d[m] = np.nan
        return d
    return np.ma.masked_array(d, m) if m.any() else d


def fm(data, scale):
    """Fixed-point flat list, NaN and masked alike given as MASKED."""
    a = np.ma.masked_invalid(np.ma.masked_array(np.ma.getdata(data).astype(float), np.ma.getmaskarray(data)))
    return [MASKED if m else int(np.rint(v)) for v, m in zip((np.ma.getdata(a) * scale).flat, np.ma.getmaskarray(a).flat)]


def grids(rng, ny, desc=False, km=False):
    y = [DX * i for i in range(ny)]
    return y[::-1] if desc else y


def field(rng, data, name, units, ny, nx, desc=False, **kw):
    kw.setdefault("attrs", {"title": "MONOW", "source": "Radarnet", "institution": "Met Office"})
    y = [DX * i for i in range(ny)]
    return C.grid(data, name=name, units=units, y=y[::-1] if desc else y, x=[DX * i for i in range(nx)], **kw)


def winds(rng, u, v, ny, nx, desc=False, mask=None, **kw):
    nm = [("precipitation_advection_x_velocity", "precipitation_advection_y_velocity"), ("grid_eastward_wind", "grid_northward_wind")][rng.randint(2)]
    r = []
    for n, q in zip(nm, (u, v)):
        d = np.array(q, dtype=float).reshape(ny, nx)
        if mask is not None and mask.any():
            d = np.ma.masked_array(d, mask)
        r.append(field(rng, d, n, "m s-1", ny, nx, desc=desc, **kw))
    return r


# --- advection ---------------------------------------------------------------------

def advect(ctx, s, d, dx, dy, ny, nx):
    """d: values or MASKED; dx, dy: displacements by cell, 256ths."""
    rng = ctx.rng
    n = int(rng.choice([1, 2, 4, 16]))
    desc = rng.rand() < 0.3
    u = np.array(dx, float) / (8 * n)
    v = np.array(dy, float) / (8 * n) * (-1 if desc else 1)
    uc, vc = winds(rng, u, v, ny, nx, desc)
    nan = rng.rand() < 0.2
    inst = rng.rand() < 0.8
    at = {"title": "Radar", "source": "Radarnet", "other": "x"}
    if inst:
        at["institution"] = "Met Office"
    name, un = [("precipitation_rate", "mm h-1"), ("cloud_area_fraction", "1"), ("air_temperature", "K")][rng.randint(3)]
    frt = None if rng.rand() < 0.5 else C.T0 - 7200
    c = field(rng, marr(d, (ny, nx), nan=nan), name, un, ny, nx, desc=desc, frt=frt, attrs=at)
    extra = {} if rng.rand() < 0.5 else {"mosg__model_configuration": "nc_det"}
    before = snap(c, uc, vc)
    t = datetime.timedelta(seconds=64 * n)
    got = ctx.call(lambda: AdvectField(uc, vc, attributes_dict=dict(extra))(c, t))
    ok = not isinstance(got, Failed)
    meta = ok and got.name() == c.name() and got.units == c.units and got.coord("time").points[0] == C.T0 + 64 * n \
        and got.coord("forecast_reference_time").points[0] == C.T0 and got.coord("forecast_period").points[0] == 64 * n \
        and str(got.coord("forecast_period").units) in ("s", "seconds") and got.coord("time").dtype == np.int64 and got.coord("forecast_period").dtype == np.int32 \
        and got.dtype == np.float32 and got.coord(axis="x") == c.coord(axis="x") and got.coord(axis="y") == c.coord(axis="y") \
        and got.attributes.get("source") == ("Met Office Nowcast" if inst else "Nowcast") and "other" not in got.attributes \
        and got.attributes.get("history", "").endswith(": Nowcast") and got.attributes.get("mosg__model_configuration") == extra.get("mosg__model_configuration") \
        and np.ma.isMaskedArray(got.data)
    s.event("advect", d=d, nx=nx, dx=dx, dy=dy, out=out(got), got=fm(got.data, 65536) if ok else [], meta=bool(meta), same=same(before, [c, uc, vc]))


def nowcast(ctx, s, p, oes, oet, du, dv, ny, nx, step, steps, nearest):
    """p, oes: 32nds of mm/h; du, dv: 256ths of a cell per step (whole cells if nearest)."""
    rng = ctx.rng
    desc = not nearest and rng.rand() < 0.3
    secs = step * 60
    gone = np.array([x == MASKED for x in du]).reshape(ny, nx)
    u = np.array([0 if x == MASKED else x for x in du], float) * DX / 256 / secs
    v = np.array([0 if x == MASKED else x for x in dv], float) * DX / 256 / secs * (-1 if desc else 1)
    uc, vc = winds(rng, u, v, ny, nx, desc, mask=gone)
    ms = rng.rand() < 0.3
    un, k = ("m s-1", 1 / 32 / 3.6e6) if ms else ("mm h-1", 1 / 32)
    plain = not oes
    name = "cloud_area_fraction" if plain else ["lwe_precipitation_rate", "rainfall_rate"][rng.randint(2)]
    frt = None if rng.rand() < 0.5 else C.T0
    c = field(rng, marr(p, (ny, nx), k=1 / 32 if plain else k), name, "1" if plain else un, ny, nx, desc=desc, frt=frt)
    oc = None
    if oes:
        oms = rng.rand() < 0.3
        ok_ = 1 / 32 / 3.6e6 if oms else 1 / 32
        od = np.array(oes, float).reshape(len(oes), ny, nx) * ok_
        oc = field(rng, od if len(oes) > 1 else od[0], "orographic_enhancement", "m s-1" if oms else "mm h-1", ny, nx, desc=desc,
                   t=list(oet) if len(oet) > 1 else oet[0], frt=None if rng.rand() < 0.5 else C.T0 - 10800)
        ms = ms or oms
    before = snap(c, uc, vc, *([oc] if oc is not None else []))
    extra = {} if rng.rand() < 0.5 else {"mosg__model_configuration": "nc_det"}
    cli = False
    if nearest:
        stub()
        cli = rng.rand() < 0.4
        if cli:
            got = ctx.call(lambda: unwrap(necli.process)(c, (uc, vc), oc, attributes_config=dict(extra), max_lead_time=step * steps + rng.randint(0, step),
                                                         lead_time_interval=step))
        else:
            got = ctx.call(lambda: PystepsExtrapolate(step, step * steps + rng.randint(0, step))(c, uc, vc, oc, attributes_dict=dict(extra)))
    else:
        plug = ctx.call(lambda: CreateExtrapolationForecast(c, uc, vc, orographic_enhancement_cube=oc, attributes_dict=dict(extra)))
        got = plug if isinstance(plug, Failed) else ctx.call(lambda: plug.process(step, step * steps + rng.randint(0, step)))
        if isinstance(plug, CreateExtrapolationForecast) and not isinstance(got, Failed) and rng.rand() < 0.5:
            again = ctx.call(lambda: plug.process(step, step * steps))
            same_again = not isinstance(again, Failed) and all(a.coords() == b.coords() and fm(a.data, 1e9) == fm(b.data, 1e9) for a, b in zip(got, again))
            s.event("same", why="again", out="ok" if same_again else "error")
    ok = not isinstance(got, Failed)
    cs = [] if not ok else list(got.slices_over("time")) if cli else list(got)
    kk = 65536 / (1 / 32 if plain else k)
    meta = ok and all(x.name() == name and x.units == c.units and x.dtype == np.float32 and x.coord(axis="x") == c.coord(axis="x")
                      and x.coord("forecast_reference_time").points[0] == C.T0 and x.coord("forecast_period").points[0] == x.coord("time").points[0] - C.T0
                      and x.coord("forecast_period").dtype == np.int32 and str(x.coord("forecast_period").units) in ("s", "seconds")
                      and x.coord("time").dtype == np.int64
                      and x.attributes.get("mosg__model_configuration") == extra.get("mosg__model_configuration") and x.attributes.get("institution") == "Met Office"
                      and x.attributes.get("source") == ("MONOW" if nearest else "Met Office Nowcast")
                      and (not nearest or x.attributes.get("title") == "MONOW Extrapolation Nowcast on UK 2 km Standard Grid") for x in cs)
    s.event("extrapolate", p=p, nx=nx, oe=oes, oet=list(oet), t0=C.T0, step=secs, steps=steps, dx=du, dy=dv, fuzzy=bool(ms), nearest=bool(nearest), out=out(got),
            times=[int(x.coord("time").points[0]) for x in cs], got=[fm(x.data, kk) for x in cs], meta=bool(meta),
            same=bool(same(before, [c, uc, vc] + ([oc] if oc is not None else []))))


# --- accumulation --------------------------------------------------------------------

def rate_cubes(rng, r, t, ny, nx, k, frt):
    """r: by time, flat values (units of k mm/h)."""
    cs = []
    for q, x in zip(r, t):
        un = ["mm h-1", "m s-1", "mm s-1"][rng.randint(3)]
        f = {"mm h-1": 1.0, "m s-1": 1 / 3.6e6, "mm s-1": 1 / 3600.0}[un]
        d = np.ma.masked_array(marr(q, (ny, nx), k=k * f)) if rng.rand() < 0.7 else marr(q, (ny, nx), k=k * f)
        cs.append(field(rng, d, "lwe_precipitation_rate", un, ny, nx, t=frt + x, frt=frt))
    return cs


def accumulate(ctx, s, r, t, period, fps, ny, nx, plug=None, units=None, order=None):
    """t: lead times in order; period 0 for none; fps [] for none."""
    rng = ctx.rng
    cs = rate_cubes(rng, r, t, ny, nx, 12.0, C.T0)
    lst = CubeList(shuffle(rng, cs) if order is None else cs)
    before = snap(*lst)
    units = units or ["m", "mm"][rng.randint(2)]
    if plug is None:
        f = None if not fps else (list(fps) if rng.rand() < 0.5 else np.array(fps))
        plug = Accumulation(accumulation_units=units, accumulation_period=period or None, forecast_periods=f)
    got = ctx.call(lambda: plug(lst))
    record(s, r, t, period, fps, got, units, 1000, 1, cs, same(before, lst))


def record(s, r, t, period, fps, got, units, num, den, cs, kept):
    ok = not isinstance(got, Failed)
    f = {"m": 1e7, "mm": 1e4}[units]
    meta = ok and all(g.name() == "lwe_thickness_of_precipitation_amount" and str(g.units) == units and g.coord("time").points[0] == g.coord("time").bounds[0, 1]
                      and g.coord("forecast_period").points[0] == g.coord("forecast_period").bounds[0, 1]
                      and np.array_equal(g.coord("time").bounds - C.T0, g.coord("forecast_period").bounds) and g.coord("time").dtype == np.int64
                      and g.coord("forecast_period").dtype == np.int32 and g.coord("forecast_reference_time") == cs[0].coord("forecast_reference_time")
                      and g.dtype == np.float32 and [m.method for m in g.cell_methods] == ["sum"] and g.coord(axis="x") == cs[0].coord(axis="x") for g in got)
    s.event("accumulate", r=r, t=t, period=period, fps=list(fps), num=num, den=den, out=out(got),
            ends=[int(g.coord("forecast_period").bounds[0, 1]) for g in got] if ok else [], starts=[int(g.coord("forecast_period").bounds[0, 0]) for g in got] if ok else [],
            got=[fm(g.data, f) for g in got] if ok else [], meta=bool(meta), same=bool(kept))


def accumulate_cli(ctx, s):
    """The accumulating command against the rates the extrapolation gives minute by minute."""
    rng = ctx.rng
    stub()
    ny, nx = 3, 4
    p = [int(x) for x in rng.randint(0, 60, ny * nx)]
    for i in rng.permutation(ny * nx)[:rng.randint(0, 3)]:
        p[i] = MASKED
    c = field(rng, marr(p, (ny, nx), k=1 / 32), "lwe_precipitation_rate", "mm h-1", ny, nx, frt=None if rng.rand() < 0.5 else C.T0)
    du, dv = int(rng.randint(-1, 2)), int(rng.randint(-1, 2))
    uc, vc = winds(rng, [du * DX / 60] * (ny * nx), [dv * DX / 60] * (ny * nx), ny, nx)
    oc = field(rng, rng.randint(0, 9, (2, ny, nx)) / 32, "orographic_enhancement", "mm h-1", ny, nx, t=[C.T0, C.T0 + 900])
    last, per = int(rng.choice([4, 6, 9])), int(rng.choice([1, 2, 3]))
    every = int(rng.choice([1, 2, 3]))
    rates = ctx.call(lambda: PystepsExtrapolate(1, last)(c, uc, vc, oc))
    got = ctx.call(lambda: unwrap(nacli.process)(c, (uc, vc), oc, max_lead_time=last, lead_time_interval=every, accumulation_period=per, accumulation_units="mm"))
    if isinstance(rates, Failed):
        return
    r = [fm(x.data, 32) for x in rates]
    ok = not isinstance(got, Failed)
    g = list(got.slices_over("time")) if ok else got
    record(s, r, [60 * i for i in range(last + 1)], per * 60, [60 * i for i in range(every, last + 1, every)], g, "mm", 125, 48, rates, True)


def defaults(ctx, s):
    """The nowcast commands with nothing but their inputs."""
    rng = ctx.rng
    stub()
    c = field(rng, rng.randint(0, 60, (3, 4)) / 32, "lwe_precipitation_rate", "mm h-1", 3, 4, frt=C.T0)
    uc, vc = winds(rng, [0] * 12, [0] * 12, 3, 4)
    oc = field(rng, np.zeros((13, 3, 4)), "orographic_enhancement", "mm h-1", 3, 4, t=[C.T0 + 1800 * k for k in range(13)])
    got = ctx.call(lambda: unwrap(necli.process)(c.copy(), (uc.copy(), vc.copy()), oc.copy()))
    ok = not isinstance(got, Failed)
    s.event("defaults", what="extrapolate", out=out(got), minutes=[int(x) // 60 for x in got.coord("forecast_period").points] if ok else [], length=0, units="")
    got = ctx.call(lambda: unwrap(nacli.process)(c.copy(), (uc.copy(), vc.copy()), oc.copy()))
    ok = not isinstance(got, Failed)
    fp = got.coord("forecast_period") if ok else None
    s.event("defaults", what="accumulate", out=out(got), minutes=[int(x) // 60 for x in fp.points] if ok else [], length=int(fp.bounds[0, 1] - fp.bounds[0, 0]) // 60 if ok else 0, units=str(got.units) if ok else "")


# --- the radar ------------------------------------------------------------------------

def extend(ctx, s, d, cov, ny, nx, nt):
    rng = ctx.rng
    sh = (nt, ny, nx) if nt else (ny, nx)
    t = [C.T0 + 300 * i for i in range(nt)] if nt else C.T0
    kw = dict(t=t, frt=None)
    r = field(rng, marr(d, sh, fill=9999.0), "lwe_precipitation_rate", "mm h-1", ny, nx, **kw)
    if rng.rand() < 0.3:
        r.data = np.ma.masked_array(r.data)
    c = field(rng, np.array(cov).reshape(sh), "radar_coverage", "1", ny, nx, dtype=np.int32 if rng.rand() < 0.5 else np.float32, **kw)
    before = snap(r, c)
    got = ctx.call(lambda: ExtendRadarMask()(r, c) if rng.rand() < 0.6 else unwrap(emcli.process)(r, c))
    ok = not isinstance(got, Failed)
    s.event("mask", d=d, c=cov, out=out(got), got=fm(got.data, 1) if ok else [],
            meta=bool(ok and got.name() == r.name() and got.units == r.units and got.dtype == np.float32 and got.shape == sh and got.coord("time") == r.coord("time")
                      and np.ma.isMaskedArray(got.data)), same=same(before, [r, c]))


DRY = -2000000


def fill(ctx, s, d, ny, nx):
    """d: thousandths of log2 of mm/h, DRY for 0 or too little, or MASKED."""
    rng = ctx.rng
    ms = rng.rand() < 0.4
    k = 1 / 3.6e6 if ms else 1.0
    dry = 0.0 if rng.rand() < 0.5 else 2.0 ** -11
    m = np.array([x == MASKED for x in d]).reshape(ny, nx)
    v = np.array([0.5 if x == MASKED else dry if x == DRY else 2.0 ** (x / 1000) for x in d]).reshape(ny, nx) * k
    if rng.rand() < 0.3:
        v[m] = np.nan
    a = np.ma.masked_array(v, m) if m.any() or rng.rand() < 0.3 else np.ma.masked_array(v) if rng.rand() < 0.5 else v
    c = field(rng, a, "lwe_precipitation_rate", "m s-1" if ms else "mm h-1", ny, nx, frt=None)
    before = snap(c)
    got = ctx.call(lambda: FillRadarHoles()(c) if rng.rand() < 0.6 else unwrap(fhcli.process)(c))
    ok = not isinstance(got, Failed)
    if ok:
        gv = np.ma.getdata(got.data).astype(float) / k
        gm = np.ma.getmaskarray(got.data)
        g = [MASKED if b else DRY if not x > 0.001 else int(np.rint(1000 * np.log2(x))) for x, b in zip(gv.flat, gm.flat)]
    s.event("fill", d=d, nx=nx, out=out(got), got=g if ok else [], meta=bool(ok and got.name() == c.name() and got.units == c.units and got.dtype == np.float32
                                                                         and got.coord("time") == c.coord("time")), same=same(before, [c]) if not np.isnan(v).any() else True)


def holes(rng, ny, nx, sizes):
    d = [int(rng.choice([DRY, -6000, -5000, -2000, 0, 1000, 3000], p=[0.1, 0.1, 0.2, 0.2, 0.2, 0.1, 0.1])) if rng.rand() < 0.9 else 500 for _ in range(ny * nx)]
    if rng.rand() < 0.5:
        d = [x if x != DRY else -1000 for x in d]
    for n in sizes:
        w = int(np.ceil(np.sqrt(n)))
        y0, x0 = rng.randint(0, ny - w + 1), rng.randint(0, nx - w + 1)
        for k in range(n):
            d[(y0 + k // w) * nx + x0 + k % w] = MASKED
    return d


def refusals(ctx, s):
    rng = ctx.rng
    ny, nx = 3, 4
    f = lambda name, units="mm h-1", **kw: field(rng, rng.rand(kw.pop("ny", ny), kw.pop("nx", nx)), name, units, ny, nx, **kw)
    u, v = winds(rng, [1.0] * 12, [1.0] * 12, ny, nx)
    big = C.grid(rng.rand(4, 4), name="cloud_area_fraction", units="1", y=[DX * i for i in range(4)], x=[DX * i for i in range(4)])
    bigv = winds(rng, [1.0] * 16, [1.0] * 16, 4, 4)[1]
    cl = field(rng, rng.rand(ny, nx), "cloud_area_fraction", "1", ny, nx)
    rain = field(rng, rng.rand(ny, nx), "rainfall_rate", "mm h-1", ny, nx)
    lead = C.grid(rng.rand(2, ny, nx), name="cloud_area_fraction", units="1", lead=[C.realization(2)], y=[DX * i for i in range(ny)], x=[DX * i for i in range(nx)])
    notime = C.grid(rng.rand(ny, nx), name="cloud_area_fraction", units="1", t=None, y=[DX * i for i in range(ny)], x=[DX * i for i in range(nx)])
    step = datetime.timedelta(seconds=64)
    ll = C.grid(rng.rand(ny, nx), name="rainfall_rate", units="mm h-1", space="ll")
    oe = field(rng, rng.rand(2, ny, nx), "orographic_enhancement", "mm h-1", ny, nx, t=[C.T0, C.T0 + 900])
    cov = field(rng, np.ones((ny, nx)), "radar_coverage", "1", ny, nx, t=C.T0 + 900)
    cov2 = C.grid(np.ones((ny, nx)), name="radar_coverage", units="1", y=[DX * i + 5 for i in range(ny)], x=[DX * i for i in range(nx)])
    stub()
    todo = [("winds_on_other_grids", lambda: AdvectField(u, bigv)), ("field_on_another_grid", lambda: AdvectField(u, v)(big, step)),
            ("extra_dimension", lambda: AdvectField(u, v)(lead, step)), ("no_time", lambda: AdvectField(u, v)(notime, step)),
            ("rain_without_enhancement", lambda: CreateExtrapolationForecast(rain, u, v)), ("missing_wind", lambda: CreateExtrapolationForecast(cl, u, None)),
            ("not_a_rate", lambda: PystepsExtrapolate(15, 30)(cl, u, v, oe)), ("latitude_and_longitude", lambda: PystepsExtrapolate(15, 30)(ll, u, v, oe)),
            ("coverage_at_another_time", lambda: ExtendRadarMask()(rain, cov)), ("coverage_on_another_grid", lambda: ExtendRadarMask()(rain, cov2)),
            ("cli_missing_wind", lambda: unwrap(nacli.process)(rain, (u, None), oe)), ("cli_extrapolate_missing_wind", lambda: unwrap(necli.process)(rain, (None, v), oe))]
    for why, fn in shuffle(rng, todo):
        s.event("rejected", why=why, out=out(ctx.call(fn)))


def disp(rng, n):
    k = rng.rand()
    if k < 0.4:
        return [int(rng.choice([-512, -300, -256, -64, 0, 1, 64, 128, 256, 700]))] * n
    return [int(x) for x in rng.choice([-600, -256, -255, -100, 0, 0, 30, 128, 256, 256, 257], n)]


def drive(ctx):
    rng = ctx.rng
    by = lambda k: [c for c in ctx.cases if k in c]
    with ctx.session("advect") as s:
        for c in ctx.pick(by("m"), 60 if not ctx.thorough else 400):
            n = len(c["d"])
            advect(ctx, s, c["d"], [c["m"][0]] * n, [c["m"][1]] * n, n // c["nx"], c["nx"])
        for _ in range(40 if not ctx.thorough else 300):
            ny, nx = rng.randint(2, 6), rng.randint(2, 6)
            d = [int(x) for x in rng.randint(0, 90, ny * nx)]
            if rng.rand() < 0.5:
                for i in rng.permutation(ny * nx)[:rng.randint(1, 5)]:
                    d[i] = MASKED
            advect(ctx, s, d, disp(rng, ny * nx), disp(rng, ny * nx), ny, nx)
    with ctx.session("nowcast") as s:
        for i in range(60 if not ctx.thorough else 400):
            ny, nx = rng.randint(2, 6), rng.randint(2, 6)
            n = ny * nx
            p = [int(x) for x in rng.choice([0, 0, 1, 2, 3, 5, 9, 20, 60], n)]
            if rng.rand() < 0.4:
                for j in rng.permutation(n)[:rng.randint(1, 4)]:
                    p[j] = MASKED
            nearest = rng.rand() < 0.5
            step = int(rng.choice([5, 15, 16]))
            steps = rng.randint(1, 4)
            no = rng.choice([0, 1, 2, 3]) if not nearest else rng.choice([1, 2, 3])
            oet = [int(C.T0 + x) for x in sorted(rng.permutation([0, 600, 1500, 2700, -900, 1800])[:no])]
            oes = [[int(x) for x in rng.choice([0, 0, 1, 2, 4, 10], n)] for _ in oet]
            if nearest:
                if rng.rand() < 0.5:
                    du, dv = [256 * int(rng.randint(-2, 3))] * n, [256 * int(rng.randint(-2, 3))] * n
                else:
                    du, dv = [256 * int(x) for x in rng.randint(-1, 2, n)], [256 * int(x) for x in rng.randint(-1, 2, n)]
                if rng.rand() < 0.3:
                    for j in rng.permutation(n)[:2]:
                        du[j] = dv[j] = MASKED
            else:
                q = 15 * step  # winds of a whole number of m/s move this many 512ths in a step
                f = lambda: [int(q * x) for x in (rng.choice([-4, -2, 0, 2, 4], n) if rng.rand() < 0.5 else [rng.choice([-4, -2, 0, 2, 4])] * n)]
                du, dv = [x // 2 for x in f()], [x // 2 for x in f()]
                if max(map(abs, du + dv)) * steps * 300 > 1e9:
                    continue
            nowcast(ctx, s, p, oes, oet, du, dv, ny, nx, step, steps, nearest)
    with ctx.session("accumulate") as s:
        for c in ctx.pick(by("rates"), 30 if not ctx.thorough else 200):
            nt = len(c["rates"])
            dt = 60 * c["dt"]
            r = [list(q) * 4 for q in c["rates"]]
            t0 = int(rng.choice([0, 0, dt, 3 * dt]))
            t = [t0 + dt * k for k in range(nt)]
            per = int(rng.choice([0, dt, 2 * dt, 3 * dt, nt * dt, dt + 30, dt // 2]))
            fps = [] if rng.rand() < 0.4 else [int(x) for x in rng.permutation(t)[:rng.randint(1, nt + 1)]]
            accumulate(ctx, s, r, t, per, fps, 2, 2)
        for _ in range(20 if not ctx.thorough else 150):
            nt = rng.randint(2, 9)
            dt = int(rng.choice([60, 300, 900]))
            t = [dt * k for k in range(nt)]
            if rng.rand() < 0.15:
                t[-1] += 60
            r = [[int(x) if rng.rand() < 0.97 else MASKED for x in rng.randint(0, 20, 6)] for _ in t]
            per = int(rng.choice([0, dt, 2 * dt, 4 * dt, 7 * dt]))
            fps = [] if rng.rand() < 0.3 else [int(x) for x in sorted(rng.choice([1, 2, 3, 4, 6, 7.5, 12], rng.randint(1, 4), replace=False) * dt)]
            accumulate(ctx, s, r, t, per, fps, 2, 3)
        for _ in range(6 if not ctx.thorough else 30):
            accumulate_cli(ctx, s)
    with ctx.session("defaults") as s:
        defaults(ctx, s)
    with ctx.session("reuse") as s:
        for _ in range(6 if not ctx.thorough else 30):
            units = ["m", "mm"][rng.randint(2)]
            per = int(rng.choice([0, 0, 120]))
            plug = Accumulation(accumulation_units=units, accumulation_period=per or None)
            for _ in range(3):
                nt = rng.randint(2, 6)
                dt = int(rng.choice([60, 120]))
                accumulate(ctx, s, [[int(x) for x in rng.randint(0, 20, 4)] for _ in range(nt)], [dt * k for k in range(nt)], per, [], 2, 2, plug=plug, units=units)
    with ctx.session("radar") as s:
        for _ in range(30 if not ctx.thorough else 150):
            ny, nx, nt = rng.randint(2, 5), rng.randint(2, 5), rng.choice([0, 0, 2, 3])
            n = ny * nx * max(nt, 1)
            d = [int(x) if rng.rand() < 0.8 else MASKED for x in rng.randint(0, 50, n)]
            extend(ctx, s, d if rng.rand() < 0.7 else [1 if x == MASKED else x for x in d], [int(x) for x in rng.randint(0, 4, n)], ny, nx, nt)
        for _ in range(12 if not ctx.thorough else 100):
            ny, nx = rng.randint(9, 13), rng.randint(9, 13)
            fill(ctx, s, holes(rng, ny, nx, [int(x) for x in rng.choice([1, 1, 2, 4, 9, 12, 20, 23, 24, 25, 30], rng.randint(0, 4))]), ny, nx)
        for c in ctx.pick(by("hole"), 5):
            n = len(c["hole"])
            fill(ctx, s, c["hole"], n // c["nx"], c["nx"])
    with ctx.session("refusals") as s:
        refusals(ctx, s)
