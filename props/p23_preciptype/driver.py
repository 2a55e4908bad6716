import numpy as np
from iris.cube import CubeList
from vkit import fx
from vkit import cubes as C
from vkit.main import Failed

from improver.cli import convection_ratio as concli
from improver.cli import freezing_rain as frcli
from improver.cli import hail_fraction as hfcli
from improver.cli import phase_mask as pmcli
from improver.cli import phase_probability as ppcli
from improver.cli import remake_as_shower_condition as rmcli
from improver.cli import shower_condition_probability as shcli
from improver.cli import sleet_probability as slcli
from improver.cli import snow_fraction as sfcli
from improver.cli import snow_splitter as spcli
from improver.precipitation_type.calculate_sleet_prob import calculate_sleet_probability
from improver.precipitation_type.convection import ConvectionRatioFromComponents
from improver.precipitation_type.freezing_rain import FreezingRain
from improver.precipitation_type.hail_fraction import HailFraction
from improver.precipitation_type.shower_condition_probability import ShowerConditionProbability
from improver.precipitation_type.snow_fraction import SnowFraction
from improver.precipitation_type.snow_splitter import SnowSplitter
from improver.precipitation_type.utilities import make_shower_condition_cube
from improver.psychrometric_calculations.precip_phase_probability import PrecipPhaseProbability
from improver.psychrometric_calculations.significant_phase_mask import SignificantPhaseMask

MODEL = "mosg__model_configuration"


def unwrap(fn):
    fn = getattr(fn, "__wrapped__", fn)
    return getattr(fn, "__wrapped__", fn)


def out(r):
    return "error" if isinstance(r, Failed) else "ok"


def attrs(model=None, title="Model Forecast"):
    a = dict(C.ATTRS)
    a["title"] = title
    if model:
        a[MODEL] = model
    return a


def shuffle(rng, seq):
    return [seq[i] for i in rng.permutation(len(seq))]


def snap(*cubes):
    return [c.copy() for c in cubes]


def same(before, after):
    return all(a == b and np.array_equal(np.ma.getmaskarray(a.data), np.ma.getmaskarray(b.data)) for a, b in zip(before, after))


def space_kw(rng):
    return dict(space="ll" if rng.rand() < 0.2 else "xy")


def coords_kept(got, tmpl, skip=()):
    return [c.name() for c in got.coords(dim_coords=True)] == [c.name() for c in tmpl.coords(dim_coords=True) if c.name() not in skip] \
        and got.coord("time") == tmpl.coord("time") and all(got.coord(axis=a) == tmpl.coord(axis=a) for a in "xy")


def title_ok(got, pp, *cubes):
    """Mandatory attributes: shared ones kept, titles that differ fall back."""
    ts = {c.attributes.get("title") for c in cubes}
    want = ts.pop() if len(ts) == 1 else "unknown"
    if pp and want != "unknown":
        want = "Post-Processed " + want
    return got.attributes.get("title") == want and got.attributes.get("source") == "IMPROVER"


def model_ok(got, want):
    return got.attributes.get(MODEL) == want


def one_fraction(ctx, s, rain, snow, ny, nx, i):
    """rain, snow: members of flat lists of small integers."""
    rng = ctx.rng
    nm = len(rain)
    acc = rng.rand() < 0.4
    ua, ub = (("m", "mm") if acc else ("m s-1", "mm h-1"))
    rname, sname = ("thickness_of_rainfall_amount", "lwe_thickness_of_snowfall_amount") if acc else ("rainfall_rate", "lwe_snowfall_rate")
    scale = {"mm": 0.25, "m": 0.25e-3, "mm h-1": 0.9, "m s-1": 2.5e-7}
    ur, us = ub if rng.rand() < 0.5 else ua, ub if rng.rand() < 0.5 else ua
    lead = [C.realization(nm)] if nm > 1 else []
    kw = space_kw(rng)
    kw.update(t=C.T0, frt=C.T0 - 7200)
    if acc:
        kw["tb"] = [C.T0 - 3600, C.T0]
    model = ["uk_ens", "uk_ens"] if rng.rand() < 0.5 else ["uk_ens", "nc_det"]

    def mk(v, name, u, m):
        d = np.array(v, dtype=np.float64).reshape(([nm] if nm > 1 else []) + [ny, nx]) * scale[u]
        if rng.rand() < 0.2:
            d = np.ma.masked_array(d, np.zeros(d.shape, bool))
        return C.grid(d, name=name, units=u, lead=lead, attrs=attrs(m), **kw)

    r, w = mk(rain, rname, ur, model[0]), mk(snow, sname, us, model[1])
    use = rng.rand() < 0.5
    fn = (lambda: unwrap(sfcli.process)(*shuffle(rng, [r, w]), model_id_attr=MODEL if use else None)) if rng.rand() < 0.4 else \
        (lambda: SnowFraction(model_id_attr=MODEL if use else None)(CubeList(shuffle(rng, [r, w]))))
    keep = r.copy()
    got = ctx.call(fn)
    if use and model[0] != model[1]:
        s.event("rejected", why="different_models", out=out(got))
        return
    ok = not isinstance(got, Failed)
    s.event("fraction", rain=rain, snow=snow, nx=nx, out=out(got), got=[fx(x, 1000000) for x in (got.data if nm > 1 else [got.data])] if ok else [],
            meta=ok and got.name() == "snow_fraction" and str(got.units) == "1" and got.dtype == np.float32 and coords_kept(got, keep)
            and title_ok(got, True, r, w) and model_ok(got, (" ".join(sorted(set(model)))) if use else None))
    return got if ok and nm == 1 else None


def masks(ctx, s, frac, shape, dtype=np.float32):
    """frac in ten-thousandths."""
    rng = ctx.rng
    d = (np.array(frac, dtype=np.float64) / 10000).reshape(shape)
    lead = [C.realization(shape[0])] if len(shape) == 3 else []
    c = C.grid(d, name="snow_fraction", units="1", lead=lead, dtype=dtype, attrs=attrs("uk_ens"), **space_kw(rng))
    plug = SignificantPhaseMask(model_id_attr=MODEL)
    for ph in shuffle(rng, ["rain", "sleet", "snow"]):
        use = rng.rand() < 0.7
        got = ctx.call((lambda: plug(c, ph)) if use else (lambda: unwrap(pmcli.process)(c, ph, model_id_attr=MODEL)))
        ok = not isinstance(got, Failed)
        s.event("mask", phase=ph, frac=frac, out=out(got), got=[int(v) for v in got.data.flat] if ok else [],
                meta=ok and got.name() == ph + "_mask" and str(got.units) == "1" and got.dtype == np.int8 and coords_kept(got, c) and title_ok(got, False, c)
                and model_ok(got, "uk_ens"))


def surface(ctx, s, kind, level, alt, pcts, shape, spot=False):
    """level: one flat list per percentile (or one); metres."""
    rng = ctx.rng
    ft = rng.rand() < 0.4
    lu, au = ("ft", "m") if ft and rng.rand() < 0.5 else ("m", "ft") if ft else ("m", "m")
    k = {"m": 1.0, "ft": 1 / 0.3048}
    off = 0.25 if ft else 0.0  # conversion is not exact, so keep off equality
    lv = np.array([[np.nan if v == "Masked" else v for v in q] for q in level], dtype=np.float64)
    mask = np.isnan(lv)
    lv = (np.nan_to_num(lv) - off) * k[lu]
    lead = [C.percentiles(pcts)] if pcts else []
    nreal = shape[0] if len(shape) == (2 if spot else 3) else 0
    if nreal:
        lead = lead + [C.realization(nreal)]
    d = lv.reshape(([len(pcts)] if pcts else []) + list(shape))
    if mask.any():
        d = np.ma.masked_array(d, mask.reshape(d.shape))
    base = shape[-1:] if spot else shape[-2:]
    a = np.array(alt, dtype=np.float64).reshape(base) * k[au]
    kw = dict(space="spot") if spot else space_kw(rng)
    name = "altitude_of_%s_falling_level" % kind
    if spot:
        c = C.grid(d, name=name, units=lu, lead=lead, alt=alt, **kw)
        an = C.grid(np.zeros((1, 3) + tuple(base)), name="grid_neighbours", units="1", lead=[C.DimCoord(np.array([0], np.int32), long_name="neighbour_selection_method", units="1"),
                    C.DimCoord(np.array([0, 1, 2], np.int32), long_name="grid_attributes", units="1")], t=None, alt=alt, **kw)
        if au != "m":
            an.coord("altitude").convert_units(au)
            c.coord("altitude").convert_units(au)
    else:
        c = C.grid(d, name=name, units=lu, lead=lead, **kw)
        an = C.grid(a, name="surface_altitude", units=au, t=None, **kw)
    if spot and au != "m" and rng.rand() < 0.5:
        pass
    before = snap(c, an)
    cs = shuffle(rng, [c, an])
    got = ctx.call(lambda: PrecipPhaseProbability()(*cs) if rng.rand() < 0.6 else unwrap(ppcli.process)(CubeList(cs)))
    ok = not isinstance(got, Failed)
    s.event("surface", kind=kind, level=[fx(np.ma.masked_array(np.nan_to_num(np.array([np.nan if v == "Masked" else v for v in q], float)), [v == "Masked" for v in q]), 1) for q in level],
            alt=alt, pcts=pcts, out=out(got), got=fx(np.ma.masked_array(np.ma.getdata(got.data).astype(float), np.ma.getmaskarray(got.data)), 1) if ok else [],
            meta=ok and got.name() == "probability_of_%s_at_surface" % kind and str(got.units) == "1" and got.dtype == np.int8 and not got.coords("percentile")
            and got.coord("time") == c.coord("time") and title_ok(got, False, c), same=same(before, [c, an]))


def split(ctx, s, rain, snow, precip, shape, lead_real=False):
    """rain, snow in {0, 1}; precip in small integers, maybe with Masked."""
    rng = ctx.rng
    kw = space_kw(rng)
    pdt = np.float32 if rng.rand() < 0.5 else np.int8
    names = [("precipitation_rate", "m s-1"), ("lwe_precipitation_rate", "mm h-1"), ("lwe_thickness_of_precipitation_amount", "m")]
    name, u = names[rng.randint(3)]
    sc = {"m s-1": 2.5e-7, "mm h-1": 0.9, "m": 0.25e-3}[u]
    ly = [C.realization(shape[0])] if len(shape) == 3 and not lead_real else []
    base = shape[-2:] if lead_real else shape
    r = C.grid(np.array(rain).reshape(base), name="probability_of_rain_at_surface", units="1", lead=ly, dtype=pdt, **kw)
    w = C.grid(np.array(snow).reshape(base), name="probability_of_snow_at_surface", units="1", lead=ly, dtype=pdt, **kw)
    m = np.array([x == "Masked" for x in precip])
    pv = np.array([0 if x == "Masked" else x for x in precip], dtype=float) * sc
    pv = np.ma.masked_array(pv, m) if m.any() else pv
    p = C.grid(pv.reshape(shape), name=name, units=u, lead=[C.realization(shape[0])] if len(shape) == 3 else [], **kw)
    for isr in shuffle(rng, [True, False]):
        before = snap(r, w, p)
        cs = shuffle(rng, [r, w, p])
        got = ctx.call(lambda: SnowSplitter(output_is_rain=isr)(*cs) if rng.rand() < 0.6 else unwrap(spcli.process)(*cs, output_is_rain=isr))
        ok = not isinstance(got, Failed)
        nm = name.replace("precipitation", "rainfall" if isr else "snowfall")
        if isr:
            nm = nm.replace("lwe_", "")
        s.event("split", rain=rain, snow=snow, precip=fx(np.ma.masked_array(pv / sc, m), 1), israin=isr, out=out(got),
                got=fx(np.ma.masked_array(np.ma.getdata(got.data).astype(float) / sc, np.ma.getmaskarray(got.data)), 100) if ok else [],
                meta=ok and got.name() == nm and got.units == u and got.dtype == np.float32 and coords_kept(got, p), same=same(before, [r, w, p]))


def sleet(ctx, s, rain, snow, one, shape):
    rng = ctx.rng
    kw = space_kw(rng)
    dt = np.int8 if one == 1 and rng.rand() < 0.5 else np.float32
    lead = [C.realization(shape[0])] if len(shape) == 3 else []
    r = C.grid(np.array(rain).reshape(shape) / one, name="probability_of_rain_at_surface", units="1", lead=lead, dtype=dt, attrs=attrs(), **kw)
    w = C.grid(np.array(snow).reshape(shape) / one, name="probability_of_snow_at_surface", units="1", lead=lead, dtype=dt,
               attrs=attrs(title="Model Forecast" if rng.rand() < 0.6 else "Other Forecast"), **kw)
    before = snap(r, w)
    got = ctx.call(lambda: calculate_sleet_probability(w, r) if rng.rand() < 0.6 else unwrap(slcli.process)(w, r))
    ok = not isinstance(got, Failed)
    s.event("sleet", rain=rain, snow=snow, one=one, out=out(got), got=fx(got.data.astype(float), one) if ok else [],
            meta=ok and got.name() == "probability_of_sleet" and str(got.units) == "1" and got.dtype == dt and coords_kept(got, w) and title_ok(got, False, r, w),
            same=same(before, [r, w]))


THR = {"mm h-1": 0.036, "m s-1": 1e-8, "mm": 0.1, "m": 1e-4}


def freezing(ctx, s, ri, si, ti, r, sl, t, nth, shape, above):
    """ri, si, ti: ids of members ([] for none); r, sl: members by thresholds x places; t: members by places. Sixteenths."""
    rng = ctx.rng
    acc = rng.rand() < 0.4
    uu = ["mm", "m"] if acc else ["mm h-1", "m s-1"]
    ur = uu[rng.randint(2)]
    us = ur if rng.rand() < 0.7 else uu[rng.randint(2)]
    th = [1, 10, 40][:nth]
    kw = space_kw(rng)
    kw.update(t=C.T0, frt=C.T0 - 7200)
    if acc:
        kw["tb"] = [C.T0 - 3600, C.T0]
    rn, sn = ("thickness_of_rainfall_amount", "lwe_thickness_of_sleetfall_amount") if acc else ("rainfall_rate", "lwe_sleetfall_rate")
    model = ["nc_det", "nc_det" if rng.rand() < 0.6 else "uk_det", "uk_ens"]
    titles = ["Model Forecast", "Model Forecast" if rng.rand() < 0.6 else "Other Forecast", "A Forecast"]
    models = " ".join(sorted(set(model[:2])))

    def mk(ids, vals, name, ths, u, rel, m):
        d = np.array(vals, dtype=float) / 16
        n = len(ths)
        if ids:
            d = d.reshape([len(ids), n] + list(shape))
            lf = rng.rand() < 0.7
            if not lf:
                d = d.swapaxes(0, 1)
            return C.prob(d, ths, name=name, units=u, relative=rel, lead=[C.realization(ids)], lead_first=lf, attrs=attrs(model[m], titles[m]), **kw)
        return C.prob(d.reshape([n] + list(shape)), ths, name=name, units=u, relative=rel, attrs=attrs(model[m], titles[m]), **kw)

    cr = mk(ri, r, rn, [x * THR[ur] for x in th], ur, "greater_than", 0)
    cs = mk(si, sl, sn, [x * THR[us] for x in th], us, "greater_than", 1)
    tu = "celsius" if rng.rand() < 0.3 else "K"
    tth = [272.15, 273.15, 274.15] if rng.rand() < 0.6 else [273.15]
    tv = np.array(t, dtype=int)
    full = np.zeros((len(tv), len(tth), tv.shape[1]), dtype=int)
    k = tth.index(273.15)
    for j in range(len(tth)):
        full[:, j] = tv if j == k else 3
    ct = mk(ti, full, "air_temperature", [x - 273.15 if tu == "celsius" else x for x in tth], tu, "greater_than" if above else "less_than", 2)
    if len(tth) == 1 and rng.rand() < 0.6:  # a scalar threshold
        ct = ct[:, 0] if ct.coord_dims("air_temperature") == (1,) else ct[0]
    use = rng.rand() < 0.5
    lst = shuffle(rng, [cr, cs, ct])
    got = ctx.call(lambda: FreezingRain(model_id_attr=MODEL if use else None)(*lst) if rng.rand() < 0.6 else unwrap(frcli.process)(*lst, model_id_attr=MODEL if use else None))
    ok = not isinstance(got, Failed)
    want = sn.replace("sleet", "freezing_rain")
    data = got.data if ok else None
    s.event("freezing", ri=ri, si=si, ti=ti, fr=r, fs=sl, ft=t, above=above, out=out(got), got=fx(data, 1000000) if ok else [],
            meta=ok and got.name() == "probability_of_%s_above_threshold" % want and str(got.units) == "1" and got.dtype == np.float32 and not got.coords("realization")
            and got.coord(var_name="threshold").name() == want and got.shape == (nth,) + tuple(shape) and model_ok(got, models if use else None) and title_ok(got, True, cr, cs)
            and np.allclose(got.coord(want).points, [x * THR[ur] for x in th], rtol=1e-5) and got.coord("time") == cr.coord("time"))


def hail(ctx, s, hs, shape, flat_from=6):
    """hs: rows of (w, size, ccl, cct, melt, orog)."""
    rng = ctx.rng
    names = ["maximum_vertical_updraught", "diameter_of_hail_stones", "air_temperature_at_condensation_level", "air_temperature_at_convective_cloud_top",
             "altitude_of_rain_from_hail_falling_level", "surface_altitude"]
    unit = ["m s-1", "m", "K", "K", "m", "m"]
    alts = ["km h-1", "mm", "celsius", "celsius", "km", "km"]
    sc = [0.1, 1e-4, 0.01, 0.01, 1, 1]
    kw = space_kw(rng)
    h = np.array(hs, dtype=float)
    cs = []
    nreal = shape[0] if len(shape) == 3 else 0
    lead = [C.realization(nreal)] if nreal else []
    for j in range(6):
        d = h[:, j].reshape(shape)
        fields = dict(attrs=attrs("uk_ens" if rng.rand() < 0.9 else "nc_det", "Model Forecast" if rng.rand() < 0.9 else "Other Forecast"))
        if j == 5 and nreal:
            d, fields = d[0], {}
        c = C.grid(d * sc[j], name=names[j], units=unit[j], lead=lead if d.ndim == 3 else [], t=C.T0 if j < 5 else None, **fields, **kw)
        if rng.rand() < 0.3 and not (j in (1, 2, 3, 4, 5) and np.isin(h[:, j], [20, 26815, 25815, 100]).any()):
            c.convert_units(alts[j])
        cs.append(c)
    w0 = cs[0].copy()
    five = [c.copy() for c in cs[:5]]
    models = " ".join(sorted({c.attributes[MODEL] for c in five}))
    use = rng.rand() < 0.5
    lst = shuffle(rng, cs)
    got = ctx.call(lambda: HailFraction(model_id_attr=MODEL if use else None)(*lst) if rng.rand() < 0.6 else unwrap(hfcli.process)(lst, model_id_attr=MODEL if use else None))
    ok = not isinstance(got, Failed)
    if use and " " in models:
        s.event("rejected", why="models_that_differ", out=out(got))
        return
    s.event("hail", h=hs, out=out(got), got=fx(got.data, 1000000) if ok else [],
            meta=ok and got.name() == "hail_fraction" and str(got.units) == "1" and got.dtype == np.float32 and coords_kept(got, w0) and title_ok(got, True, *five)
            and model_ok(got, models if use else None))


def showers(ctx, s, c, v, ct, vt, shape):
    """c, v: members by places in 64ths (v may be Masked)."""
    rng = ctx.rng
    kw = space_kw(rng)
    nm = len(c)
    lead = [C.realization(nm)] if nm > 1 or rng.rand() < 0.3 else []
    full = ([nm] if lead else []) + list(shape)
    cc = C.grid(np.array(c, float).reshape(full) / 64, name=str(rng.choice(["cloud_area_fraction", "low_and_medium_type_cloud_area_fraction"])), units="1", lead=lead, attrs=attrs("uk_ens"), **kw)
    m = np.array([[x == "Masked" for x in q] for q in v])
    vv = np.array([[0.9 * 64 if x == "Masked" else x for x in q] for q in v], float).reshape(full) / 64
    if m.any():
        vv = np.ma.masked_array(vv, m.reshape(full))
    cv = C.grid(vv, name="convective_ratio", units="1", lead=lead, attrs=attrs("uk_ens"), **kw)
    tmpl = cc.copy()
    use = rng.rand() < 0.5
    lst = shuffle(rng, [cc, cv])
    mk = dict(cloud_threshold=ct / 64, convection_threshold=vt / 64, model_id_attr=MODEL if use else None)
    got = ctx.call(lambda: ShowerConditionProbability(**mk)(CubeList(lst)) if rng.rand() < 0.6 else unwrap(shcli.process)(*lst, **mk))
    ok = not isinstance(got, Failed)
    s.event("showers", c=c, v=[fx(np.ma.masked_array([0 if x == "Masked" else x for x in q], [x == "Masked" for x in q]).astype(float), 1) for q in v], ct=ct, vt=vt, out=out(got),
            got=fx(got.data, 1000000) if ok else [],
            meta=ok and got.name() == "probability_of_shower_condition_above_threshold" and str(got.units) == "1" and got.dtype == np.float32 and not got.coords("realization")
            and got.shape == tuple(shape) and got.coord(var_name="threshold").name() == "shower_condition" and float(got.coord("shower_condition").points[0]) == 1.0
            and got.coord("time") == tmpl.coord("time") and model_ok(got, "uk_ens" if use else None) and title_ok(got, True, cc))


def convective(ctx, s, c, d, shape):
    rng = ctx.rng
    kw = space_kw(rng)
    us = [("m s-1", "mm h-1")[rng.randint(2)] for _ in range(2)]
    lead = [C.realization(shape[0])] if len(shape) == 3 else []

    def mk(q, name, u):
        m = np.array([x == "Masked" for x in q])
        a = np.array([0 if x == "Masked" else x for x in q], float) * {"m s-1": 1e-7, "mm h-1": 0.36}[u]
        a = a.reshape(shape)
        return C.grid(np.ma.masked_array(a, m.reshape(shape)) if m.any() else a, name=name, units=u, lead=lead, attrs=attrs("uk_ens"), **kw)

    cc, dd = mk(c, "lwe_convective_precipitation_rate", us[0]), mk(d, "lwe_stratiform_precipitation_rate", us[1])
    before = snap(cc, dd)
    lst = shuffle(rng, [cc, dd])
    got = ctx.call(lambda: ConvectionRatioFromComponents()(lst, model_id_attr=MODEL) if rng.rand() < 0.6 else unwrap(concli.process)(*lst, model_id_attr=MODEL))
    ok = not isinstance(got, Failed)

    def enc(q):
        return fx(np.ma.masked_array([0 if x == "Masked" else x for x in q], [x == "Masked" for x in q]).astype(float), 1)

    s.event("convective", c=enc(c), d=enc(d), out=out(got), got=fx(got.data, 1000000) if ok else [],
            meta=ok and got.name() == "convective_ratio" and str(got.units) == "1" and got.dtype == np.float32 and coords_kept(got, cc) and model_ok(got, "uk_ens") and title_ok(got, False, cc),
            same=same(before, [cc, dd]))


def rejects(ctx, s):
    rng = ctx.rng

    def rej(why, fn):
        s.event("rejected", why=why, out=out(ctx.call(fn)))

    g = lambda name, u="m s-1", v=1.0, **kw: C.grid(np.full((3, 4), v), name=name, units=u, **kw)  # noqa: E731
    r, w = g("rainfall_rate"), g("lwe_snowfall_rate")
    rej("three_cubes", lambda: SnowFraction()(CubeList([r, w, g("snow_depth")])))
    rej("two_rains", lambda: SnowFraction()(CubeList([r, g("rain_rate")])))
    rej("other_grid", lambda: SnowFraction()(CubeList([r, g("lwe_snowfall_rate", dx=1000.0)])))
    rej("other_time", lambda: SnowFraction()(CubeList([r, g("lwe_snowfall_rate", t=C.T0 + 3600)])))
    rej("other_period", lambda: SnowFraction()(CubeList([r, g("lwe_snowfall_rate", tb=[C.T0 - 3600, C.T0])])))
    rej("not_convertible", lambda: SnowFraction()(CubeList([r, g("lwe_snowfall_rate", u="K")])))
    m = C.grid(np.ma.masked_array(np.ones((3, 4)), np.eye(3, 4) > 0), name="lwe_snowfall_rate", units="m s-1")
    rej("masked_input", lambda: SnowFraction()(CubeList([r, m])))
    sf = lambda v, name="snow_fraction", u="1": g(name, u, v)  # noqa: E731
    rej("fraction_above_one", lambda: SignificantPhaseMask()(sf(1.01), "rain"))
    rej("negative_fraction", lambda: SignificantPhaseMask()(sf(-0.01), "rain"))
    rej("percentage", lambda: SignificantPhaseMask()(sf(0.5, u="%"), "snow"))
    rej("other_name", lambda: SignificantPhaseMask()(sf(0.5, name="rain_fraction"), "snow"))
    rej("unknown_phase", lambda: SignificantPhaseMask()(sf(0.5), "hail"))
    q = sf(0.5)
    q.data = np.ma.masked_array(q.data, q.data > 9)
    q.data[0, 0] = np.ma.masked
    rej("masked_fraction", lambda: SignificantPhaseMask()(q, "snow"))
    lev, orog = g("altitude_of_snow_falling_level", "m", 10.0), C.grid(np.ones((3, 4)), name="surface_altitude", units="m", t=None)
    rej("no_level", lambda: PrecipPhaseProbability()(g("altitude", "m"), orog))
    rej("no_surface", lambda: PrecipPhaseProbability()(lev, g("topography", "m")))
    rej("other_grid", lambda: PrecipPhaseProbability()(lev, C.grid(np.ones((3, 4)), name="surface_altitude", units="m", t=None, dx=1000.0)))
    rej("three_cubes", lambda: PrecipPhaseProbability()(lev, orog, orog.copy()))
    rej("not_a_length", lambda: PrecipPhaseProbability()(g("altitude_of_snow_falling_level", "K"), orog))
    pr, ps = g("probability_of_rain_at_surface", "1", 0), g("probability_of_snow_at_surface", "1", 1)
    rej("other_grid", lambda: SnowSplitter(output_is_rain=True)(pr, ps, g("precipitation_rate", dx=1000.0)))
    rej("missing_phase", lambda: SnowSplitter(output_is_rain=True)(pr, g("precipitation_rate")))
    p = lambda name, ths=(1e-8, 1e-7), u="m s-1", **kw: C.prob(np.full((len(ths), 3, 4), 0.5), list(ths), name=name, units=u, **kw)  # noqa: E731
    t = lambda ths=(273.15,), **kw: p("air_temperature", ths, "K", **kw)  # noqa: E731
    R, S = "rainfall_rate", "lwe_sleetfall_rate"
    rej("two_cubes", lambda: FreezingRain()(p(R), p(S)))
    rej("two_rains", lambda: FreezingRain()(p(R), p(R), t()))
    rej("no_sleet", lambda: FreezingRain()(p(R), p("lwe_snowfall_rate"), t()))
    rej("other_thresholds", lambda: FreezingRain()(p(R), p(S, (1e-8, 2e-7)), t()))
    rej("other_small_thresholds", lambda: FreezingRain()(p(R), p(S, (1.3e-8, 1e-7)), t()))
    rej("fewer_thresholds", lambda: FreezingRain()(p(R), p(S, (1e-8,)), t()))
    rej("inconvertible", lambda: FreezingRain()(p(R), p(S, (1e-8, 1e-7), "m"), t()))
    rej("no_freezing_point", lambda: FreezingRain()(p(R), p(S), t((272.15, 274.15))))
    rej("other_grid", lambda: FreezingRain()(p(R), p(S), t(dx=1000.0)))
    rej("other_time", lambda: FreezingRain()(p(R), p(S), t(t=C.T0 + 3600)))
    cl, cv = g("cloud_area_fraction", "1", 0.5), g("convective_ratio", "1", 0.5)
    rej("no_cloud", lambda: ShowerConditionProbability()(CubeList([cv, g("fog_fraction", "1")])))
    rej("other_shape", lambda: ShowerConditionProbability()(CubeList([cl, C.grid(np.ones((2, 3, 4)) / 2, name="convective_ratio", units="1", lead=[C.realization(2)])])))
    a = g("lwe_convective_precipitation_rate")
    rej("no_stratiform", lambda: ConvectionRatioFromComponents()([a, g("rainfall_rate")]))
    rej("not_a_rate", lambda: ConvectionRatioFromComponents()([a, g("lwe_stratiform_precipitation_rate", "m")]))
    rej("one_cube", lambda: unwrap(concli.process)(a))
    # relabelling
    for above in (True, False):
        th = float(rng.choice([0.25, 0.05]))
        pc = C.prob(np.round(rng.rand(1, 3, 4) * 16) / 16, [th], name="texture_of_cloud_area_fraction", units="1", relative="greater_than")
        pc = pc[0]
        before = snap(pc)
        got = ctx.call(lambda: make_shower_condition_cube(pc) if above else unwrap(rmcli.process)(pc))
        ok = not isinstance(got, Failed)
        s.event("relabel", out=out(got), data=fx(pc.data, 16), got=fx(got.data, 16) if ok else [],
                meta=ok and got.name() == "probability_of_shower_condition_above_threshold" and got.coord(var_name="threshold").name() == "shower_condition"
                and [float(x) for x in got.coord("shower_condition").points] == [1.0] and str(got.coord("shower_condition").units) == "1", same=same(before, [pc]))
    rej("many_thresholds", lambda: make_shower_condition_cube(C.prob(np.ones((2, 3, 4)), [0.1, 0.2], name="texture_of_cloud_area_fraction", units="1")))
    rej("no_threshold", lambda: make_shower_condition_cube(g("texture", "1")))


def drive(ctx):
    rng = ctx.rng
    T = ctx.thorough
    fields = [c for c in ctx.cases if "r" in c and "nx" in c]
    members = [c for c in ctx.cases if "ri" in c]
    storms = [c for c in ctx.cases if "h" in c]
    with ctx.session("fraction") as s:
        for i, c in enumerate(ctx.pick(fields, 300 if T else 60)):
            one_fraction(ctx, s, [c["r"]], [c["s"]], len(c["r"]) // c["nx"], c["nx"], i)
        for i in range(150 if T else 25):
            nm, ny, nx = int(rng.choice([1, 2, 3])), int(rng.randint(2, 7)), int(rng.randint(2, 7))
            z = float(rng.choice([0.2, 0.6, 0.9]))
            v = lambda: [[int(x) for x in np.where(rng.rand(ny * nx) < z, 0, rng.randint(1, 40, ny * nx))] for _ in range(nm)]  # noqa: E731
            one_fraction(ctx, s, v(), v(), ny, nx, i)
    with ctx.session("mask") as s:
        for i in range(60 if T else 15):
            shape = [int(rng.randint(2, 4)) for _ in range(int(rng.choice([2, 3])))]
            n = int(np.prod(shape))
            f = np.where(rng.rand(n) < 0.6, rng.choice([0, 99, 100, 101, 5000, 9899, 9900, 9901, 10000], n), rng.randint(0, 10001, n))
            masks(ctx, s, [int(x) for x in f], shape, np.float32)
    with ctx.session("surface") as s:
        for c in ctx.pick(storms, 150 if T else 30):
            p = c["p"]
            for kind in ("rain", "snow", "rain_from_hail"):
                lv = p["sl"] if kind == "snow" else p["rl"]
                surface(ctx, s, kind, [[lv] * 4], [p["a"], lv, lv + 1, lv - 1], [], [2, 2])
        for i in range(200 if T else 40):
            kind = str(rng.choice(["rain", "snow", "rain_from_hail"]))
            spot = rng.rand() < 0.35
            base = [int(rng.randint(2, 6))] if spot else [int(rng.randint(2, 4)), int(rng.randint(2, 4))]
            shape = ([2] if rng.rand() < 0.3 else []) + base
            pcts = [[], [20, 80], [20, 50, 80], [10, 50, 90], [80], [20], [50]][rng.randint(7)]
            n, na = int(np.prod(shape)), int(np.prod(base))
            alt = [int(x) for x in rng.randint(0, 900, na)]
            lv = [[int(x) for x in rng.randint(0, 900, n)] for _ in range(max(1, len(pcts)))]
            for q in lv:  # some levels exactly at the surface
                for j in range(n):
                    if rng.rand() < 0.25:
                        q[j] = alt[j % na]
                    elif rng.rand() < 0.08:
                        q[j] = "Masked"
            surface(ctx, s, kind, lv, alt, pcts, shape, spot)
    with ctx.session("split") as s:
        for i in range(120 if T else 25):
            shape = ([2] if rng.rand() < 0.4 else []) + [int(rng.randint(2, 4)), int(rng.randint(2, 4))]
            lr = False
            n = int(np.prod(shape))
            nb = int(np.prod(shape[-2:])) if lr else n
            k = rng.randint(0, 3, nb) if rng.rand() < 0.85 else rng.randint(0, 4, nb)
            rain, snow = [int(x in (1, 3)) for x in k], [int(x in (2, 3)) for x in k]
            pr = [int(x) for x in rng.choice([0, 0, 1, 2, 7, 40, 333], n)]
            if rng.rand() < 0.2:
                pr[int(rng.randint(n))] = "Masked"
            split(ctx, s, rain, snow, pr, shape, lr)
    with ctx.session("sleet") as s:
        for i in range(80 if T else 20):
            shape = ([2] if rng.rand() < 0.4 else []) + [int(rng.randint(2, 4)), int(rng.randint(2, 4))]
            n = int(np.prod(shape))
            one = int(rng.choice([1, 16, 1024]))
            rain = rng.randint(0, one + 1, n)
            snow = np.array([rng.randint(0, one - x + 1) for x in rain])
            if rng.rand() < 0.2:
                snow[rng.randint(n)] += one // 2 + 1
                snow = np.minimum(snow, one)
            sleet(ctx, s, [int(x) for x in rain], [int(x) for x in snow], one, shape)
    with ctx.session("freezing") as s:
        for c in ctx.pick([c for c in members if c["ri"] and c["si"] and c["ti"]], 150 if T else 30):
            ids = lambda q: [int(x) for x in q]  # noqa: E731
            freezing(ctx, s, ids(c["ri"]), ids(c["si"]), ids(c["ti"]), [[x] * 4 for x in c["fr"]], [[x] * 4 for x in c["fs"]], [[x] * 4 for x in c["ft"]], 1, [2, 2], False)
        for i in range(120 if T else 25):
            nth, shape = int(rng.randint(1, 4)), [int(rng.randint(2, 4)), int(rng.randint(2, 4))]
            n = int(np.prod(shape))
            if rng.rand() < 0.3:
                ii = [[], [], []]
            else:
                ii = [sorted(int(x) for x in rng.choice(6, int(rng.randint(1, 5)), replace=False)) for _ in range(3)]
                if rng.rand() < 0.5:
                    ii = [ii[0]] * 3
                ii = [q[::-1] if rng.rand() < 0.2 else q for q in ii]
            r, sl, t = [], [], []
            for _ in range(max(1, len(ii[0]))):
                r.append([int(x) for x in rng.randint(0, 9, nth * n)])
            for _ in range(max(1, len(ii[1]))):
                sl.append([int(x) for x in rng.randint(0, 9, nth * n)])
            for _ in range(max(1, len(ii[2]))):
                t.append([int(x) for x in rng.randint(0, 17, n)])
            freezing(ctx, s, ii[0], ii[1], ii[2], r, sl, t, nth, shape, bool(rng.rand() < 0.5))
    with ctx.session("hail") as s:
        rows = [[c["h"][k] for k in ("w", "size", "ccl", "cct", "melt", "orog")] for c in storms]
        for i in range(120 if T else 30):
            shape = ([2] if rng.rand() < 0.4 else []) + [int(rng.randint(2, 5)), int(rng.randint(2, 5))]
            n = int(np.prod(shape))
            if rng.rand() < 0.5:
                hs = [list(rows[int(rng.randint(len(rows)))]) for _ in range(n)]
            else:
                hs = [[int(rng.randint(0, 700)), int(rng.choice([0, 5, 19, 21, 50])), int(rng.randint(26500, 29000)), int(rng.randint(20000, 26500)),
                       int(rng.randint(0, 300)), int(rng.randint(101, 300))] for _ in range(n)]
            if len(shape) == 3:
                half = n // 2
                for j in range(half):
                    hs[half + j][5] = hs[j][5]
            hail(ctx, s, hs, shape)
    with ctx.session("showers") as s:
        for i in range(120 if T else 30):
            nm, shape = int(rng.choice([1, 2, 3, 4])), [int(rng.randint(2, 4)), int(rng.randint(2, 4))]
            n = int(np.prod(shape))
            ct, vt = int(rng.choice([52, 32, 16])), int(rng.choice([48, 32, 8]))
            c = [[int(x) for x in np.where(rng.rand(n) < 0.3, ct, rng.randint(0, 65, n))] for _ in range(nm)]
            v = [[int(x) for x in np.where(rng.rand(n) < 0.3, vt, rng.randint(0, 65, n))] for _ in range(nm)]
            if rng.rand() < 0.5:
                for q in v:
                    for j in range(n):
                        if rng.rand() < 0.2:
                            q[j] = "Masked"
            showers(ctx, s, c, v, ct, vt, shape)
    with ctx.session("convective") as s:
        for c in ctx.pick(fields, 80 if T else 15):
            convective(ctx, s, c["r"], c["s"], [2, 2])
        for i in range(80 if T else 20):
            shape = ([2] if rng.rand() < 0.4 else []) + [int(rng.randint(2, 5)), int(rng.randint(2, 5))]
            n = int(np.prod(shape))
            v = lambda: [int(x) for x in rng.choice([0, 0, 1, 2, 7, 40, 333], n)]  # noqa: E731
            a, b = v(), v()
            if rng.rand() < 0.3:
                a[int(rng.randint(n))] = "Masked"
            if rng.rand() < 0.3:
                b[int(rng.randint(n))] = "Masked"
            convective(ctx, s, a, b, shape)
    with ctx.session("refusals") as s:
        rejects(ctx, s)
