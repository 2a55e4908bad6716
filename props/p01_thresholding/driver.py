import numpy as np
from vkit import fx, fx1, rows
from vkit import cubes as C
from vkit.main import Failed

from improver.threshold import Threshold

S = 4  # data are multiples of 1/4 in the units of the thresholds
PARAM = {"K": "air_temperature", "m": "visibility_in_air", "km": "visibility_in_air",
         "m s-1": "wind_speed", "mm s-1": "wind_speed"}
# cube units -> threshold units, factor from threshold units to cube units (exact in binary)
UNITS = [("K", None, 1.0), ("m", None, 1.0), ("m s-1", None, 1.0), ("m", "km", 1000.0)]


def one(ctx, s, data, cmp_, thr, how, collapse, vic, land, space, units=("K", None, 1.0),
        lead="realization", tweak=0, fill=None, name=None):
    """data: [slice][y][x] ints (1/4 unit) with None for masked."""
    arr = np.array([[[0 if v is None else v for v in r] for r in sl] for sl in data],
                   dtype=np.float64) / S
    mask = np.array([[[v is None for v in r] for r in sl] for sl in data])
    junk = np.where(mask, 3.0e3, 0)
    vals = ((arr + junk) * units[2]).astype(np.float32)
    nosl = len(data) == 1 and lead is None
    if mask.any():
        vals = np.ma.masked_array(vals, mask=mask)
    if nosl:
        vals = vals[0]
        lc = []
    elif lead == "realization":
        lc = [C.realization(len(data))]
    else:
        n = len(data)
        lc = [C.percentiles([100.0 * (i + 1) / (n + 1) for i in range(n)])]
    param = PARAM[units[0]]
    cube = C.grid(vals, param, units[0], lead=lc, space=space)
    lm = None
    if land is not None:
        lm = C.grid(np.array(land), "land_binary_mask", "1", space=space, t=None, frt=None,
                    dtype=np.int8)
    kw = dict(comparison_operator=cmp_, threshold_units=units[1])
    t4 = [[v / S for v in t] for t in thr]
    if how == "config":
        kw["threshold_config"] = {str(t[0]): [t[1], t[2]] for t in t4}
    elif how == "config_none":
        kw["threshold_config"] = {str(t[0]): "None" for t in t4}
    elif how == "factor":
        kw["threshold_values"] = [t[0] for t in t4]
        kw["fuzzy_factor"] = (t4[0][1] if t4[0][0] > 0 else t4[0][2]) / t4[0][0]
    else:
        kw["threshold_values"] = [t[0] for t in t4] if len(t4) > 1 else t4[0][0]
    if collapse != "none":
        kw["collapse_coord"] = collapse
    if vic:
        kw["vicinity"] = [v * 2000.0 + tweak for v in vic]
    if fill is not None:
        kw["fill_masked"] = fill / S * units[2]
    plain = {"cmp": cmp_, "thr": thr, "how": how, "collapse": collapse, "vic": vic,
             "land": land if land is not None else [], "leadname": lead or "none",
             "param": param, "units": units[0],
             "yname": "projection_y_coordinate" if space == "xy" else "latitude",
             "xname": "projection_x_coordinate" if space == "xy" else "longitude",
             "data": [[[2000000002 if v is None and fill is None else (fill if v is None else v)
                        for v in r] for r in sl] for sl in data],
             "fill": "none" if fill is None else fill}
    before = dict(cube.attributes)
    res = ctx.call(lambda: Threshold(**kw)(cube, lm) if lm is not None else Threshold(**kw)(cube))
    if isinstance(res, Failed):
        s.event("threshold", out="error", err=res.text, **plain)
        return
    try:
        tc = res.coord(var_name="threshold")
    except Exception:
        s.event("threshold", out="error", err="no threshold coordinate", **plain)
        return
    s.event("threshold", out="ok", o=C.describe(res), values=fx(res.data, 100000),
            tpoints=[int(round(v / units[2] * S)) for v in tc.points.astype(float)],
            tunits=str(tc.units), tdtype=str(tc.dtype), tvar=str(tc.var_name),
            spp=str(tc.attributes.get("spp__relative_to_threshold")),
            attrs_kept=C.attrs_post(before, res.attributes),
            time_kept=all(res.coords(c.name()) and res.coord(c.name()) == c
                          for c in cube.coords() if c.name() in ("time", "forecast_period",
                                                                 "forecast_reference_time")),
            has_lead=bool(res.coords(lead or "none")), **plain)


CMPS = [">", "gt", ">=", "ge", "<", "lt", "<=", "le"]


def drive(ctx):
    rng = ctx.rng
    # behaviours of the specification, replayed
    for i, c in enumerate(ctx.pick(ctx.cases, 160 if not ctx.thorough else 3000)):
        cfg = c["cfg"]
        data = [[[None if v == 2000000002 else v for v in r] for r in sl] for sl in c["rows"]]
        ok = cfg["thr"][1] < cfg["thr"][2]
        with ctx.session("spec") as s:
            # rows repeated so that y is a real dimension
            d3 = [[sl[0], sl[0]] for sl in data]
            land = [cfg["land"][0]] * 2 if cfg["land"] else None
            one(ctx, s, d3, cfg["cmp"], [cfg["thr"]], "config" if ok else "plain", "none",
                [1] if cfg["r"] else [], land, "xy", lead=None)
    n = 0
    for rep in range(1 if not ctx.thorough else 12):
        for cmp_ in CMPS:
            for how in ("plain", "config", "config_none", "factor"):
                for collapse in ("none", "realization", "percentile"):
                    for vic in ([], [1], [2, 1]):
                        if vic and len(vic) > 1 and collapse == "none" and how == "plain" \
                                and cmp_ not in (">", "<="):
                            continue
                        n += 1
                        masked = ["no", "some", "slice", "column"][n % 4]
                        ny, nx = [(3, 4), (2, 5), (4, 3), (1, 4), (3, 1)][rng.randint(5)]
                        ns = [2, 3, 4, 5][rng.randint(4)]
                        lead = "percentile" if collapse == "percentile" else (
                            "realization" if collapse == "realization" else
                            ["realization", "percentile", None][n % 3])
                        if lead is None:
                            ns = 1
                        nt = [1, 2, 3][rng.randint(3)]
                        space = "xy" if vic or n % 4 else "ll"
                        if vic and min(ny, nx) == 1:
                            ny, nx = 3, 4
                        data = rng.randint(-12, 13, (ns, ny, nx)).tolist()
                        for k in range(ns):
                            for y in range(ny):
                                for x in range(nx):
                                    if masked == "some" and rng.rand() < 0.3:
                                        data[k][y][x] = None
                                    elif masked == "slice" and k == 0:
                                        data[k][y][x] = None
                                    elif masked == "column" and x == nx - 1:
                                        data[k][y][x] = None
                        if masked == "slice" and ns == 1:
                            data[0][0][0] = 3
                        thr = sorted(rng.choice([-9, -6, -4, -2, 2, 3, 4, 7, 9], nt,
                                                replace=False).tolist())
                        unit = UNITS[rng.randint(len(UNITS))]
                        if how == "plain" and rng.rand() < 0.4:
                            thr = sorted(set(thr) | {0})
                        if how == "config":
                            t3 = [[t, t - int(rng.randint(1, 6)), t + int(rng.randint(1, 6))]
                                  for t in thr]
                        elif how == "factor":
                            thr = [t for t in thr if t % 2 == 0] or [4]
                            t3 = [[t, t // 2 if t > 0 else t + t // 2,
                                   t + t // 2 if t > 0 else t // 2] for t in thr]
                        else:
                            t3 = [[t, t, t] for t in thr]
                        land = None
                        if vic and n % 2:
                            land = rng.randint(0, 2, (ny, nx)).tolist()
                        fill = int(rng.randint(-12, 13)) if masked == "some" and n % 5 == 0 \
                            else None
                        with ctx.session("random") as s:
                            one(ctx, s, data, cmp_, t3, how, collapse, vic, land, space, unit,
                                lead, tweak=[0, 900.0][n % 2], fill=fill)
                        if ctx.late():
                            return
    reject(ctx)


def reject(ctx):
    cube = C.grid(np.ones((2, 3)), "air_temperature", "K")
    nan = C.grid(np.array([[1.0, np.nan], [2.0, 3.0]]), "air_temperature", "K")
    land = C.grid(np.ones((2, 3)), "land_binary_mask", "1", t=None, dtype=np.int8)
    tries = [
        ("nan", lambda: Threshold(1.0)(nan)),
        ("landmask_without_vicinity", lambda: Threshold(1.0)(cube, land)),
        ("no_thresholds", lambda: Threshold()),
        ("both", lambda: Threshold(1.0, threshold_config={"1": "None"})),
        ("bad_operator", lambda: Threshold(1.0, comparison_operator="!=")),
        ("factor_out_of_range", lambda: Threshold(1.0, fuzzy_factor=1.0)),
        ("factor_negative", lambda: Threshold(1.0, fuzzy_factor=-0.5)),
        ("factor_zero_threshold", lambda: Threshold([1.0, 0.0], fuzzy_factor=0.5)),
        ("bounds_exclude_low", lambda: Threshold(threshold_config={"1": [1.5, 2.0]})),
        ("bounds_exclude_high", lambda: Threshold(threshold_config={"1": [0.5, 0.9]})),
        ("three_bounds", lambda: Threshold(threshold_config={"1": [0.5, 1.0, 2.0]})),
        ("factor_and_bounds", lambda: Threshold(threshold_config={"1": [0.5, 2.0]},
                                                fuzzy_factor=0.5)),
        ("collapse_other", lambda: Threshold(1.0, collapse_coord="time")),
    ]
    for why, f in tries:
        with ctx.session("reject") as s:
            r = ctx.call(f)
            s.event("rejected", why=why, out="error" if isinstance(r, Failed) else "ok")
