import datetime

import numpy as np
from vkit import fx
from vkit import cubes as C
from vkit.main import Failed

from improver.blending.blend_across_adjacent_points import (
    TriangularWeightedBlendAcrossAdjacentPoints)
from improver.blending.calculate_weights_and_blend import WeightAndBlend
from improver.blending.weighted_blend import (
    MergeCubesForWeightedBlending, WeightedBlendAcrossWholeDimension)

M = 2000000002
H = 3600
RUN, MOD = "mosg__model_run", "mosg__model_configuration"


def stamp(t, fmt="%Y%m%dT%H%MZ"):
    return datetime.datetime.utcfromtimestamp(t).strftime(fmt)


def same(a, b):
    return a == b and np.array_equal(np.ma.filled(a.data, -9), np.ma.filled(b.data, -9)) and \
        np.array_equal(np.ma.getmaskarray(a.data), np.ma.getmaskarray(b.data)) and \
        C.describe(a) == C.describe(b)


def stacked(data, blend, lead=(), mask=None, axis=0, units="K", **kw):
    """data: blend, (lead...), y, x.  The blend dimension is put at axis."""
    n = data.shape[0]
    arr = np.ma.masked_array(data, mask=mask) if mask is not None else data
    if blend == "forecast_reference_time":
        frt = np.array([C.T0 + H * i for i in range(n)], dtype=np.int64)
        bc = C.DimCoord(frt, blend, units=C.TUNITS)
        cube = C.grid(arr, lead=[bc] + list(lead), frt=None, t=C.T0 + 86400, units=units, **kw)
        cube.add_aux_coord(C.AuxCoord((C.T0 + 86400 - frt).astype(np.int32), "forecast_period",
                                      units="seconds"), 0)
    elif blend == "model_id":
        bc = C.DimCoord(np.arange(0, 1000 * n, 1000, dtype=np.int32), long_name=blend, units="1")
        cube = C.grid(arr, lead=[bc] + list(lead), units=units, **kw)
        cube.add_aux_coord(C.AuxCoord(np.array(["m%d" % i for i in range(n)]),
                                      long_name="model_configuration", units="no_unit"), 0)
    else:
        bc = C.realization(n)
        cube = C.grid(arr, lead=[bc] + list(lead), units=units, **kw)
    if axis:
        order = list(range(1, cube.ndim))
        order.insert(axis, 0)
        cube.transpose(order)
    return cube


def weights_cube(cube, blend, w, full, rng):
    """w: blend (, y, x) integers."""
    b = cube.coord(blend).copy()
    d = w.astype(np.float32)
    if full:
        d = d / 7.0 if rng.randint(2) else d / d.sum(axis=0).clip(1)
    else:
        d = d / d.sum() if rng.randint(2) else d
    wc = C.Cube(d.astype(np.float32), long_name="weights", units="1")
    wc.add_dim_coord(b, 0)
    if full:
        wc.add_dim_coord(cube.coord(axis="y").copy(), 1)
        wc.add_dim_coord(cube.coord(axis="x").copy(), 2)
        if rng.rand() < 0.3:
            wc.transpose([1, 0, 2])
    return wc


def cols(a, k=0):
    """Columns along axis k, others flattened."""
    return np.moveaxis(a, k, -1).reshape((-1, a.shape[k]))


def whole(ctx, s, rng, kind):
    n = int(rng.randint(2, 5))
    ny, nx = int(rng.randint(1, 4)), int(rng.randint(2, 4))
    blend = ["forecast_reference_time", "model_id", "realization"][rng.randint(3)]
    lead, ps = [], [10, 30, 50, 90][:int(rng.randint(2, 5))]
    if kind == "percentile":
        lead = [C.percentiles(ps)]
        if blend != "realization" and rng.rand() < 0.2:
            lead.append(C.realization(2))
    else:
        r = rng.randint(4)
        if r == 1 and blend != "realization":
            lead = [C.realization(int(rng.randint(2, 4)))]
        elif r == 2:
            lead = [C.thresholds([1.0, 2.0, 5.0])]
        elif r == 3 and blend != "realization":
            lead = [C.thresholds([1.0, 2.0]), C.realization(2)]
    shp = (n,) + tuple(len(c.points) for c in lead) + (ny, nx)
    if kind == "direction":
        data = rng.randint(0, 16, shp)
        if rng.rand() < 0.5:
            data = (data[:1] + rng.randint(-2, 3, shp)) % 16
    elif kind == "percentile":
        data = np.sort(rng.randint(-5, [8, 40][rng.randint(2)], shp), axis=1)
    else:
        data = rng.randint(-20, 50, shp)
    mask = None
    if kind == "mean" and rng.rand() < 0.4:
        mask = rng.rand(n, ny, nx) < 0.3
        mask = np.broadcast_to(mask.reshape((n,) + (1,) * len(lead) + (ny, nx)), shp).copy()
    axis = int(rng.randint(0, 2)) if rng.rand() < 0.4 else 0
    if kind == "percentile":
        axis = int(rng.randint(0, 2))
    units = "degrees" if kind == "direction" else "K"
    cube = stacked(data * 22.5 if kind == "direction" else data, blend, lead, mask, axis, units)
    if rng.rand() < 0.3:       # the blend dimension in another order
        idx = [slice(None)] * cube.ndim
        idx[axis] = slice(None, None, -1)
        cube = cube[tuple(idx)]
        if blend == "model_id":
            pass
    full = bool(rng.rand() < 0.4)
    w = rng.randint(0, 5, (n, ny, nx) if full else (n,))
    w = np.where(w.sum(axis=0) == 0, 1, w)
    if mask is not None:
        w = w + 1
    wc = None
    equal = bool(rng.rand() < 0.15)
    if not equal:
        ref = stacked(data, blend, lead, None, 0)
        wc = weights_cube(ref, blend, w, full, rng)
        if rng.rand() < 0.3 and not full:
            wc = wc[::-1]
    else:
        w, full = np.ones((n,), int), False
    keep, wkeep = cube.copy(), wc.copy() if wc is not None else None
    out_dims = [d for d in C.describe(cube)["dims"] if d != blend]
    r = ctx.call(WeightedBlendAcrossWholeDimension(blend), cube, wc)
    enc = data if mask is None else np.where(mask, M, data)
    W = np.broadcast_to(w.reshape((n,) + (1,) * len(lead) + ((ny, nx) if full else (1, 1))), shp)
    if kind == "percentile":
        # columns: one per point, of the percentiles of every input
        d2 = np.moveaxis(data, 1, -1)                      # n, ..., p
        v = [[d2.reshape((n, -1, len(ps)))[k, p].tolist() for k in range(n)]
             for p in range(d2.reshape((n, -1, len(ps))).shape[1])]
        plain = dict(v=v, w=cols(W[:, 0]), ps=ps)
    else:
        plain = dict(v=cols(enc), w=cols(W))
    if isinstance(r, Failed):
        s.event(kind, out="error", err=r.text, **plain)
        return
    dims = C.describe(r)["dims"]
    want = [c.name() for c in lead] + ["projection_y_coordinate", "projection_x_coordinate"]
    meta = sorted(dims) == sorted(want) and dims == out_dims and r.units == units and \
        r.name() == keep.name() and C.attrs_post(keep.attributes, r.attributes) and \
        r.dtype == np.float32
    order = [r.coord_dims(c)[0] for c in want] if sorted(dims) == sorted(want) else None
    d = np.ma.transpose(r.data, order) if order else r.data
    if kind == "percentile":
        d = np.moveaxis(np.ma.getdata(d), 0, -1).reshape((-1, len(ps)))
        s.event(kind, out="ok", got=[fx(x, 1000) for x in d], meta=bool(meta), **plain)
    elif kind == "direction":
        a = np.deg2rad(np.ma.getdata(d).ravel().astype(np.float64))
        s.event(kind, out="ok", sn=fx(np.sin(a), 10000), cs=fx(np.cos(a), 10000),
                deg=fx(np.ma.getdata(d).ravel(), 100), meta=bool(meta), **plain)
    else:
        s.event(kind, out="ok", got=fx(d.ravel(), 1000), meta=bool(meta), **plain)


def run_cube(model, frt, t, v, mask, kind, record=None, extra=None):
    attrs = dict(C.ATTRS)
    attrs[MOD] = model
    if record:
        attrs[RUN] = record
    if extra:
        attrs.update(extra)
    arr = np.asarray(v, dtype=np.float32)
    if mask is not None:
        arr = np.ma.masked_array(arr, mask=mask)
    if kind == "prob":
        return C.prob(arr[np.newaxis] if arr.ndim == 2 else arr, [280.0, 290.0], t=t, frt=frt,
                      attrs=attrs)
    return C.grid(arr, t=t, frt=frt, attrs=attrs)


def rec_of(text):
    out = []
    for line in text.split("\n"):
        name, w = line.rsplit(":", 1)
        out.append({"id": name, "w": int(round(float(w) * 1000))})
    return out


def vals(cube):
    return fx(cube.data.ravel(), 100)


def blend(ctx, s, rng, cubes, coord, method, recs, labels, cycle, wts=None, record=True,
          fuzzy=False, shuffle=True):
    """cubes in ascending order of the blend coordinate."""
    order = list(range(len(cubes)))
    if shuffle:
        rng.shuffle(order)
    keep = [c.copy() for c in cubes]
    kw = {}
    if method["kind"] == "linear":
        kw = dict(y0val=method["y0"], ynval=method["yn"])
    elif method["kind"] == "nonlinear":
        kw = dict(cval=method["c10"] / 10.0, inverse_ordering=method["inverse"])
    else:
        kw = dict(weighting_coord="forecast_period", wts_dict=wts)
    name = "model_id" if coord == "model" and rng.randint(2) else \
        ("model_configuration" if coord == "model" else coord)
    p = WeightAndBlend(name, method["kind"], **kw)
    if rng.rand() < 0.5:       # the plugin has blended another time before
        before = [c.copy() for c in cubes]
        for c in before:
            for n in ("time", "forecast_period"):
                c.coord(n).points = c.coord(n).points + np.asarray(2 * H, c.coord(n).dtype)
        ctx.call(p, C.CubeList(before), cycletime=stamp(cycle), model_id_attr=MOD)
    args = dict(cycletime=stamp(cycle))
    if coord == "model" or record:
        args["model_id_attr"] = MOD
    if record:
        args["record_run_attr"] = RUN
    if rng.rand() < 0.2:
        args["attributes_dict"] = {"source": "Blended", "my_extra": "x"}
    r = ctx.call(p, C.CubeList([cubes[i] for i in order]), **args)
    model = coord == "model"
    ins = [{"v": vals(c), "rec": recs[i]} for i, c in enumerate(cubes)]
    plain = dict(inputs=ins, method=method, labels=labels, model=model, has_record=record)
    if isinstance(r, Failed):
        s.event("blend", out="error", err=r.text, **plain)
        return None
    c0 = keep[0]
    t = int(c0.coord("time").points[0])
    times = int(r.coord("time").points[0]) == t and r.coord("time").shape == (1,) and \
        r.coord("forecast_reference_time").points.tolist() == [cycle] and \
        r.coord("forecast_period").points.tolist() == [t - cycle] and \
        r.coord("blend_time").points.tolist() == [cycle] and \
        not r.coord("forecast_reference_time").has_bounds() and \
        r.coord("forecast_period").dtype == np.int32 and \
        "deprecation_message" in r.coord("forecast_period").attributes and \
        "deprecation_message" in r.coord("forecast_reference_time").attributes
    left = [n for n in ("model_id", "model_configuration", "blend_record") if r.coords(n)]
    at = dict(r.attributes)
    names = str(at.get(MOD, "")).split(" ") if model else []
    extra_ok = "attributes_dict" not in args or (at.get("source") == "Blended"
                                                 and at.get("my_extra") == "x")
    common = all(at.get(k) == v for k, v in c0.attributes.items()
                 if k not in ("title", "source", MOD, RUN)
                 and all(c.attributes.get(k) == v for c in keep))
    differing = all(k not in at or (k == "source" and at[k] == "IMPROVER") or
                    k in args.get("attributes_dict", {}) for c in keep
                    for k, v in c.attributes.items()
                    if k not in (MOD, RUN, "title") and
                    any(d.attributes.get(k) != v for d in keep))
    meta = not left and extra_ok and common and differing and \
        all(k in at for k in ("title", "source", "institution")) and r.name() == c0.name() and \
        r.units == c0.units and (model or at.get(MOD) == c0.attributes[MOD]) and \
        r.dtype == np.float32
    rec = rec_of(at[RUN]) if record and RUN in at else []
    s.event("blend", out="ok", got=vals(r), record=rec, names=names, times_ok=bool(times),
            meta=bool(meta), **plain)
    s.event("input", same=all(same(a, b) for a, b in zip(cubes, keep)))
    return r, rec


def pipeline(ctx, s, rng, log):
    kind = ["plain", "prob"][rng.randint(2)]
    shp = (2, 2, 2) if kind == "prob" else (2, 2)
    cycle = C.T0
    t = C.T0 + H * int(rng.randint(1, 10))
    record = bool(rng.rand() < 0.8)
    hist = {"A": [], "B": []}
    masked = bool(rng.rand() < 0.3)
    for m, name in (("A", "uk_det"), ("B", "uk_ens")):
        for i in range(int(rng.randint(1, 4))):
            frt = cycle - H * (4 - i)
            v = rng.randint(0, 50, shp)
            mask = rng.rand(*shp) < 0.2 if masked else None
            hist[m].append(run_cube(name, frt, t, v, mask, kind,
                                    extra={"um_version": ["10", "11"][rng.randint(2)]}))
    out = {}
    n_cycle = [o for o in log if o["kind"] == "cycle"]
    for j, m in enumerate("AB"):
        cubes = hist[m]
        recs = [[{"id": "%s:%s" % (c.attributes[MOD],
                                  stamp(int(c.coord("forecast_reference_time").points[0]),
                                        "%Y%m%dT%H%MZ")), "w": 1000}] for c in cubes]
        if rng.rand() < 0.25 and len(cubes) > 1:
            method = {"kind": "nonlinear", "c10": int([3, 5, 10][rng.randint(3)]),
                      "inverse": bool(rng.randint(2))}
        else:
            y0 = n_cycle[j % len(n_cycle)]["y0"] if n_cycle else 1
            method = {"kind": "linear", "y0": y0,
                      "yn": 1 + int(rng.randint(2)) if rng.rand() < 0.7 else 250}
        got = blend(ctx, s, rng, cubes, "forecast_reference_time", method, recs,
                    [""] * len(cubes), cycle, record=record)
        if got is None:
            return
        out[m] = got
    a = [o["a"] for o in log if o["kind"] == "model"] or [1]
    models_blend(ctx, s, rng, [out["A"], out["B"]], ["uk_det", "uk_ens"], [a[0], 3 - a[0]],
                 cycle, t, record)


def models_blend(ctx, s, rng, outs, names, share, cycle, t, record):
    fp = (t - cycle) // H
    wts, models = {}, []
    for n, w in zip(names, share):
        x = [fp - 2, fp + 2] if rng.randint(2) else [fp - 1, fp, fp + 5]
        y = [w, w] if len(x) == 2 else [0 if rng.randint(2) else w, w, 3]
        wts[n] = {"forecast_period": x, "weights": y, "units": "hours"}
        models.append({"x": [v + 10 for v in x], "y": y})
    blend(ctx, s, rng, [o[0] for o in outs], "model",
          {"kind": "dict", "models": models, "at": int(fp + 10)}, [o[1] for o in outs], names,
          cycle, wts=wts, record=record, shuffle=True)


def three_models(ctx, s, rng):
    n = int(rng.randint(2, 5))
    names = ["nc_det", "uk_det", "uk_ens", "global"][:n]
    rng.shuffle(names)
    cycle, t = C.T0, C.T0 + H * 6
    outs = []
    record = bool(rng.randint(2))
    for i, nm in enumerate(names):
        frt = cycle - H * int(rng.randint(0, 6))
        c = run_cube(nm, frt, t, rng.randint(0, 50, (2, 3)), None, "plain",
                     extra={"grid_id": ["a", "b"][rng.randint(2)]})
        rec = [{"id": "%s:%s" % (nm, stamp(frt)), "w": 1000}]
        outs.append((c, rec))
    share = rng.randint(0, 4, n)
    if share.sum() == 0:
        share[0] = 1
    if rng.rand() < 0.4:       # one that counts for very little
        share = share * 3
        share[rng.randint(n)] = 1
    models_blend(ctx, s, rng, outs, names, [int(v) for v in share], cycle, t, record)


def adjacent(ctx, s, rng):
    n = int(rng.randint(2, 6))
    coord = "forecast_period"
    ny, nx = 2, 2
    lead = [] if rng.rand() < 0.6 else [C.thresholds([1.0, 2.0])]
    shp = (n,) + tuple(len(c.points) for c in lead) + (ny, nx)
    data = rng.randint(-20, 50, shp)
    steps = sorted(rng.choice(12, n, replace=False).tolist())
    cube = C.grid(data, lead=lead, t=[C.T0 + H * k for k in steps], frt=C.T0, tdim=0)
    mid, width = int(rng.randint(n)), int(rng.randint(1, 7))
    if coord == "time":
        a = ("time", cube.coord("time").points[mid], C.TUNITS, width * H)
        unit_mid = cube.coord("time").points[mid]
        a = ("time", int(unit_mid), C.TUNITS, width * H)
    else:
        a = ("forecast_period", steps[mid], "hours", width)
    keep = cube.copy()
    r = ctx.call(TriangularWeightedBlendAcrossAdjacentPoints(*a), cube)
    plain = dict(v=cols(data), t=steps, mid=steps[mid], width=width)
    if isinstance(r, Failed):
        s.event("adjacent", out="error", err=r.text, **plain)
        return
    centre = keep[mid]
    meta = [c for c in r.coords()] == [c for c in centre.coords()] and r.name() == centre.name() \
        and r.shape == centre.shape and C.attrs_post(centre.attributes, r.attributes)
    s.event("adjacent", out="ok", got=fx(r.data.ravel(), 100), meta=bool(meta), **plain)
    s.event("input", same=same(cube, keep))


def drive(ctx):
    rng = ctx.rng
    k = 1 if not ctx.thorough else 20
    logs = [c["log"] for c in ctx.cases if "log" in c]
    mixes = [c for c in ctx.cases if "vs" in c]
    for c in ctx.pick(mixes, 40 * k):
        with ctx.session("mixture") as s:
            data = np.array(c["vs"], dtype=float)[:, :, np.newaxis, np.newaxis] * np.ones((1, 1, 1, 2))
            cube = stacked(data, "model_id", [C.percentiles(c["ps"])])
            w = np.array(c["w"])
            wc = weights_cube(cube, "model_id", w, False, rng)
            r = ctx.call(WeightedBlendAcrossWholeDimension("model_id"), cube, wc)
            v = [c["vs"]] * 2
            plain = dict(v=v, w=[c["w"]] * 2, ps=c["ps"])
            if isinstance(r, Failed):
                s.event("percentile", out="error", err=r.text, **plain)
            else:
                d = np.moveaxis(r.data, 0, -1).reshape((-1, len(c["ps"])))
                s.event("percentile", out="ok", got=[fx(x, 1000) for x in d], meta=True, **plain)
    for kind, n in (("mean", 60), ("percentile", 30), ("direction", 25)):
        for i in range(n * k):
            with ctx.session(kind) as s:
                whole(ctx, s, rng, kind)
    for log in ctx.pick(logs, 30 * k):
        with ctx.session("pipeline") as s:
            pipeline(ctx, s, rng, log)
    for i in range(20 * k):
        with ctx.session("models") as s:
            three_models(ctx, s, rng)
    for i in range(20 * k):
        with ctx.session("adjacent") as s:
            adjacent(ctx, s, rng)
    t = C.T0 + H * 5
    a = run_cube("uk_det", C.T0 - H, t, np.ones((2, 2)), None, "plain")
    b = run_cube("uk_ens", C.T0 - 2 * H, t, np.ones((2, 2)), None, "plain")
    b2 = run_cube("uk_ens", C.T0 - 2 * H, t + H, np.ones((2, 2)), None, "plain")
    nomod = b.copy()
    nomod.attributes.pop(MOD)
    old = b.copy()
    old.attributes[RUN] = "uk_ens:20171110T0200Z"
    nofp = a.copy()
    nofp.remove_coord("forecast_reference_time")
    W = lambda c, m="linear", **kw: WeightAndBlend(c, m, **dict(dict(y0val=1, ynval=1), **kw))  # noqa
    frt2 = stacked(np.ones((2, 2, 2)), "forecast_reference_time")
    one_p = stacked(np.ones((2, 1, 2, 2)), "forecast_reference_time", [C.percentiles([50])])
    scalar_p = one_p[:, 0]
    times = C.grid(np.ones((2, 2, 2)), t=[C.T0, C.T0 + H])
    cyc = stamp(C.T0)
    wt = stacked(np.ones((2, 2, 2)), "model_id")
    bad = {
        "unknown_method": lambda: WeightAndBlend("model_id", "cubic"),
        "record_without_model": lambda: W("forecast_reference_time")(
            C.CubeList([a.copy(), b.copy()]), cycletime=cyc, record_run_attr=RUN),
        "models_without_attribute": lambda: MergeCubesForWeightedBlending("model_id"),
        "model_attribute_missing": lambda: W("model_id")(
            C.CubeList([a.copy(), nomod]), cycletime=cyc, model_id_attr=MOD),
        "same_model_twice": lambda: W("model_id")(
            C.CubeList([a.copy(), a.copy()]), cycletime=cyc, model_id_attr=MOD),
        "no_cycle_time": lambda: W("model_id")(C.CubeList([a.copy(), b.copy()]),
                                               model_id_attr=MOD),
        "different_validity": lambda: W("forecast_reference_time")(
            C.CubeList([a.copy(), b2.copy()]), cycletime=cyc),
        "record_without_weight": lambda: W("model_id")(
            C.CubeList([a.copy(), old]), cycletime=cyc, model_id_attr=MOD, record_run_attr=RUN),
        "blend_coordinate_missing": lambda: W("forecast_reference_time")(
            C.CubeList([nofp, b.copy()]), cycletime=cyc),
        "thresholds": lambda: WeightedBlendAcrossWholeDimension("threshold"),
        "no_cube": lambda: WeightedBlendAcrossWholeDimension("time")([1]),
        "no_coordinate": lambda: WeightedBlendAcrossWholeDimension("realization")(frt2.copy()),
        "weights_of_other_coordinate": lambda: WeightedBlendAcrossWholeDimension(
            "forecast_reference_time")(frt2.copy(), wt),
        "one_percentile": lambda: WeightedBlendAcrossWholeDimension("forecast_reference_time")(
            one_p.copy()),
        "scalar_percentile": lambda: WeightedBlendAcrossWholeDimension("forecast_reference_time")(
            scalar_p.copy()),
        "several_times": lambda: WeightedBlendAcrossWholeDimension("time")(times.copy()),
        "central_point_missing": lambda: TriangularWeightedBlendAcrossAdjacentPoints(
            "forecast_period", 77, "hours", 3)(times.copy()),
    }
    for why, f in bad.items():
        with ctx.session("reject") as s:
            r = ctx.call(f)
            s.event("rejected", why=why, out="error" if isinstance(r, Failed) else "ok")
