"""Calibration by decision trees, with stand-ins for the tree libraries that read the same files."""
import os
import sys
import tempfile
import types
import warnings

import numpy as np
from iris.cube import CubeList
from vkit import cubes as C
from vkit.main import Failed

from improver.calibration import rainforest_calibration as rf
from improver.cli import apply_rainforests_calibration as cli

MASKED, NAN = 2000000002, 2000000001
# variable: units, integer units per unit, lower bound
VARS = {"lwe_thickness_of_precipitation_amount": ("m", 1e6, 0), "rainfall_rate": ("m s-1", 3.6e8, 0), "lwe_precipitation_rate": ("mm h-1", 100, 0),
        "wind_speed": ("m s-1", 10, 0), "air_temperature": ("K", 100, 17315)}
FEATURES = ["air_pressure", "cape", "clear_sky", "wind_speed_at_10m", "zenith", "Humidity"]


class Booster:
    """Reads a LightGBM text model: values go left where they do not exceed the split."""

    def __init__(self, model_file):
        self.trees, self.features, tree = [], 0, None
        with open(model_file) as f:
            for line in f.read().split("\n"):
                k, _, v = line.partition("=")
                if k == "max_feature_idx":
                    self.features = int(v) + 1
                elif k == "Tree":
                    tree = {}
                    self.trees.append(tree)
                elif k in ("split_feature", "left_child", "right_child"):
                    tree[k] = [int(q) for q in v.split()]
                elif k in ("threshold", "leaf_value"):
                    tree[k] = [float(q) for q in v.split()]
                elif k == "end of trees":
                    break

    def reset_parameter(self, params):
        return self

    def num_feature(self):
        return self.features

    def predict(self, data):
        data = np.asarray(data)
        assert data.ndim == 2 and data.shape[1] == self.features
        out = []
        for row in data:
            total = 0.0
            for t in self.trees:
                n = 0 if t["split_feature"] else -1
                while n >= 0:
                    n = t["left_child"][n] if float(row[t["split_feature"][n]]) <= t["threshold"][n] else t["right_child"][n]
                total += t["leaf_value"][-n - 1]
            out.append(total)
        return np.array(out)


class DMatrix:
    def __init__(self, data):
        self.data = np.asarray(data)


class Predictor:
    def __init__(self, libpath, verbose=False, nthread=1):
        self.booster = Booster(libpath)
        self.num_feature = self.booster.num_feature()

    def predict(self, data):
        assert isinstance(data, DMatrix)
        return self.booster.predict(data.data)


sys.modules["lightgbm"] = types.ModuleType("lightgbm")
sys.modules["lightgbm"].Booster = Booster


def treelite(on):
    if on:
        m = types.ModuleType("treelite_runtime")
        m.DMatrix, m.Predictor = DMatrix, Predictor
        sys.modules["treelite_runtime"] = m
    else:
        sys.modules["treelite_runtime"] = None


def unwrap(fn):
    fn = getattr(fn, "__wrapped__", fn)
    return getattr(fn, "__wrapped__", fn)


def out(r):
    return "error" if isinstance(r, Failed) else "ok"


def whole(a, scale):
    m = np.ma.getmaskarray(a)
    v = np.asarray(np.ma.getdata(a), dtype=float)
    return [MASKED if mm else NAN if np.isnan(x) else int(np.clip(np.rint(x * scale), -1.9e9, 1.9e9)) for x, mm in zip(v.flat, m.flat)]


def snap(cubes):
    return [c.copy() for c in cubes if c is not None]


def same(before, after):
    after = [c for c in after if c is not None]
    return all(a.metadata == b.metadata and a.coords() == b.coords() and a.shape == b.shape
               and np.array_equal(np.ma.getmaskarray(a.data), np.ma.getmaskarray(b.data))
               and np.array_equal(np.ma.filled(a.data, 0), np.ma.filled(b.data, 0), equal_nan=True) for a, b in zip(before, after))



def tree(ctx, nf, total):
    """A tree of up to three splits; features count quarters."""
    rng = ctx.rng
    n = int(rng.choice([0, 1, 1, 2, 3]))
    f = [int(q) for q in rng.randint(0, nf, n)]
    sp = [int(rng.choice([-8, 0, 4, 5, 10, 20])) for _ in range(n)]
    v = [int(rng.choice([total, 0, total // 2, rng.randint(-3000, 12000)])) for _ in range(n + 1)]
    if n == 0:
        le, ri = [], []
    elif n == 1:
        le, ri = [-1], [-2]
    elif n == 2:
        le, ri = ([1, -1], [-3, -2]) if rng.rand() < 0.5 else ([-1, -2], [1, -3])
    else:
        le, ri = [1, -1, -3], [2, -2, -4]
    return dict(f=f, s=sp, l=le, r=ri, v=v)


def write(path, forest, nf):
    rows = ["tree", "version=v3", "num_class=1", "max_feature_idx=%d" % (nf - 1), "feature_names=" + " ".join("Column_%d" % k for k in range(nf)), ""]
    for k, t in enumerate(forest):
        join = lambda q: " ".join(str(w) for w in q)
        rows += ["Tree=%d" % k, "num_leaves=%d" % len(t["v"]), "num_cat=0", "split_feature=" + join(t["f"]), "split_gain=" + join([1] * len(t["f"])), "threshold=" + join([repr(q / 4) for q in t["s"]]),
                 "decision_type=" + join([2] * len(t["f"])), "left_child=" + join(t["l"]), "right_child=" + join(t["r"]), "leaf_value=" + join([repr(q / 10000) for q in t["v"]]), "is_linear=0", "shrinkage=1", "", ""]
    with open(path, "w") as f:
        f.write("\n".join(rows + ["end of trees", ""]))


def models(ctx, folder, nf, name, lite):
    """A configuration on file and the forests in it, by lead time and threshold, both rising."""
    rng = ctx.rng
    units, scale, lower = VARS[name]
    case = ctx.cases[rng.randint(len(ctx.cases))]
    thr = [lower + int(q) for q in case["thr"]]
    p = case["p"]
    if rng.rand() < 0.2 and lower == 0:
        thr, p = [0] + thr, [9000] + list(p)
    leads = sorted(int(q) for q in rng.choice([6, 12, 24, 48, 54], int(rng.randint(1, 4)), replace=False))
    forests = []
    cfg = {}
    for ld in leads:
        row = []
        d = {}
        for k, t in enumerate(thr):
            forest = [tree(ctx, nf, int(p[k])) for _ in range(int(rng.choice([1, 1, 2])))]
            a = os.path.join(folder, "m_%d_%d.txt" % (ld, k))
            write(a, forest, nf)
            files = {"lightgbm_model": a}
            if lite:
                b = os.path.join(folder, "m_%d_%d.so" % (ld, k))
                write(b, forest, nf)
                files["treelite_model"] = b
            d[repr(t / scale) if t or rng.rand() < 0.5 else "0"] = files
            row.append(forest)
        keys = list(d)
        if rng.rand() < 0.4:
            rng.shuffle(keys)
        cfg[str(ld) if rng.rand() < 0.8 else "%03d" % ld] = {q: d[q] for q in keys}
        forests.append(row)
    keys = list(cfg)
    if rng.rand() < 0.4:
        rng.shuffle(keys)
    return {q: cfg[q] for q in keys}, leads, thr, forests


def inputs(ctx, name, nf, fp):
    """A forecast and its features with their values (quarters) by member and point."""
    rng = ctx.rng
    space = ["xy", "ll", "spot"][rng.randint(3)]
    dims = [int(rng.randint(1, 5))] if space == "spot" else [int(rng.randint(1, 4)), int(rng.randint(1, 4))]
    n = int(np.prod(dims))
    nr = int(rng.choice([1, 2, 3]))
    units, scale, lower = VARS[name]
    kw = dict(space=space, frt=C.T0 - fp * 60, tb=[C.T0 - 3600, C.T0] if rng.rand() < 0.3 else None)
    reals = C.realization(nr, start=int(rng.randint(0, 3)))
    ensemble = rng.rand() < 0.7
    names = [str(q) for q in rng.choice(FEATURES, nf, replace=False)]
    if rng.rand() < 0.4:
        names[0] = name
    shared = [not ensemble or rng.rand() < 0.3 for _ in range(nf)]
    x = np.zeros((nr if ensemble and not all(shared) or ensemble else 1, n, nf), dtype=int)
    cubes, order = [], sorted(names)
    fc = None
    lone = ensemble and rng.rand() < 0.2
    for nm, sh in zip(names, shared):
        if nm == name:
            sh = lone or not ensemble
        v = rng.choice([-9, -8, -7, 0, 1, 3, 4, 5, 6, 10, 11, 20, 21, 30], (1 if sh else nr, n))
        x[:, :, order.index(nm)] = v
        c = C.grid(v.reshape(([] if sh else [nr]) + dims) / 4, nm, units if nm == name else "1", lead=[] if sh else [reals], **kw)
        cubes.append(c)
        if nm == name:
            fc = c.copy()
    if fc is None:
        fc = C.grid(np.ones(([] if lone or not ensemble else [nr]) + dims), name, units, lead=[] if lone or not ensemble else [reals], **kw)
    if rng.rand() < 0.25:
        for c in [fc] + cubes:
            if rng.rand() < 0.5:
                c.transpose([int(q) for q in rng.permutation(c.ndim)] if space != "spot" or c.ndim == 2 else None)
    if not any(c.coords("realization") for c in [fc] + cubes):
        x = x[:1]
    rng.shuffle(cubes)
    return fc, cubes, x, space


def lined(r, space):
    th = [q for q in r.coords() if q.var_name == "threshold"][0]
    sp = [r.coord_dims("spot_index")[0]] if space == "spot" else [r.coord_dims(r.coord(axis=a))[0] for a in "yx"]
    td = list(r.coord_dims(th))
    return [whole(q, 10000) for q in np.transpose(r.data, td + sp).reshape((th.shape[0], -1))]


def calibrate(ctx, s):
    rng = ctx.rng
    nf = int(rng.choice([1, 2, 3]))
    name = list(VARS)[rng.randint(len(VARS))]
    units, scale, lower = VARS[name]
    lite = bool(rng.rand() < 0.3)
    with tempfile.TemporaryDirectory() as folder:
        cfg, leads, thr, forests = models(ctx, folder, nf, name, lite)
        fp = 60 * int(rng.choice(leads)) if rng.rand() < 0.5 else int(rng.choice([60, 180, 540, 1080, 1081, 2160, 2159, 3060, 5000]))
        fc, cubes, x, space = inputs(ctx, name, nf, fp)
        if rng.rand() < 0.25:
            outs = list(thr)
            if rng.rand() < 0.4:
                outs = sorted({q + int(rng.randint(0, 3)) for q in outs})
        else:
            outs = sorted({int(q) for q in rng.choice([lower, thr[0], thr[-1], thr[-1] + 20, lower + 1, lower + 3, *rng.randint(lower, thr[-1] + 10, 4)], int(rng.randint(1, 5)))})
        tunits = {"m": "mm", "m s-1": "km h-1", "mm h-1": "m s-1", "K": "celsius"}[units] if rng.rand() < 0.3 else units if rng.rand() < 0.3 else None
        if tunits is None or tunits == units:
            given = [q / scale for q in outs]
        else:
            f = {"mm": lambda q: q * 1000, "km h-1": lambda q: q * 3.6, "m s-1": lambda q: q / 3.6e6, "celsius": lambda q: q - 273.15}[tunits]
            given = [f(q / scale) for q in outs]
        binned = bool(rng.rand() < 0.5)
        treelite(rng.rand() < 0.5)
        before = snap([fc] + cubes)
        how = rng.randint(3)
        feats = CubeList(cubes)
        if how == 0:
            r = ctx.call(lambda: unwrap(cli.process)(fc, *cubes, model_config=cfg, output_thresholds=given, threshold_units=tunits, bin_data=binned))
        elif how == 1:
            tc = {repr(q): "None" for q in given}
            r = ctx.call(lambda: unwrap(cli.process)(fc, *cubes, model_config=cfg, output_threshold_config=tc, threshold_units=tunits, bin_data=binned, threads=2))
        else:
            cls = rf.ApplyRainForestsCalibrationLightGBM if rng.rand() < 0.3 else rf.ApplyRainForestsCalibration
            r = ctx.call(lambda: cls(cfg, threads=1, bin_data=binned).process(fc, feats, given, threshold_units=tunits))
    treelite(False)
    rec = dict(x=x.tolist(), models=forests, leads=[60 * q for q in leads], thr=thr, fp=fp, lower=lower, outs=outs, binned=binned)
    if isinstance(r, Failed):
        s.event("calibrate", out="error", err=r.text[:300], **rec)
        return
    o = before[0]
    th = [q for q in r.coords() if q.var_name == "threshold"]
    meta = r.name() == "probability_of_%s_above_threshold" % name and r.units == "1" and r.dtype == np.float32 and len(th) == 1 and th[0].name() == name and th[0].units == units and \
        th[0].attributes == {"spp__relative_to_threshold": "greater_than_or_equal_to"} and np.allclose(th[0].points, [q / scale for q in outs], rtol=1e-5, atol=0) and not r.coords("realization") and \
        all(r.coords(q.name()) and r.coord(q.name()) == q for q in o.coords() if q.name() != "realization") and {q.name() for q in r.coords()} == {q.name() for q in o.coords() if q.name() != "realization"} | {name} and \
        all(r.attributes.get(k) == o.attributes[k] for k in ("source", "institution"))
    s.event("calibrate", got=lined(r, space), meta=bool(meta), kept=bool(same(before, [fc] + cubes)), **rec)


def rejected(ctx, s):
    rng = ctx.rng
    why = ["too_few_features", "too_many_features", "missing_model", "other_thresholds", "other_grid", "other_members", "both_thresholds", "no_thresholds"][rng.randint(8)]
    name = "lwe_precipitation_rate"
    kw = dict(space="xy")
    fc = C.grid(rng.rand(2, 2, 3), name, "mm h-1", lead=[C.realization(2)], **kw)
    feats = [C.grid(rng.rand(2, 2, 3), q, "1", lead=[C.realization(2)], **kw) for q in ("cape", "zenith")]
    given = [0.1, 0.2]
    with tempfile.TemporaryDirectory() as folder:
        treelite(rng.rand() < 0.5)
        lite = rng.rand() < 0.5
        cfg, leads, thr, forests = models(ctx, folder, 2, name, lite)
        args = dict(model_config=cfg, output_thresholds=given)
        if why == "too_few_features":
            feats = feats[:1]
        elif why == "too_many_features":
            feats.append(C.grid(rng.rand(2, 2, 3), "Humidity", "1", lead=[C.realization(2)], **kw))
        elif why == "missing_model":
            d = cfg[list(cfg)[-1]]
            d[list(d)[int(rng.randint(len(d)))]] = {}
        elif why == "other_thresholds":
            d = cfg[list(cfg)[0]]
            at = int(rng.randint(len(d)))
            e = {(("9.5" if rng.rand() < 0.3 else repr(float(q) + 0.0005)) if k == at else q): d[q] for k, q in enumerate(d)} if rng.rand() < 0.7 else {q: d[q] for q in list(d)[1:]}
            cfg["72"] = e
        elif why == "other_grid":
            c = feats[int(rng.randint(2))].coord(axis=["x", "y"][rng.randint(2)])
            c.points = c.points + 1000
            if rng.rand() < 0.5:
                # none of them an ensemble
                fc, feats = fc[0], [q[0] for q in feats]
                for q in [fc] + feats:
                    q.remove_coord("realization")
        elif why == "other_members":
            feats[1] = feats[1][:1] if rng.rand() < 0.5 else feats[1]
            feats[1].coord("realization").points = np.arange(5, 5 + feats[1].coord("realization").shape[0])
            if feats[1].ndim == 2:
                feats[1] = feats[0][:, :, ::-1]
        elif why == "both_thresholds":
            args["output_threshold_config"] = {"0.1": "None"}
        else:
            args["output_thresholds"] = None
        r = ctx.call(lambda: unwrap(cli.process)(fc, *feats, **args))
    treelite(False)
    s.event("rejected", why=why, out=out(r))


def drive(ctx):
    k = 5 if ctx.thorough else 1
    warnings.simplefilter("ignore")
    for name, fn, n in (("calibrate", calibrate, 220), ("rejected", rejected, 160)):
        with ctx.session(name) as s:
            for _ in range(n * k):
                fn(ctx, s)
