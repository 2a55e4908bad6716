"""Visibility combined with the chance of cloud at the ground."""
import warnings

import numpy as np
from iris.cube import CubeList
from vkit import cubes as C
from vkit.main import Failed

from improver.cli import visibility_combine_cloud_base as cli
from improver.visibility.visibility_combine_cloud_base import VisibilityCombineCloudBase

MASKED, NAN = 2000000002, 2000000001
CLOUD = "cloud_base_height_assuming_only_consider_cloud_area_fraction_greater_than_4p5_oktas"
VIS = "visibility_in_air"


def unwrap(fn):
    fn = getattr(fn, "__wrapped__", fn)
    return getattr(fn, "__wrapped__", fn)


def out(r):
    return "error" if isinstance(r, Failed) else "ok"


def whole(a, scale):
    m = np.ma.getmaskarray(a)
    v = np.asarray(np.ma.getdata(a), dtype=float)
    return [MASKED if mm else NAN if np.isnan(x) else int(np.clip(np.rint(x * scale), -1.9e9, 1.9e9)) for x, mm in zip(v.flat, m.flat)]


def snap(cubes):
    return [c.copy() for c in cubes if c is not None]


def same(before, after):
    after = [c for c in after if c is not None]
    return all(a.metadata == b.metadata and a.coords() == b.coords() and a.shape == b.shape
               and np.array_equal(np.ma.getmaskarray(a.data), np.ma.getmaskarray(b.data))
               and np.array_equal(np.ma.filled(a.data, 0), np.ma.filled(b.data, 0), equal_nan=True) for a, b in zip(before, after))



def setting(ctx, case):
    """A visibility cube and a cloud base cube on the same points."""
    rng = ctx.rng
    nt = int(rng.choice([1, 2, 3, 4]))
    t = sorted({case["t"], *[int(q) for q in rng.choice([0, 50, 100, 500, 1000, 2000, 3000, 5000, 6000, 10000, 20000, 40000], nt)]})
    if rng.rand() < 0.15:
        t = [case["t"]]
    space = ["xy", "ll", "spot"][rng.randint(3)]
    dims = [int(rng.randint(1, 5))] if space == "spot" else [int(rng.randint(1, 4)), int(rng.randint(1, 4))]
    n = int(np.prod(dims))
    pool = [case["v"], case["c"], 0, 10000, *[int(q) for q in rng.randint(0, 10001, 6)]]
    v = [[int(q) for q in rng.choice(pool, n)] for _ in t]
    c = [int(q) for q in rng.choice(pool, n)]
    vabove, cabove = bool(rng.rand() < 0.5), bool(rng.rand() < 0.3)
    km = rng.rand() < 0.3
    tb = rng.rand() < 0.3
    kw = dict(space=space, tb=[C.T0 - 3600, C.T0] if tb else None)
    vc = C.prob(np.array(v).reshape([len(t)] + dims) / 10000, [q / (1000 if km else 1) for q in t], VIS, "km" if km else "m", relative=["greater_than", "greater_than_or_equal_to"][rng.randint(2)] if vabove else ["less_than", "less_than_or_equal_to"][rng.randint(2)], **kw)
    cc = C.prob(np.array(c).reshape([1] + dims) / 10000, [0.0], CLOUD, "ft", relative="greater_than" if cabove else "less_than_or_equal_to", **kw)[0]
    if rng.rand() < 0.3 and space != "spot":
        vc.transpose([0, 2, 1])
        cc.transpose([1, 0])
    if rng.rand() < 0.3 and len(t) > 1:
        vc.transpose([1, 0] if space == "spot" else [1, 2, 0])
    return vc, cc, dict(t=t, v=v, c=c, vabove=vabove, cabove=cabove), space


def lined(c, space):
    th = [q for q in c.coords() if q.var_name == "threshold"][0]
    td = list(c.coord_dims(th))
    sp = [c.coord_dims("spot_index")[0]] if space == "spot" else [c.coord_dims(c.coord(axis=a))[0] for a in "yx"]
    return [whole(q, 10000) for q in np.transpose(c.data, td + sp).reshape((th.shape[0], -1))]


def combine(ctx, s):
    rng = ctx.rng
    case = ctx.cases[rng.randint(len(ctx.cases))]
    vc, cc, rec, space = setting(ctx, case)
    full, begin = (case["full"], case["start"]) if rng.rand() < 0.7 else (int(rng.randint(100, 20000)), int(rng.randint(0, 10001)))
    before = snap([vc, cc])
    pair = [vc, cc] if rng.rand() < 0.5 else [cc, vc]
    rec.update(full=full, start=begin)
    how = rng.randint(3)
    if how == 0:
        r = ctx.call(lambda: unwrap(cli.process)(*pair, initial_scaling_value=begin / 10000, first_unscaled_threshold=float(full)))
    elif how == 1:
        r = ctx.call(lambda: VisibilityCombineCloudBase(begin / 10000, float(full))(CubeList(pair)))
    else:
        r = ctx.call(lambda: VisibilityCombineCloudBase(initial_scaling_value=begin / 10000, first_unscaled_threshold=full).process(pair))
    if isinstance(r, Failed):
        s.event("combine", out="error", err=r.text[:200], **rec)
        return
    o = before[0]
    th, was = [[q for q in x.coords() if q.var_name == "threshold" and q.name() == VIS] for x in (r, o)]
    meta = r.name() == o.name() and r.units == "1" and r.dtype == np.float32 and len(th) == 1 and np.array_equal(th[0].points, was[0].points) and th[0].units == was[0].units and \
        th[0].attributes == was[0].attributes and all(r.coords(q.name()) and r.coord(q.name()) == q for q in o.coords() if q.name() != VIS) and {q.name() for q in r.coords()} == {q.name() for q in o.coords()} and \
        {k: w for k, w in r.attributes.items() if k != "title"} == {k: w for k, w in o.attributes.items() if k != "title"} and r.attributes["title"].endswith(o.attributes["title"])
    s.event("combine", got=lined(r, space), meta=bool(meta), kept=bool(same(before, [vc, cc])), **rec)


def rejected(ctx, s):
    rng = ctx.rng
    vc, cc, _, space = setting(ctx, ctx.cases[rng.randint(len(ctx.cases))])
    why = ["one_cube", "three_cubes", "two_visibilities", "two_cloud_bases", "plain_visibility", "plain_cloud_base"][rng.randint(6)]
    plain = cc.copy()
    for q in list(plain.coords()):
        if q.var_name == "threshold":
            plain.remove_coord(q)
    plain.rename(VIS if why == "plain_visibility" else "cloud_base_height")
    cubes = {"one_cube": [vc], "three_cubes": [vc, cc, cc], "two_visibilities": [vc, vc.copy()], "two_cloud_bases": [cc, cc.copy()], "plain_visibility": [plain, cc], "plain_cloud_base": [vc, plain]}[why]
    s.event("rejected", why=why, out=out(ctx.call(lambda: VisibilityCombineCloudBase(0.6, 5000.0)(cubes))))


def drive(ctx):
    k = 6 if ctx.thorough else 1
    warnings.simplefilter("ignore")
    for name, fn, n in (("combine", combine, 220), ("rejected", rejected, 40)):
        with ctx.session(name) as s:
            for _ in range(n * k):
                fn(ctx, s)
