import numpy as np
from vkit import fx
from vkit import cubes as C
from vkit.main import Failed

from improver.utilities.extract_from_table import ExtractValueFromTable
from improver.utilities.flatten import flatten
from improver.utilities.indexing_operations import choose
from improver.utilities.interpolation import InterpolateUsingDifference, interpolate_missing_data
from improver.utilities.mask import apply_mask
from improver.utilities.mathematical_operations import Integration, fast_linear_fit
from improver.utilities.neighbourhood_tools import boxsum, pad_and_roll, rolling_window
from improver.utilities.rescale import apply_double_scaling, rescale
from improver.utilities.textural import FieldTexture

NONE = 999999
S = 1000


def out(r):
    return "error" if isinstance(r, Failed) else "ok"


def rows(a, k=1):
    return [fx(r, k) for r in a]


def ints(a):
    return np.asarray(a).astype(int).tolist()


def pair(rng, lo, hi):
    return [int(x) for x in rng.randint(lo, hi, 2)]


def rescale_session(ctx):
    rng = ctx.rng
    v = rng.randint(-20, 21, int(rng.randint(2, 7)))
    d = pair(rng, -9, 10) if rng.rand() < 0.7 else []
    s = pair(rng, -5, 11)
    if rng.rand() < 0.85:
        if d and d[0] == d[1]:
            d[1] += 3
        if s[0] == s[1]:
            s[1] -= 4
    if rng.rand() < 0.08:
        d = [0, 0]
    clip = bool(rng.rand() < 0.5)
    a = v.astype(np.float32)
    if rng.rand() < 0.3 and len(v) % 2 == 0:
        a = a.reshape((2, -1))
    keep = a.copy()
    r = ctx.call(lambda: rescale(a, data_range=d or None, scale_range=s, clip=clip))
    with ctx.session("rescale") as ses:
        ses.event("rescale", v=v.tolist(), d=d, s=s, clip=clip, out=out(r), same=bool(np.array_equal(a, keep)),
                  got=[] if isinstance(r, Failed) else fx(r, S))
        w = rng.randint(-3, 12, len(v))
        dv = sorted(int(x) for x in rng.choice(np.arange(-15, 16), 3, replace=False))
        sv = [int(x) for x in rng.choice(np.arange(-2, 12), 3, replace=False)]
        how = "min" if rng.rand() < 0.5 else "max"
        dc = C.grid(v.reshape((1, -1)).astype(np.float32))
        wc = C.grid(w.reshape((1, -1)).astype(np.float32))
        fn = np.minimum if how == "min" else np.maximum
        r = ctx.call(lambda: apply_double_scaling(dc, wc, dv, sv, combine_function=fn) if how == "max" or rng.rand() < 0.5
                     else apply_double_scaling(dc, wc, dv, sv))
        ses.event("double", v=v.tolist(), w=w.tolist(), d=dv, s=sv, how=how, out=out(r),
                  got=[] if isinstance(r, Failed) else fx(r, S))


def profile_session(ctx, case):
    """A profile on levels along with others, in any place among the dimensions."""
    rng = ctx.rng
    c, v = list(case["c"]), list(case["v"])
    n = len(c)
    lead = bool(rng.rand() < 0.5)
    nr = int(rng.randint(1, 3)) if lead else 1
    prof = rng.randint(-3, 6, (nr, 2, 2, n))
    prof[0, 0, 0] = v
    if rng.rand() < 0.4:
        c, prof = c[::-1], prof[..., ::-1]
    up = bool(rng.rand() < 0.5)
    lo, hi = int(rng.randint(-2, max(c) + 1)), int(rng.randint(-2, max(c) + 3))
    if rng.rand() < 0.7:
        lo, hi = min(lo, hi), max(lo, hi)
    start, end = (lo, hi) if up else (hi, lo)
    start = start if rng.rand() < 0.5 else None
    end = end if rng.rand() < 0.5 else None
    first = C.DimCoord(np.array(c, dtype=np.float32), "height", units="m")
    data = np.moveaxis(prof, -1, 1 if rng.rand() < 0.5 and lead else 0).astype(np.float32)
    leads = [first]
    if lead:
        leads = [first, C.realization(nr)] if data.shape[:2] == (n, nr) and data.shape[0] == n and \
            np.array_equal(data, np.moveaxis(prof, -1, 0)) else [C.realization(nr), first]
    else:
        data = data[:, 0]
    cube = C.grid(data, lead=leads, name="wet_bulb_temperature", units="K")
    if rng.rand() < 0.25:
        # levels last
        order = [d.name() for d in cube.coords(dim_coords=True) if d.name() != "height"] + ["height"]
        cube.transpose([cube.coord_dims(k)[0] for k in order])
    before = (cube.data.copy(), cube.coord("height").points.copy())
    plug = Integration("height", start_point=start, end_point=end, positive_integration=up)
    r = ctx.call(lambda: plug(cube))
    with ctx.session("integrate") as s:
        base = dict(c=c, v=prof.reshape((-1, n)).tolist(), up=up, to=NONE if end is None else end, lead=lead)
        base["from"] = NONE if start is None else start
        same = bool(np.array_equal(before[0], cube.data) and np.array_equal(before[1], cube.coord("height").points))
        if isinstance(r, Failed):
            s.event("integrate", out="error", err=r.text, same=same, got=[], points=[], bounds=[], meta=True, **base)
        else:
            names = [d.name() for d in cube.coords(dim_coords=True)]
            meta = r.name() == "wet_bulb_temperature_integral" and r.units == "K m" and r.dtype == np.float32 and \
                [d.name() for d in r.coords(dim_coords=True)] == names and \
                r.coord("time") == cube.coord("time") and all(r.attributes[k] == C.ATTRS[k] for k in ("source", "institution"))
            g = np.moveaxis(r.data, r.coord_dims("height")[0], -1)
            if lead:
                pass
            g = g.reshape((-1, r.coord("height").shape[0]))
            s.event("integrate", out="ok", got=rows(g, 2), points=fx(r.coord("height").points),
                    bounds=rows(r.coord("height").bounds), meta=bool(meta), same=same, **base)
        # a line through the profile
        kind = str(rng.choice(["plain", "nan", "masked"]))
        x, y = np.array([c] * 3, dtype=np.float64), np.array([v, prof[0, 0, 1], prof[0, 1, 0]], dtype=np.float64)
        gaps = np.zeros(x.shape, dtype=bool)
        if kind != "plain" and n > 2:
            gaps[np.arange(3), rng.randint(0, n, 3)] = True
        rx, ry = np.where(gaps, np.nan, x), np.where(gaps, np.nan, y)
        if kind == "nan":
            ax, ay = rx, ry
        elif kind == "masked":
            ax, ay = np.ma.masked_array(x, gaps), np.ma.masked_array(y, gaps)
        else:
            ax, ay = x, y
        keep, alone, axis = bool(rng.rand() < 0.5), bool(rng.rand() < 0.4), -1
        if rng.rand() < 0.4:
            ax, ay, axis = ax.T, ay.T, 0
        whole = rng.rand() < 0.2 and kind == "plain"
        if whole:
            axis, rx, ry = None, rx.reshape((1, -1)), ry.reshape((1, -1))
            if keep:
                keep = False
            ax, ay = ax.ravel(), ay.ravel()
        single = rng.rand() < 0.3 and not whole
        if single:  # one profile alone keeps its other axis
            rx, ry = rx[:1], ry[:1]
            ax, ay = (ax[:1], ay[:1]) if axis == -1 else (ax[:, :1], ay[:, :1])
        m = 1 if single else 3
        r = ctx.call(lambda: fast_linear_fit(ax, ay, axis=axis, keepdims=keep, gradient_only=alone, with_nan=kind == "nan"))
        if isinstance(r, Failed):
            s.event("fit", out="error", err=r.text, x=rows(rx), y=rows(ry), kind=kind, alone=alone)
        else:
            g, i = (r, r) if alone else r
            want = () if whole else ((m, 1) if axis == -1 else (1, m)) if keep else (m,)
            s.event("fit", out="ok", x=rows(rx), y=rows(ry), kind=kind, alone=alone, axis=str(axis), keep=keep,
                    slope=fx(np.ma.asarray(g).reshape(-1), S), intercept=fx(np.ma.asarray(i).reshape(-1), S), shape=np.shape(g) == want and np.shape(i) == want)
        if n > 2:
            moved = np.roll(np.eye(n, dtype=bool)[:1], int(rng.randint(1, n)), axis=1)
            hole = np.eye(n, dtype=bool)[:1]
            lx, ly = np.array([c], dtype=float), np.array([v], dtype=float)
            s.event("rejected", why="masks_that_differ", out=out(ctx.call(lambda: fast_linear_fit(np.ma.masked_array(lx, hole), np.ma.masked_array(ly, moved), axis=-1))))
            s.event("rejected", why="gaps_that_differ", out=out(ctx.call(lambda: fast_linear_fit(np.where(hole, np.nan, lx), np.where(moved, np.nan, ly), axis=-1, with_nan=True))))


def window_session(ctx, case):
    rng = ctx.rng
    ny, nx = int(rng.randint(3, 7)), int(rng.randint(3, 7))
    nk = int(rng.randint(1, 4))
    v = rng.randint(-5, 10, (nk, ny, nx))
    f = np.array(case["f"])
    v[0, :3, :3] = f[:3, :3]
    h, w = (int(x) for x in rng.randint(0, 3, 2))
    h, w = min(h, (ny - 2) // 2), min(w, (nx - 2) // 2)
    if rng.rand() < 0.5:
        w = h = min(h, w)
    how = str(rng.choice(["constant", "edge", "symmetric", "reflect"]))
    a = v.astype(rng.choice([np.float32, np.int32, np.float64]))
    if rng.rand() < 0.3:
        a = np.ascontiguousarray(a.swapaxes(1, 2)).swapaxes(1, 2)
    keep = a.copy()
    size = 2 * h + 1 if h == w and rng.rand() < 0.5 else (2 * h + 1, 2 * w + 1)
    flat = nk == 1 and rng.rand() < 0.5
    arg = a[0] if flat else a
    kw = {"constant_values": 0} if how == "constant" else {}
    b = ctx.call(lambda: boxsum(arg, size, mode=how, **kw))
    i = ctx.call(lambda: boxsum(arg, size))
    i2 = ctx.call(lambda: boxsum(arg.cumsum(-2).cumsum(-1), size, cumsum=False))
    p = ctx.call(lambda: pad_and_roll(arg, (2 * h + 1, 2 * w + 1), mode=how, **kw))
    with ctx.session("windows") as s:
        bad = [x for x in (b, i, i2, p) if isinstance(x, Failed)]
        if bad:
            s.event("rejected", why="windows_completes", out="ok", err=bad[0].text)
            return
        b, i, p = (x[None] if flat else x for x in (b, i, p))
        p = np.asarray(p).reshape(p.shape[:3] + (-1,))
        s.event("windows", v=v.tolist(), h=h, w=w, how=how, box=[rows(x) for x in b],
                inner=[rows(x) for x in i], win=[[rows(y) for y in x] for x in p],
                cum=bool(np.array_equal(np.asarray(i2), i[0] if flat else i)), same=bool(np.array_equal(a, keep)))
        wy, wx = int(rng.randint(1, ny + 1)), int(rng.randint(1, nx + 1))
        r = rolling_window(a[0], (wy, wx))
        s.event("rolling", v=v[0].tolist(), wy=wy, wx=wx, got=[rows(x.reshape((x.shape[0], -1))) for x in r],
                ro=not r.flags.writeable)
        s.event("rejected", why="even_box", out=out(ctx.call(lambda: boxsum(a, (2 * h + 2, 2 * w + 1), mode="edge"))))
        s.event("rejected", why="fractional_box", out=out(ctx.call(lambda: boxsum(a, 3.0, mode="edge"))))
        s.event("rejected", why="window_beyond_array", out=out(ctx.call(lambda: rolling_window(a, (ny + 1, 1)))))
        s.event("rejected", why="window_of_more_dimensions", out=out(ctx.call(lambda: rolling_window(a[0, 0], (1, 1)))))
        n, m = int(rng.randint(1, 5)), int(rng.randint(1, 5))
        arr = rng.randint(0, 100, (n, m))
        ix = rng.randint(0, n + (1 if rng.rand() < 0.2 else 0), (n, m))
        shape = (n, m) if rng.rand() < 0.5 or m % 2 else (n, 2, m // 2)
        r = ctx.call(lambda: choose(ix.reshape(shape), arr.reshape(shape)))
        s.event("choose", a=arr.tolist(), ix=ix.tolist(), out=out(r),
                got=[] if isinstance(r, Failed) else ints(r.reshape((n, m))))
        s.event("rejected", why="choice_of_another_shape", out=out(ctx.call(lambda: choose(ix[:, :1], np.zeros((n, 2))))))


def texture_session(ctx, case):
    rng = ctx.rng
    f0 = np.array(case["f"])
    ny, nx = int(rng.randint(4, 7)), int(rng.randint(5, 7))
    nk = int(rng.randint(1, 4))
    lead = bool(rng.rand() < 0.6)
    nk = nk if lead else 1
    f = (rng.rand(nk, ny, nx) < rng.choice([0.3, 0.6, 0.9])).astype(int)
    f[0, :3, :f0.shape[1]] = f0
    if rng.rand() < 0.15:
        f[0] = 1
    ts = ([0.5, 1.0, 2.0] if rng.rand() < 0.6 else [1.0, 1.005, 1.009])[:int(rng.randint(1, 4))]
    k = int(rng.randint(len(ts)))
    other = (rng.rand(len(ts), nk, ny, nx) < 0.5).astype(int)
    other[k] = f
    d = other if lead else other[:, 0]
    step = 2000.0
    r = int(rng.choice([1, 1, 2]))
    thr = int(rng.choice([113, 257, 379, 487, 613, 809]))
    cube = C.prob(d, ts, name="cloud_area_fraction", units="1", lead=[C.realization(nk)] if lead else (), dy=step, dx=step)
    keep = cube.data.copy()
    res = ctx.call(lambda: FieldTexture(r * step + 10.0, thr / 1000.0, ts[k])(cube))
    with ctx.session("texture") as s:
        if isinstance(res, Failed):
            s.event("texture", out="error", err=res.text, lead=lead, f=f.tolist())
            return
        meta = res.name() == "probability_of_texture_of_cloud_area_fraction_above_threshold" and res.units == "1" \
            and res.shape == (ny, nx) and res.coord(var_name="threshold").points.tolist() == [np.float32(thr / 1000.0)] \
            and res.coord(var_name="threshold").name() == "texture_of_cloud_area_fraction" and not res.coords("realization") \
            and res.dtype == np.float32
        s.event("texture", out="ok", f=f.tolist(), r=r, thr=thr, got=rows(np.asarray(res.data), S), meta=bool(meta),
                same=bool(np.array_equal(keep, cube.data)))
        cube.data[0] = 0.5
        s.event("rejected", why="not_binary", out=out(ctx.call(lambda: FieldTexture(r * step, 0.3, ts[k])(cube))))
        cube.data[0] = 1
        s.event("rejected", why="threshold_absent", out=out(ctx.call(lambda: FieldTexture(r * step, 0.3, 7.0)(cube))))


def mask_session(ctx, case):
    rng = ctx.rng
    nk = int(rng.randint(1, 4))
    lead = bool(rng.rand() < 0.5)
    f = np.array(case["f"])
    ny, nx = f.shape
    m = np.stack([f] + [(rng.rand(ny, nx) < 0.5).astype(int) for _ in range(nk - 1)]) if lead else f
    invert = bool(rng.rand() < 0.5)
    kw = dict(lead=[C.realization(nk)]) if lead else {}
    mc = C.grid(m.astype(np.int32 if rng.rand() < 0.5 else np.float32), name="land_binary_mask", units="1", dtype=np.int32, **kw)
    turn = rng.rand() < 0.5
    if turn:
        mc.transpose()
    keep = mc.data.copy()
    with ctx.session("mask") as s:
        # the same mask for one field after another
        for k in range(2):
            v = rng.randint(-9, 9, m.shape).astype(np.float32)
            had = rng.rand(*m.shape) < 0.2 if rng.rand() < 0.4 else None
            cube = C.grid(v if had is None else np.ma.masked_array(v, had), **kw)
            rec = cube.data.copy()
            args = (cube, mc) if rng.rand() < 0.5 else (mc, cube)
            r = ctx.call(lambda: apply_mask(*args, mask_name="land_binary_mask", invert_mask=invert))
            rw = (lambda a: rows(a.reshape((-1, nx))))
            s.event("mask", v=rw(rec), mask=ints(m.reshape((-1, nx))), invert=invert, out=out(r), lead=lead, turn=bool(turn),
                    err=r.text if isinstance(r, Failed) else "",
                    got=[] if isinstance(r, Failed) else rw(r.data), same=bool(mc.shape == keep.shape and np.array_equal(mc.data, keep)))
        small = C.grid(np.zeros((ny, nx)), space="ll")
        s.event("rejected", why="mask_elsewhere", out=out(ctx.call(lambda: apply_mask(small, mc, mask_name="land_binary_mask"))))
        s.event("rejected", why="one_cube_to_mask", out=out(ctx.call(lambda: apply_mask(mc, mask_name="land_binary_mask"))))
        s.event("rejected", why="mask_not_named", out=out(ctx.call(lambda: apply_mask(small, mc, mask_name="mask"))))


def table_session(ctx):
    rng = ctx.rng
    nr, nc = int(rng.randint(1, 5)), int(rng.randint(1, 5))
    rl = sorted(int(x) for x in rng.choice(np.arange(-3, 16), nr, replace=False))
    cl = sorted(int(x) for x in rng.choice(np.arange(-3, 16), nc, replace=False))
    whole = rng.rand() < 0.5
    t = rng.randint(0, 50, (nr, nc))
    table = {"data": {}, "metadata": {"units": "m s-1", "title": "a table"}}
    lab = (lambda x: str(x)) if rng.rand() < 0.6 else (lambda x: "%.1f" % x)
    for j in rng.permutation(nc):
        table["data"][lab(cl[j])] = {lab(rl[i]): (int(t[i, j]) if whole else float(t[i, j])) for i in
                                    (rng.permutation(nr) if j == 0 else range(nr))}
    shape = (2, 3) if rng.rand() < 0.5 else (2, 2, 3)

    def vals(labels):
        a = rng.randint(-50, 180, shape) / 10.0
        hit = rng.rand(*shape) < 0.4
        a = np.where(hit, rng.choice(labels, shape), a)
        # equal to a label but for rounding
        near = rng.choice([0, 0, 0, -0.006, 0.006], shape)
        return np.round((a + near) * 1000), (a + near + rng.choice([0, 0, 3e-6, -3e-6], shape)).astype(np.float32 if rng.rand() < 0.5 else np.float64)
    ri, rv = vals(rl)
    ci, cv = vals(cl)
    if rng.rand() < 0.3:
        hole = rng.rand(*shape) < 0.2
        if rng.rand() < 0.5:
            rv = np.where(hole, np.nan, rv)
            ri = np.where(hole, np.nan, ri)
        else:
            cv = np.where(hole, np.nan, cv)
            ci = np.where(hole, np.nan, ci)
    lead = [C.realization(2)] if len(shape) == 3 else []
    rc = C.grid(rv, name="wind_speed", units="m s-1", lead=lead, dtype=rv.dtype)
    cc = C.grid(cv, name="orography", units="m", lead=lead, dtype=cv.dtype)
    if rng.rand() < 0.4:
        cc.transpose()
        ci, ri = ci.T, ri.T
    new = "wind_gust" if rng.rand() < 0.5 else None
    args = (rc, cc) if rng.rand() < 0.5 else (cc, rc)
    r = ctx.call(lambda: ExtractValueFromTable("wind_speed", new_name=new)(*args, table=table))
    with ctx.session("table") as s:
        base = dict(t=t.tolist(), rl=[1000 * x for x in rl], cl=[1000 * x for x in cl], r=fx(ri), c=fx(ci))
        if isinstance(r, Failed):
            s.event("table", out="error", err=r.text, **base)
        else:
            meta = r.name() == (new or "wind_speed") and r.units == "m s-1" and r.shape == cc.shape and r.dtype != np.float64 \
                and [x.name() for x in r.coords(dim_coords=True)] == [x.name() for x in cc.coords(dim_coords=True)]
            s.event("table", out="ok", got=fx(np.asarray(r.data)), meta=bool(meta), **base)
        s.event("rejected", why="one_cube_for_table", out=out(ctx.call(lambda: ExtractValueFromTable("wind_speed")(rc, table=table))))


def nested(rng, depth):
    if depth == 0 or rng.rand() < 0.3:
        return int(rng.randint(0, 9))
    return [nested(rng, depth - 1) for _ in range(int(rng.randint(0, 4)))]


def tree(t):
    return {"leaf": False, "items": [tree(x) for x in t]} if isinstance(t, list) else {"leaf": True, "v": t}


def variety(rng, t):
    if isinstance(t, list):
        u = [variety(rng, x) for x in t]
        k = rng.randint(3)
        return u if k == 0 else tuple(u) if k == 1 else (x for x in u)
    return t


def fill_session(ctx, case):
    rng = ctx.rng
    f = np.array(case["f"])
    ny, nx = f.shape
    if rng.rand() < 0.5:
        g = (rng.rand(4, 4) < 0.45).astype(int)
        g[:ny, :min(4, nx)] = f[:, :4]
        f = g
        ny, nx = f.shape
    v = rng.randint(0, 30, (ny, nx))
    if rng.rand() < 0.4:
        v = 4 + 3 * np.arange(ny)[:, None] - 2 * np.arange(nx)[None] + 0 * v
    data = np.where(f == 1, v, np.nan).astype(np.float32 if rng.rand() < 0.5 else np.float64)
    valid = (rng.rand(ny, nx) < 0.85) if rng.rand() < 0.3 else None
    method = "nearest" if rng.rand() < 0.3 else "linear"
    lim = rng.randint(0, 30, (ny, nx)) if rng.rand() < 0.35 else None
    mx = bool(rng.rand() < 0.5)
    rec = rows(data)
    kw = {}
    if valid is not None:
        kw["valid_points"] = valid.copy()
    if lim is not None:
        kw["limit"] = lim.astype(data.dtype)
    r = ctx.call(lambda: interpolate_missing_data(data, method=method, limit_as_maximum=mx, **kw))
    with ctx.session("fill") as s:
        s.event("fill", v=rec, valid=ints(valid) if valid is not None else np.ones((ny, nx), int).tolist(), method=method,
                limit=lim.tolist() if lim is not None else [], max=mx, out=out(r), err=r.text if isinstance(r, Failed) else "",
                got=[] if isinstance(r, Failed) else rows(r, S))
        t = nested(rng, 3)
        if isinstance(t, list):
            s.event("flat", t=tree(t), got=list(flatten(variety(rng, t))))
    # against a reference
    if not f.any() or f.all():
        return
    nk = int(rng.randint(1, 3))
    lead = [C.realization(nk)] if nk > 1 or rng.rand() < 0.4 else []
    have = np.stack([f] + [np.where(rng.rand(ny, nx) < 0.15, 1 - f, f) for _ in range(nk - 1)])
    if not have.any(axis=(1, 2)).all():
        return
    vs = rng.randint(0, 30, (nk, ny, nx))
    ref = rng.randint(0, 40, (nk, ny, nx))
    if rng.rand() < 0.3:
        ref = vs + 7
    cd = np.ma.masked_array(vs, have == 0)
    km = rng.rand() < 0.3
    cube = C.grid(cd if lead else cd[0], name="cloud_base", units="m", lead=lead)
    rc = C.grid(ref if lead else ref[0], name="snow_level", units="m", lead=lead)
    if km:
        rc.convert_units("km")
    if rng.rand() < 0.3 and lead:
        rc.transpose([1, 2, 0])
    lc = None
    if lim is not None:
        lc = C.grid(lim, name="orography", units="m")
        if rng.rand() < 0.3:
            lc.convert_units("km")
    rec, c0 = [rows(x) for x in cd], cube.copy()
    r = ctx.call(lambda: InterpolateUsingDifference(limit_as_maximum=mx)(cube, rc, limit=lc))
    with ctx.session("difference") as s:
        base = dict(v=rec, ref=ref.tolist(), limit=lim.tolist() if lim is not None else [], max=mx, km=bool(km), nk=nk)
        if isinstance(r, Failed):
            s.event("difference", out="error", err=r.text, **base)
        else:
            g = r.data if lead and nk > 1 else r.data[None] if r.ndim == 2 else r.data
            meta = r.name() == "cloud_base" and r.units == "m" and r.coord("time") == cube.coord("time") and \
                r.dtype == np.float32 and np.array_equal(np.ma.getmaskarray(cube.data), np.ma.getmaskarray(c0.data))
            s.event("difference", out="ok", got=[rows(x, S) for x in g], meta=bool(meta), **base)
        rc.data = rc.data.copy()
        rc.data.flat[0] = np.nan
        s.event("rejected", why="reference_incomplete", out=out(ctx.call(lambda: InterpolateUsingDifference()(cube, rc))))
        rc.data.flat[0] = 1
        rc.units = "K"
        s.event("rejected", why="reference_in_other_units", out=out(ctx.call(lambda: InterpolateUsingDifference()(cube, rc))))


def drive(ctx):
    n = 900 if ctx.thorough else 55
    prof = [c for c in ctx.cases if "c" in c]
    fields = [c for c in ctx.cases if "f" in c]
    for case in ctx.pick(prof, n):
        profile_session(ctx, case)
    for case in ctx.pick(fields, n):
        window_session(ctx, case)
        texture_session(ctx, case)
        mask_session(ctx, case)
        fill_session(ctx, case)
    for _ in range(n):
        rescale_session(ctx)
        table_session(ctx)
