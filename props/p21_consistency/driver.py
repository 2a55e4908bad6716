import warnings

import numpy as np
from iris.cube import CubeList
from vkit import fx
from vkit import cubes as C
from vkit.main import Failed

from improver.cli import enforce_consistent_forecasts as ecli
from improver.cli import normalise_to_reference as ncli
from improver.utilities.common_input_handle import as_cube, as_cubelist
from improver.utilities.cube_manipulation import enforce_coordinate_ordering
from improver.utilities.forecast_reference_enforcement import EnforceConsistentForecasts, normalise_to_reference, split_cubes_by_name


def unwrap(fn):
    fn = getattr(fn, "__wrapped__", fn)
    return getattr(fn, "__wrapped__", fn)


def out(r):
    return "error" if isinstance(r, Failed) else "ok"


def raw(vals, k):
    """Values as numbers with NaN and masks."""
    v = np.array([np.nan if x == "NaN" else 77 if x == "Masked" else x for x in vals], dtype=float) / k
    m = np.array([x == "Masked" for x in vals])
    return np.ma.masked_array(v, m) if m.any() else v


SENT = {2000000001: "NaN", 2000000002: "Masked"}


def flat(cube, order, k):
    q = cube.copy()
    enforce_coordinate_ordering(q, order)
    return fx(q.data.astype(float) if not np.ma.isMaskedArray(q.data) else np.ma.masked_array(q.data.data.astype(float), np.ma.getmaskarray(q.data)), k)


def reshaped(vals, k, shape):
    a = raw(vals, k)
    return a.reshape(shape)


def make(vals, k, shape, name, units="m s-1", lead=(), **kw):
    a = reshaped(vals, k, shape)
    if np.ma.isMaskedArray(a):
        a = np.ma.masked_array(a.data.astype(np.float32), a.mask)
    return C.grid(a, name=name, units=units, lead=lead, **kw)


def enc(v):
    return [fx(np.ma.masked) if x == "Masked" else x for x in v]


def tosent(vals):
    """Case values in the vocabulary of the specification."""
    return [int(fx(raw([x], 1), 1)[0]) if x in ("NaN", "Masked") else int(x) for x in vals]


FPOOL = [-9, -3, 0, 1, 4, 5, 9, 20]


def enforce_session(ctx, case):
    rng = ctx.rng
    if case is not None:
        bs = [dict(b) for b in case["bs"]]
    else:
        bs = [dict(a=int(rng.choice([-2, 0, 0, 6])), m=int(rng.choice([2, 4, 4, 6])), op=str(rng.choice([">=", "<="]))) for _ in range(rng.randint(1, 3))]
        if len(bs) == 2 and rng.rand() < 0.9:
            bs[1]["op"] = "<=" if bs[0]["op"] == ">=" else ">="
        if rng.rand() < 0.05:
            bs[-1]["op"] = str(rng.choice([">", "==", "=>"]))
    sh = [(2, 2), (2, 3), (3, 3), (2, 2, 2), (2, 3, 3)][int(rng.randint(5))]
    n = int(np.prod(sh))
    missing = [] if rng.rand() < 0.5 else ["NaN"] if rng.rand() < 0.5 else ["Masked"]
    f = [rng.choice(FPOOL) for _ in range(n)]
    r = [rng.choice([-2, 0, 2, 4, 8]) for _ in range(n)]
    if rng.rand() < 0.6 or case is not None:
        r = [abs(x) + 2 for x in r]
    f, r = [list(map(int, x)) for x in (f, r)]
    for v in (f, r):
        for i in range(n):
            if missing and rng.rand() < 0.2:
                v[i] = missing[0]
    if case is not None:
        spec = lambda x: x if abs(x) < 10 ** 6 else "NaN" if x == NAN else "Masked"
        i = int(rng.randint(n))
        f[i], r[i] = spec(case["f"][0]), spec(case["r"][0])
    lead = (C.realization(sh[0]),) if len(sh) == 3 else ()
    fc = make(f, 8, sh, "wind_speed_of_gust", lead=lead)
    rc = make(r, 8, sh, "wind_speed", lead=lead)
    order = [c.name() for c in fc.coords(dim_coords=True)]
    turned = rng.rand() < 0.3
    if turned:
        o = list(range(len(sh)))
        rng.shuffle(o)
        rc.transpose(o)
        if rng.rand() < 0.5:
            rng.shuffle(o)
            fc.transpose(o)
    if rng.rand() < 0.3:
        rc.convert_units("km h-1")
    limit = int(rng.choice([-1, 1, 17, 65]))  # sixty-fourths
    one = len(bs) == 1 and rng.rand() < 0.8
    ops = [b["op"] for b in bs]
    add, mul = [b["a"] / 8 for b in bs], [b["m"] / 4 for b in bs]
    via = rng.rand() < 0.3
    f0 = fc.copy()
    rorder = [c.name() for c in rc.coords(dim_coords=True)]
    if via:
        fn = unwrap(ecli.process)
        pair = [fc, rc]
        rng.shuffle(pair)
        cubes = [tuple(pair), (pair[0], [pair[1]]), ([[pair[0]]], pair[1])][int(rng.randint(3))]
        call = lambda: fn(*cubes, ref_name="wind_speed", additive_amount=add, multiplicative_amount=mul, comparison_operator=ops,
                          diff_for_warning=None if limit < 0 else limit / 64)
    else:
        if one:
            add, mul, op = add[0], mul[0], ops[0]
        else:
            op = ops
        call = lambda: EnforceConsistentForecasts(add, mul, op, None if limit < 0 else limit / 64)(fc, rc)
    if len(bs) == 1 and not one and not via:
        return
    with ctx.session("enforce") as s:
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter("always")
            res = ctx.call(call)
        warned = any("nconsisten" in str(x.message) for x in w)
        base = dict(f=[tosent([x])[0] for x in f], r=[tosent([x])[0] for x in r], bs=bs, limit=limit, warned=bool(warned), via=bool(via))
        if isinstance(res, Failed):
            if turned and sh[-1] != sh[-2]:
                s.event("rearranged", out="error", got=[], want=[])
            elif not (turned and "order" in res.text):
                s.event("enforce", out="error", err=res.text, **base)
        else:
            meta = res.name() == "wind_speed_of_gust" and res.units == "m s-1" and res.dtype == np.float32 and C.attrs_post(f0.attributes, res.attributes) and \
                all(res.coord(c) == f0.coord(c) for c in order + ["time", "forecast_period"]) and \
                [c.name() for c in res.coords(dim_coords=True)] == [c.name() for c in f0.coords(dim_coords=True)]
            kept = same(fc, f0) and [c.name() for c in rc.coords(dim_coords=True)] == rorder
            s.event("enforce", out="ok", got=flat(res, order, 32), meta=bool(meta), same=bool(kept), **base)
        rejects(ctx, s, fc)


def same(a, b):
    x, y = a.data, b.data
    return np.array_equal(np.ma.getmaskarray(x), np.ma.getmaskarray(y)) and np.array_equal(np.nan_to_num(np.ma.filled(x, 0), nan=99), np.nan_to_num(np.ma.filled(y, 0), nan=99)) \
        and a.metadata == b.metadata


def rejects(ctx, s, fc):
    f = C.grid([[1, 2], [3, 4]], name="wind_speed_of_gust", units="m s-1")
    r = C.grid([[1, 2], [3, 4]], name="wind_speed", units="m s-1")
    t = C.grid([[1, 2], [3, 4]], name="air_temperature", units="K")
    E = EnforceConsistentForecasts
    go = lambda *a, **k: ctx.call(lambda: E(*a, **k)(f.copy(), r.copy()))
    s.event("rejected", why="inconvertible_units", out=out(ctx.call(lambda: E()(f.copy(), t.copy()))))
    s.event("rejected", why="mixed_lists", out=out(go([0.0, 1.0], 1.0, ">=")))
    s.event("rejected", why="mixed_lists", out=out(go([0.0, 1.0], [1.0, 1.0], ">=")))
    s.event("rejected", why="mixed_lists", out=out(go(0.0, [1.0, 1.0], [">=", "<="])))
    s.event("rejected", why="same_operator_twice", out=out(go([0.0, 1.0], [1.0, 1.0], [">=", ">="])))
    p = C.prob(np.full((2, 2, 2), 0.5), [1, 2], "wind_speed", "m s-1")
    s.event("rejected", why="amount_for_probability", out=out(ctx.call(lambda: E(0.1, 1.0)(p.copy(), p.copy()))))
    s.event("rejected", why="amount_for_probability", out=out(ctx.call(lambda: E(0.0, 1.1)(p.copy(), p.copy()))))
    fn = unwrap(ecli.process)
    s.event("rejected", why="three_forecasts", out=out(ctx.call(lambda: fn(f, r, t, ref_name="wind_speed"))))
    s.event("rejected", why="one_forecast", out=out(ctx.call(lambda: fn(r, ref_name="wind_speed"))))
    s.event("rejected", why="reference_absent", out=out(ctx.call(lambda: fn(f, t, ref_name="wind_speed"))))
    s.event("rejected", why="lengths_differ", out=out(ctx.call(lambda: fn(f, r, ref_name="wind_speed", additive_amount=[0.0, 1.0]))))
    s.event("rejected", why="three_bounds", out=out(ctx.call(lambda: fn(f, r, ref_name="wind_speed", additive_amount=[0.0] * 3, multiplicative_amount=[1.0] * 3, comparison_operator=[">=", "<=", ">="]))))
    # probabilities, plainly, and by name through the command
    rng = ctx.rng
    a, b = rng.randint(0, 9, (2, 2, 3)), rng.randint(0, 9, (2, 2, 3))
    q = [C.prob(x / 8, [1, 2], nm, "m s-1") for x, nm in ((a, "wind_speed_of_gust"), (b, "wind_speed"))]
    res = ctx.call(lambda: fn(*q[::-1], ref_name=q[1].name()))
    s.event("enforce_cli", out=out(res), want=np.maximum(a, b).ravel().tolist(), got=[] if isinstance(res, Failed) else fx(res.data, 8))


def normalise_session(ctx):
    rng = ctx.rng
    n = int(rng.choice([1, 2, 2, 3, 3, 4], p=[0.04, 0.3, 0.2, 0.2, 0.16, 0.1]))
    sh = [(2, 2), (2, 3), (3, 3), (2, 2, 2), (2, 3, 2)][int(rng.randint(5))]
    k = int(np.prod(sh))
    p = rng.choice([0, 0, 1, 2, 3, 5, 8], (n, k))
    r = rng.choice([0, 1, 2, 6, 9, -4] if rng.rand() < 0.3 else [0, 1, 2, 6, 9], k)
    if rng.rand() < 0.6:
        z = p.sum(axis=0) == 0
        if rng.rand() < 0.6:
            r[z] = 0
        else:
            p[0][z] = 1
    miss = "" if rng.rand() < 0.6 else str(rng.choice(["NaN", "Masked"]))
    pv, rv = [list(map(int, x)) for x in p], list(map(int, r))
    if miss:
        for v in pv + [rv]:
            for i in range(k):
                if rng.rand() < 0.15:
                    v[i] = miss
    lead = (C.realization(sh[0]),) if len(sh) == 3 else ()
    names = ["rainfall_rate", "lwe_snowfall_rate", "lwe_sleetfall_rate", "lwe_hailfall_rate"]
    cs = CubeList([make(v, 8, sh, names[i], units="mm h-1", lead=lead, attrs=dict(C.ATTRS, number=str(i))) for i, v in enumerate(pv)])
    rc = make(rv, 8, sh, "lwe_precipitation_rate", units="mm h-1", lead=lead)
    order = [c.name() for c in rc.coords(dim_coords=True)]
    turned = rng.rand() < 0.3
    if turned:
        for c in list(cs) + [rc]:
            if rng.rand() < 0.5:
                o = list(range(len(sh)))
                rng.shuffle(o)
                c.transpose(o)
    keep = [c.copy() for c in cs] + [rc.copy()]
    ignore = bool(rng.rand() < 0.5)
    res = ctx.call(lambda: normalise_to_reference(cs, rc, ignore))
    with ctx.session("normalise") as s:
        base = dict(p=[tosent(v) for v in pv], r=tosent(rv), ignore=ignore)
        if isinstance(res, Failed):
            if turned and "dimension coord" in res.text:
                s.event("rearranged", out="error", got=[], want=[])
            else:
                s.event("normalise", out="error", err=res.text, **base)
        else:
            meta = all(x.name() == y.name() and x.units == y.units and x.attributes == y.attributes and x.dtype == np.float32 and
                       all(x.coord(c) == y.coord(c) for c in order + ["time"]) for x, y in zip(res, keep))
            s.event("normalise", out="ok", got=[flat(x, order, 8000) for x in res], meta=bool(meta), same=all(same(x, y) for x, y in zip(list(cs) + [rc], keep)), **base)
        one = [make([1] * 4, 8, (2, 2), nm) for nm in names[:2]]
        s.event("rejected", why="another_number_of_dimensions", out=out(ctx.call(lambda: normalise_to_reference(CubeList(one), make([1] * 8, 8, (2, 2, 2), "lwe_precipitation_rate", lead=(C.realization(2),))))))
        s.event("rejected", why="another_grid", out=out(ctx.call(lambda: normalise_to_reference(CubeList(one), make([1] * 4, 8, (2, 2), "lwe_precipitation_rate", x0=777.0)))))
        s.event("rejected", why="another_grid", out=out(ctx.call(lambda: normalise_to_reference(CubeList(one[:1] + [make([1] * 4, 8, (2, 2), "lwe_snowfall_rate", y0=777.0)]), make([1] * 4, 8, (2, 2), "lwe_precipitation_rate")))))
        cli_event(ctx, s, names)


def group(rng, items):
    """Cubes grouped at random into nested lists, and the tree this makes."""
    tops = []
    i = 0
    while i < len(items):
        k = int(rng.randint(1, 3))
        tops.append(items[i:i + k])
        i += k
    args = []
    for g in tops:
        if len(g) == 1 and rng.rand() < 0.5:
            args.append(g[0])
        elif rng.rand() < 0.5:
            args.append(CubeList(g))
        else:
            args.append(tuple([g[0], g[1:]]))
    return args


def cli_event(ctx, s, names):
    rng = ctx.rng
    pool = names + ["lwe_precipitation_rate"]
    n = int(rng.randint(2, 6))
    nm = [str(x) for x in rng.choice(pool, n)] if rng.rand() < 0.4 else [str(x) for x in rng.permutation(pool)[:n]]
    if "lwe_precipitation_rate" not in nm and rng.rand() < 0.8:
        nm[int(rng.randint(n))] = "lwe_precipitation_rate"
    vals = [int(x) for x in rng.randint(1, 9, n)]
    ret = str(rng.choice(nm))
    cs = [make([v] * 4, 8, (2, 2), x, units="mm h-1") for v, x in zip(vals, nm)]
    fn = unwrap(ncli.process)
    res = ctx.call(lambda: fn(*group(rng, cs), reference_name="lwe_precipitation_rate", return_name=ret))
    s.event("normalise_cli", names=nm, vals=vals, ref="lwe_precipitation_rate", ret=ret, out=out(res), name_got="" if isinstance(res, Failed) else res.name(),
            got=0 if isinstance(res, Failed) else fx(res.data, 8000)[0])


def tree(rng, depth=0):
    if depth == 3 or rng.rand() < 0.4:
        return dict(leaf="junk" if rng.rand() < 0.03 else "c%d" % rng.randint(9))
    return dict(sub=[tree(rng, depth + 1) for _ in range(int(rng.randint(0, 4)))])


def build(rng, t):
    if "leaf" in t:
        return "text" if t["leaf"] == "junk" and rng.rand() < 0.5 else 5 if t["leaf"] == "junk" else C.grid(np.zeros((2, 2)), name=t["leaf"])
    k = [build(rng, x) for x in t["sub"]]
    kind = int(rng.randint(4))
    if kind == 0 and all(hasattr(x, "add_aux_coord") for x in k):
        return CubeList(k)
    return tuple(k) if kind == 1 else (x for x in k) if kind == 2 else k


def flatten_session(ctx):
    rng = ctx.rng
    with ctx.session("flatten") as s:
        for _ in range(6):
            t = tree(rng)
            if "leaf" in t:
                t = dict(sub=[t])
            r = ctx.call(lambda: as_cubelist(*[build(rng, x) for x in t["sub"]]))
            s.event("flatten", tree=t, out=out(r), got=[] if isinstance(r, Failed) else [c.name() for c in r])
        n = int(rng.randint(1, 5))
        order = [int(i) for i in rng.permutation(n)]
        kind = int(rng.randint(4))
        vals = [int(v) for v in rng.randint(0, 9, n)]
        cs = [C.grid(np.full((2, 2), vals[i]), t=C.T0 + 3600 * i, frt=C.T0 - 7200) for i in range(n)]
        fits = True
        if kind == 1 and n > 1:
            cs[-1].rename("other")
            fits = False
        if kind == 2 and n > 1:
            cs[-1] = cs[0].copy()
            fits = False
        r = ctx.call(lambda: as_cube(*group(rng, [cs[i] for i in order])))
        s.event("single", fits=fits, vals=vals, out=out(r), got=[] if isinstance(r, Failed) else fx(r.data.reshape((-1, 4))[:, 0], 1))
        # split by name
        nm = [str(x) for x in rng.choice(["a", "b", "c", "ab"], 5)]
        cs = [C.grid(np.full((2, 2), i), name=x) for i, x in enumerate(nm)]
        want = [None, "a", ["a", "c"], ["d"], "ab", []][int(rng.randint(6))]
        r = ctx.call(lambda: split_cubes_by_name(CubeList(cs), want))
        sel = [i for i, x in enumerate(nm) if want is None or x == want or (isinstance(want, list) and x in want)]
        s.event("enforce_cli", out=out(r), got=[] if isinstance(r, Failed) else [[int(c.data[0, 0]) for c in x] for x in r],
                want=[sel, [i for i in range(5) if i not in sel]])


NAN = fx(np.array([np.nan]), 1)[0]


def drive(ctx):
    n = 900 if ctx.thorough else 50
    for case in ctx.pick([c for c in ctx.cases if "bs" in c], n):
        enforce_session(ctx, case)
    for _ in range(n):
        enforce_session(ctx, None)
        normalise_session(ctx)
        flatten_session(ctx)
