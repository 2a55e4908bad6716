import numpy as np
from vkit import fx
from vkit import cubes as C
from vkit.main import Failed

from improver.cli.generate_realizations import process as generate_realizations
from improver.ensemble_copula_coupling.ensemble_copula_coupling import (
    ConvertProbabilitiesToPercentiles, EnsembleReordering, RebadgePercentilesAsRealizations,
    ResamplePercentiles)
from improver.ensemble_copula_coupling.utilities import choose_set_of_percentiles
from improver.utilities.indexing_operations import choose

M = 2000000002


def points(arr, axis, scale=1):
    m = np.ma.getmaskarray(arr)
    a = np.moveaxis(np.ma.getdata(arr), axis, -1)
    m = np.moveaxis(m, axis, -1)
    a, m = a.reshape((-1, a.shape[-1])), m.reshape((-1, m.shape[-1]))
    p = np.ma.masked_array(a, mask=m)
    return [fx(p[i], scale) for i in range(p.shape[0])]


def even(n):
    return [100.0 * (i + 1) / (n + 1) for i in range(n)]


def place(arr, axis):
    return np.moveaxis(arr, 0, axis)


def build(data, coord, nt, mask=None, axis=0, spot=False):
    """data: prob dim, (time), y, x.  axis: where the probabilistic dimension goes."""
    arr = np.asarray(data, dtype=np.float32)
    if mask is not None:
        arr = np.ma.masked_array(arr, mask=np.broadcast_to(mask, arr.shape).copy())
    kw = {}
    if nt > 1:
        kw = dict(t=[C.T0 + 3600 * i for i in range(nt)], tdim=1)
    if spot:
        kw["space"] = "spot"
    cube = C.grid(arr, lead=[coord], **kw)
    if axis:
        order = list(range(1, arr.ndim))
        order.insert(axis, 0)
        cube.transpose(order)
    return cube


def reorder(ctx, s, raw, cal, nt=1, mask=None, rawmask=None, axes=(0, 0), seed=None,
            random=False, start=0, step=1, spot=False):
    """raw, cal: arrays prob, (time), y, x."""
    nr, n = raw.shape[0], cal.shape[0]
    numbers = [start + step * i for i in range(nr)]
    pc = build(cal, C.percentiles(even(n)), nt, mask, axes[0], spot)
    rc = build(raw, C.realization(numbers), nt, rawmask, axes[1], spot)
    ref = pc.copy()
    kw = {}
    if seed is not None:
        kw["random_seed"] = seed
    if random:
        kw["random_ordering"] = True
    pc2, rc2 = pc.copy(), rc.copy()
    r = ctx.call(EnsembleReordering(), pc, rc, **kw)
    enc = np.where(np.broadcast_to(mask, cal.shape), M, cal) if mask is not None else cal
    plain = dict(raw=np.moveaxis(raw, 0, -1).reshape((-1, nr)).tolist(),
                 cal=np.moveaxis(enc, 0, -1).reshape((-1, n)).tolist(), rawnumbers=numbers,
                 random=random, seed=seed, nt=nt)
    if isinstance(r, Failed):
        s.event("reorder", out="error", err=r.text, **plain)
        return
    meta = r.name() == ref.name() and not r.coords("percentile") and r.units == ref.units and \
        r.coord_dims("realization") == (0,) and dict(r.attributes) == dict(ref.attributes) and \
        r.coord("realization").dtype == np.int32 and r.dtype == np.float32 and \
        all(r.coords(c.name()) and r.coord(c.name()) == c for c in ref.coords()
            if c.name() != "percentile")
    again = []
    if seed is not None:
        r2 = ctx.call(EnsembleReordering(), pc2, rc2, **kw)
        again = points(r2.data, 0) if not isinstance(r2, Failed) else [[0]]
    s.event("reorder", out="ok", values=points(r.data, 0), meta=bool(meta), again=again,
            has_again=seed is not None,
            numbers=[int(v) for v in r.coord("realization").points], **plain)


def rebadge(ctx, s, rng):
    n = int(rng.randint(1, 7))
    kind = rng.randint(4)
    if kind == 0:
        ps = even(n)
    elif kind == 1 and n > 1:
        ps = [100.0 * i / (n - 1) for i in range(n)]
    elif kind == 2:
        ps = [100.0 * (i + 0.5) / n for i in range(n)]
    else:
        ps = sorted(rng.choice(np.arange(0, 101, 5), n, replace=False).astype(float).tolist())
    data = rng.randint(-20, 50, (n, 2, 2))
    cube = C.grid(data, lead=[C.percentiles(ps)])
    ref = cube.copy()
    given = [] if rng.randint(2) else [int(3 + 2 * i) for i in range(n)]
    args = (np.array(given),) if given else ()
    r = ctx.call(RebadgePercentilesAsRealizations(), cube, *args)
    plain = dict(data=np.moveaxis(data, 0, -1).reshape((-1, n)).tolist(), given=given,
                 ps=fx(np.float32(ps), 1000))
    if isinstance(r, Failed):
        # refusals are judged by the clause, so the event is not an error of its own
        s.event("rebadge", values=[], numbers=[], meta=False, err=r.text, **plain)["out"] = "refused"
        return
    meta = r.coord("realization").units == "1" and r.coord("realization").dtype == np.int32 and \
        not r.coords("percentile") and r.name() == ref.name()
    s.event("rebadge", out="ok", values=points(r.data, 0), meta=bool(meta),
            numbers=[int(v) for v in r.coord("realization").points], **plain)


def command(ctx, s, rng):
    nr = int(rng.randint(2, 6))
    n = int(rng.randint(1, 7)) if rng.randint(2) else nr
    with_raw = bool(rng.rand() < 0.6)
    ny, nx = int(rng.randint(1, 4)), int(rng.randint(2, 4))
    raw = rng.randint(0, 4, (nr, ny, nx))
    kw = {}
    if not with_raw or n != nr:
        kw["realizations_count"] = n
    if rng.randint(2):
        k = int(rng.randint(2, 5))
        ps = sorted(rng.choice(np.arange(5, 100, 5), k, replace=False).tolist())
        cube = C.grid(np.sort(rng.randint(250, 300, (k, ny, nx)), axis=0),
                      lead=[C.percentiles(ps)])
        perc = ResamplePercentiles()(cube.copy(), no_of_percentiles=n)
    else:
        k = int(rng.randint(2, 5))
        t = sorted(rng.choice(np.arange(250, 300), k, replace=False).tolist())
        c = np.sort(rng.rand(k, ny, nx), axis=0)[::-1]
        cube = C.prob(c, t, relative="greater_than")
        perc = ConvertProbabilitiesToPercentiles()(cube.copy(), no_of_percentiles=n)
    if rng.randint(2):
        kw["random_seed"] = int(rng.randint(100))
    rc = C.grid(raw, lead=[C.realization(nr)])
    r = ctx.call(generate_realizations, *((cube, rc) if with_raw else (cube,)), **kw)
    pd = perc.data if perc.coord_dims("percentile") else perc.data[np.newaxis]
    plain = dict(n=n, raw=np.moveaxis(raw, 0, -1).reshape((-1, nr)).tolist() if with_raw else [],
                 perc=points(pd, 0, 1000))
    if isinstance(r, Failed):
        s.event("realizations", out="error", err=r.text, **plain)
        return
    d = r.data if r.coord_dims("realization") else r.data[np.newaxis]
    s.event("realizations", out="ok", values=points(d, 0, 1000),
            meta=bool(r.name() == "air_temperature" and r.units == "K"), **plain)


def drive(ctx):
    rng = ctx.rng
    k = 1 if not ctx.thorough else 25
    for c in ctx.pick(ctx.cases, 60 * k):
        with ctx.session("spec") as s:
            raw = np.array(c["raw"])[:, np.newaxis, np.newaxis] * np.ones((1, 2, 2), dtype=int)
            cal = np.array(c["cal"])[:, np.newaxis, np.newaxis] * np.ones((1, 2, 2), dtype=int)
            reorder(ctx, s, raw, cal)
    for i in range(70 * k):
        nr = int(rng.randint(1, 7))
        n = nr if rng.rand() < 0.5 else int(rng.randint(1, 9))
        if i == 0:
            nr = n = 35          # more members than the 32 that numpy's choose allows
        nt = 1 if rng.rand() < 0.6 else int(rng.randint(2, 4))
        spot = bool(rng.rand() < 0.25)
        sp = (int(rng.randint(1, 4)),) if spot else (int(rng.randint(1, 4)), int(rng.randint(1, 4)))
        shp = ((nt,) if nt > 1 else ()) + sp
        raw = rng.randint(0, [3, 20][rng.randint(2)], (nr,) + shp)
        cal = np.sort(rng.randint(-30, 40, (n,) + shp), axis=0)
        mask = rawmask = None
        if rng.rand() < 0.25:
            mask = rng.rand(*shp) < 0.3
            if not mask.any():
                mask = None
            elif rng.randint(2):
                rawmask = mask
        ax = lambda: int(rng.randint(0, len(shp) + 1)) if rng.rand() < 0.3 else 0  # noqa: E731
        with ctx.session("reorder") as s:
            reorder(ctx, s, raw, cal, nt, mask, rawmask, (ax(), ax()) if mask is None else (0, 0),
                    None if rng.randint(2) else int(rng.randint(50)),
                    bool(rng.rand() < 0.25), int(rng.randint(0, 4)), 1, spot)
    for i in range(40 * k):
        with ctx.session("rebadge") as s:
            rebadge(ctx, s, rng)
    for i in range(30 * k):
        with ctx.session("command") as s:
            command(ctx, s, rng)
    for n in list(range(1, 13)) + [50]:
        for how in ("quantile", "random"):
            with ctx.session("sampling") as s:
                r = ctx.call(choose_set_of_percentiles, n, sampling=how)
                if isinstance(r, Failed):
                    s.event("sampling", out="error", n=n, sampling=how)
                else:
                    s.event("sampling", out="ok", n=n, sampling=how, ps=fx(np.array(r), 1000))
    for i in range(15 * k):
        shp = (int(rng.randint(1, 5)),) + tuple(rng.randint(1, 4, rng.randint(1, 3)).tolist())
        if i == 0:
            shp = (40, 2)
        data = rng.randint(-99, 100, shp)
        index = rng.randint(0, shp[0], shp)
        with ctx.session("choose") as s:
            r = ctx.call(choose, index, data)
            plain = dict(index=np.moveaxis(index, 0, -1).reshape((-1, shp[0])).tolist(),
                         data=np.moveaxis(data, 0, -1).reshape((-1, shp[0])).tolist())
            if isinstance(r, Failed) or r.shape != shp:
                s.event("choose", out="error", **plain)
            else:
                s.event("choose", out="ok", values=points(r, 0), **plain)
    a = np.arange(12).reshape((3, 2, 2))
    m1 = np.array([[True, False], [False, False]])
    m2 = np.array([[False, True], [False, False]])
    vary = np.stack([m1, m2, m1])
    P = lambda mask=None: build(a, C.percentiles(even(3)), 1, mask)  # noqa: E731
    R = lambda mask=None: build(a, C.realization(3), 1, mask)  # noqa: E731
    both = C.grid(a[np.newaxis], lead=[C.realization(1), C.percentiles(even(3))])
    pr = C.prob(a / 20.0, [280.0, 281.0, 282.0])
    bad = {
        "masked_raw_only": lambda: EnsembleReordering()(P(), R(m1)),
        "different_masks": lambda: EnsembleReordering()(P(m1), R(m2)),
        "varying_mask": lambda: EnsembleReordering()(P(vary), R(m1)),
        "varying_raw_mask": lambda: EnsembleReordering()(P(m1), R(vary)),
        "no_percentiles": lambda: EnsembleReordering()(R(), R()),
        "realization_already": lambda: RebadgePercentilesAsRealizations()(both.copy()),
        "unknown_sampling": lambda: choose_set_of_percentiles(3, sampling="x"),
        "choose_shapes": lambda: choose(np.zeros((2, 2), dtype=int), np.zeros((3, 2))),
        "choose_range": lambda: choose(np.full((2, 2), 2), np.zeros((2, 2))),
        "realizations_without_count": lambda: generate_realizations(P()),
        "realizations_of_plain": lambda: generate_realizations(C.grid(a[0]), realizations_count=3),
    }
    for why, f in bad.items():
        with ctx.session("reject") as s:
            r = ctx.call(f)
            s.event("rejected", why=why, out="error" if isinstance(r, Failed) else "ok")
