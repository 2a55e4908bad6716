from fractions import Fraction

import numpy as np
from vkit import rows, shape
from vkit import cubes as C
from vkit.main import Failed

from improver.nbhood.nbhood import (GeneratePercentilesFromANeighbourhood, MetaNeighbourhood,
                                    NeighbourhoodProcessing)

DS = 4
M = 2000000002


def field(data):
    arr = np.array(data, dtype=float)
    mask = arr == M
    v = np.where(mask, 7.5, arr / DS).astype(np.float32)
    return np.ma.masked_array(v, mask=mask) if mask.any() else v


def one(ctx, s, data, method, radii, lead_times=None, hour=4, weighted=False, sum_=False,
        remask=True, mask=None, meta=False, spacing=2000, lead="realization"):
    arr = np.ma.stack([field(d) for d in data]) if len(data) > 1 else field(data[0])
    if not np.ma.is_masked(arr):
        arr = np.ma.getdata(arr)
    lc = []
    if len(data) > 1:
        lc = [C.realization(len(data))] if lead == "realization" else \
            [C.thresholds([280.0 + i for i in range(len(data))])]
    cube = C.grid(arr, "air_temperature", "K", lead=lc, frt=C.T0 - 3600 * hour,
                  dy=float(spacing), dx=float(spacing))
    ref = cube.copy()
    mc = None
    if mask is not None:
        mc = C.grid(np.array(mask), "land_binary_mask", "1", t=None, dtype=np.int8,
                    dy=float(spacing), dx=float(spacing))
    rad = [float(r) for r in radii] if lead_times else float(radii[0])
    if meta:
        p = MetaNeighbourhood("probabilities", [str(r) for r in radii],
                              lead_times=lead_times, neighbourhood_shape=method,
                              weighted_mode=weighted, area_sum=sum_)
        r = ctx.call(p, cube, mc)
    else:
        p = NeighbourhoodProcessing(method, rad, lead_times=lead_times, weighted_mode=weighted,
                                    sum_only=sum_, re_mask=remask)
        r = ctx.call(p, cube, mask_cube=mc)
    plain = dict(data=data, method=method, radii=list(radii), lead_times=lead_times or [],
                 hour=hour, weighted=weighted, sum=sum_, remask=remask, mask=mask or [], ds=DS,
                 spacing=spacing)
    if isinstance(r, Failed):
        s.event("nbhood", out="error", err=r.text, **plain)
        return
    d = r.data if r.ndim == 3 else r.data[np.newaxis]
    same = (r.name() == ref.name() and r.units == ref.units
            and C.attrs_post(ref.attributes, r.attributes)
            and [c.name() for c in r.coords(dim_coords=True)]
            == [c.name() for c in ref.coords(dim_coords=True)]
            and all(r.coords(c.name()) and r.coord(c.name()) == c for c in ref.coords()))
    s.event("nbhood", out="ok", values=rows(d, 100000), dtype=str(r.dtype), meta_same=bool(same),
            **plain)


def leads(ctx, s, data, method, radii, lead_times, hours, weighted=False, pcs=None, real=0):
    """Several lead times at once: each has its own radius."""
    frt = C.T0
    ts = [frt + 3600 * h for h in hours]
    arr = np.ma.stack([np.array(d) / 1.0 if pcs else field(d) for d in data])
    if not np.ma.is_masked(arr):
        arr = np.ma.getdata(arr)
    lc = []
    if real:
        arr = np.ma.stack([arr] * real) if np.ma.isMaskedArray(arr) else np.stack([arr] * real)
        lc = [C.realization(real)]
    cube = C.grid(arr, "air_temperature", "K", lead=lc, frt=frt, t=ts)
    ref = cube.copy()
    rad = [float(r) for r in radii]
    if pcs:
        r = ctx.call(GeneratePercentilesFromANeighbourhood(rad, lead_times=lead_times, percentiles=pcs), cube)
    else:
        r = ctx.call(NeighbourhoodProcessing(method, rad, lead_times=lead_times, weighted_mode=weighted), cube)
    ok = not isinstance(r, Failed)
    same = ok and (r.coord("time") == ref.coord("time") and r.coord("forecast_period") == ref.coord("forecast_period")
                   and (pcs or [c.name() for c in r.coords(dim_coords=True)] == [c.name() for c in ref.coords(dim_coords=True)]))
    for k, h in enumerate(hours):
        plain = dict(data=[data[k]] if not pcs else data[k], radii=list(radii), lead_times=lead_times, hour=h, spacing=2000)
        if pcs:
            plain.update(pc=pcs)
        else:
            plain.update(method=method, weighted=weighted, sum=False, remask=True, mask=[], ds=DS)
        if not ok:
            s.event("percentile" if pcs else "nbhood", out="error", err=r.text, **plain)
            continue
        q = list(r.slices_over("time"))[k]
        q = q[-1] if real else q
        d = q.data if q.ndim == 3 else q.data[np.newaxis]
        if pcs:
            s.event("percentile", out="ok", values=rows(d, 1000), shape=shape(d),
                    pcoord=[int(round(v)) for v in r.coord("percentile").points], dtype=str(r.dtype), **plain)
        else:
            s.event("nbhood", out="ok", values=rows(d, 100000), dtype=str(r.dtype), meta_same=bool(same), **plain)


def pct(ctx, s, data, radius, pcs):
    cube = C.grid(np.array(data) / 1.0, "air_temperature", "K")
    r = ctx.call(GeneratePercentilesFromANeighbourhood(float(radius), percentiles=pcs), cube)
    plain = dict(data=data, radii=[radius], lead_times=[], hour=4, pc=pcs, spacing=2000)
    if isinstance(r, Failed):
        s.event("percentile", out="error", err=r.text, **plain)
        return
    d = r.data if r.ndim == 3 else r.data[np.newaxis]
    s.event("percentile", out="ok", values=rows(d, 1000), shape=shape(d),
            pcoord=[int(round(v)) for v in r.coord("percentile").points], dtype=str(r.dtype),
            **plain)


def drive(ctx):
    rng = ctx.rng
    for c in ctx.pick(ctx.cases, 90 if not ctx.thorough else 2000):
        data = [[v if v == M else v * DS for v in r] for r in c["f"]]
        if all(v == M for r in data for v in r):
            continue
        with ctx.session("spec") as s:
            # a row and a column of plain zeros keep the radius within the domain
            k = c["r"]
            d = [r + [DS] * k for r in data] + [[DS] * (len(data[0]) + k)] * k
            sq = rng.rand() < 0.6
            one(ctx, s, [d], "square" if sq else "circular", [1000 * c["r"]],
                weighted=not sq and bool(rng.randint(2)), spacing=1000,
                sum_=bool(rng.rand() < 0.2))
    for i in range(110 if not ctx.thorough else 2500):
        ny, nx = int(rng.randint(4, 9)), int(rng.randint(4, 9))
        n = [1, 1, 2, 3][rng.randint(4)]
        kind = rng.randint(5)
        if kind == 0:      # nearly all of one extreme
            e = int(rng.randint(2)) * DS
            data = np.full((n, ny, nx), e)
            for _ in range(rng.randint(1, 3)):
                data[rng.randint(n), rng.randint(ny), rng.randint(nx)] = rng.randint(0, DS + 1)
        elif kind == 1:
            data = rng.randint(0, 2, (n, ny, nx)) * DS
        else:
            data = rng.randint(0, DS + 1, (n, ny, nx)) if kind < 4 else rng.randint(-40, 41, (n, ny, nx))
        data = data.astype(int)
        if rng.rand() < 0.4:
            data[rng.rand(n, ny, nx) < 0.35] = M
        for k in range(n):
            if (data[k] == M).all():
                data[k, 0, 0] = DS
        mask = None
        if rng.rand() < 0.35:
            mask = (rng.rand(ny, nx) < 0.6).astype(int)
            mask[ny // 2, nx // 2] = 1
            for k in range(n):
                data[k, ny // 2, nx // 2] = DS
            mask = mask.tolist()
        method = ["square", "circular"][rng.randint(2)]
        half = 0.5 * 2000 * np.hypot(ny - 1, nx - 1)
        lt = None
        hour = int(rng.randint(1, 13))
        if rng.rand() < 0.3:
            lt = [2, 5, 9]
            radii = [int(x) for x in (2300, 2300 + rng.randint(0, 2300), 4200)]
            q = Fraction(int(np.interp(hour, lt, radii) * 3 * 1000), 3000)
            if float(q / 2000) % 1 < 0.001 or float(q / 2000) % 1 > 0.999:
                continue
            if rng.rand() < 0.3:
                radii = radii[::-1]
        else:
            r = rng.randint(1, 4)
            radii = [int(2000 * r + [0, 1100][rng.randint(2)])]
        if max(radii) > half:
            continue
        meta = bool(rng.rand() < 0.3)
        with ctx.session("random") as s:
            one(ctx, s, data.tolist(), method, radii, lt, hour,
                weighted=method == "circular" and bool(rng.randint(2)),
                sum_=bool(rng.rand() < 0.25), remask=True if meta else bool(rng.rand() < 0.6),
                mask=mask, meta=meta, lead=["realization", "thr"][rng.randint(2)])
    for i in range(14 if not ctx.thorough else 200):
        r = int(rng.randint(1, 3))
        ny, nx = int(rng.randint(2 * r, 7)) + 1, int(rng.randint(2 * r, 7)) + 1
        data = (rng.randint(-20, 20, (ny, nx)) * 4).tolist()
        pcs = sorted(rng.choice([0, 10, 25, 50, 66, 90, 100], rng.randint(1, 4),
                                replace=False).tolist())
        if 2000 * r <= 1000 * np.hypot(ny - 1, nx - 1):
            with ctx.session("percentiles") as s:
                pct(ctx, s, data, 2000 * r, pcs)
    for i in range(8 if not ctx.thorough else 100):
        ny, nx = int(rng.randint(5, 8)), int(rng.randint(5, 8))
        hours = sorted(int(h) for h in rng.choice([1, 3, 4, 6, 8, 11], rng.randint(2, 4), replace=False))
        data = rng.randint(0, DS + 1, (len(hours), ny, nx))
        p = i % 4 == 3
        if p:
            data = rng.randint(-20, 20, (len(hours), ny, nx)) * 4
        elif rng.rand() < 0.4:
            data[rng.rand(*data.shape) < 0.3] = M
            data[:, 0, 0] = DS
        method = ["square", "circular"][rng.randint(2)]
        radii = [2300, 2300 + int(rng.randint(400, 2300)), 4900][::1 if rng.rand() < 0.7 else -1]
        q = [float(np.interp(h, [2, 5, 9], radii)) / 2000 % 1 for h in hours]
        if any(v < 0.001 or v > 0.999 for v in q):
            continue
        with ctx.session("lead times") as s:
            leads(ctx, s, data.tolist(), method, radii, [2, 5, 9], hours, weighted=method == "circular" and bool(rng.randint(2)),
                  pcs=[0, 25, 50, 90][:int(rng.randint(2, 5))] if p else None, real=0 if p else int(rng.choice([0, 2])))
    d = np.ones((4, 5))
    nan = d.copy()
    nan[1, 1] = np.nan
    ok = C.grid(d)
    bad = {
        "nan": lambda: NeighbourhoodProcessing("square", 2000.0)(C.grid(nan)),
        "zero_cells": lambda: NeighbourhoodProcessing("square", 1999.0)(ok.copy()),
        "beyond_domain": lambda: NeighbourhoodProcessing("square", 6000.0)(ok.copy()),
        "unknown_method": lambda: NeighbourhoodProcessing("hexagonal", 2000.0),
        "weighted_square": lambda: NeighbourhoodProcessing("square", 2000.0, weighted_mode=True),
        "radii_lead_times_mismatch": lambda: NeighbourhoodProcessing(
            "square", [2000.0, 4000.0], lead_times=[1, 2, 3]),
        "uneven_grid": lambda: NeighbourhoodProcessing("square", 2000.0)(
            C.grid(d, x=[0, 2000, 4000, 7000, 9000])),
        "unequal_spacing": lambda: NeighbourhoodProcessing("square", 2000.0)(
            C.grid(d, dy=4000.0)),
        "masked_percentiles": lambda: GeneratePercentilesFromANeighbourhood(2000.0)(
            C.grid(np.ma.masked_array(d, mask=np.eye(4, 5, dtype=bool)))),
        "many_radii_no_lead_times": lambda: MetaNeighbourhood("probabilities", ["1", "2"]),
        "weighted_percentiles": lambda: MetaNeighbourhood("percentiles", ["2000"],
                                                          weighted_mode=True),
        "complex_circular": lambda: MetaNeighbourhood("probabilities", ["2000"],
                                                      neighbourhood_shape="circular",
                                                      degrees_as_complex=True),
    }
    for why, f in bad.items():
        with ctx.session("reject") as s:
            r = ctx.call(f)
            s.event("rejected", why=why, out="error" if isinstance(r, Failed) else "ok")
