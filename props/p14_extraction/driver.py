import numpy as np
from vkit import fx
from vkit import cubes as C
from vkit.main import Failed

from improver.utilities.cube_extraction import ExtractLevel, ExtractSubCube, extract_subcube
from improver.utilities.extract_from_table import ExtractValueFromTable

PA = [-20, -10, 0, 10, 25]
PB = [1, 2, 4]


def same(a, b):
    return a == b and C.describe(a) == C.describe(b) and np.array_equal(a.data, b.data) and \
        all(x == y and x.dtype == y.dtype and x.units == y.units
            for x, y in zip(a.coords(), b.coords()))


def num(v, sc):
    return "%g" % (v / sc) if sc != 1 else "%d" % v


def text(c, name, sc, rng):
    v = [num(x, sc) for x in c["vals"]]
    if c["kind"] == "eq":
        out = v[0]
        if rng.rand() < 0.2:
            out = "[%s]" % out
    elif c["kind"] == "list":
        out = "[%s]" % ", ".join(v)
    else:
        out = "%s:%s" % tuple(v)
        if c["step"] > 1:
            out += ":%d" % c["step"]
        if rng.randint(2):
            out = "[%s]" % out
    eq = "=" if rng.randint(2) else " = "
    return name + eq + out


def extract(ctx, s, rng, cs, pa=PA, lon=None):
    ny, nx = 2, 2
    kind = ["height", "threshold", "latitude"][rng.randint(3)] if lon is None else "threshold"
    kw, space = {}, "xy"
    if lon is not None:
        space, ny, nx = "ll", 3, len(lon["pts"])
        kw = dict(y=[-10.0, 0.0, 10.0], x=np.array(lon["pts"]) / 10.0)
    pts = np.array(pa) / 10.0
    shp = (len(pa), len(PB), ny, nx)
    data = np.arange(np.prod(shp)).reshape(shp)
    if kind == "latitude":
        data = np.moveaxis(data, 0, 2).reshape((len(PB), ny * 1, len(pa), nx)) if False else \
            np.arange(len(PB) * len(pa) * nx).reshape((len(PB), len(pa), nx))
        cube = C.grid(data, lead=[C.realization(PB)], space="ll", y=pts, x=[0.0, 1.0])
        aname = "latitude"
    elif kind == "height":
        cube = C.grid(data, lead=[C.DimCoord(pts.astype(np.float32), "height", units="m"),
                                  C.realization(PB)], space=space, **kw)
        aname = "height"
    else:
        cube = C.prob(data, pts, name="lwe_thing", units="m s-1", lead=[C.realization(PB)],
                      space=space, **kw)
        aname = "lwe_thing"
    if rng.rand() < 0.2 and lon is None:
        order = rng.permutation(cube.ndim)
        cube.transpose(order)
    adim = cube.coord_dims(aname)[0]
    cons = [text(c, aname if c["coord"] == "a" else "realization", 10 if c["coord"] == "a" else 1,
                 rng) for c in cs]
    dims = [dict(name=aname, pts=list(pa), cs=[c for c in cs if c["coord"] == "a"], lon=False),
            dict(name="realization", pts=PB, cs=[c for c in cs if c["coord"] == "b"], lon=False)]
    if lon is not None:
        step = lon["step"]
        cons.append("longitude=[%g:%g%s]" % (lon["lo"] / 10, lon["hi"] / 10,
                                             ":%d" % step if step > 1 else ""))
        dims.append(dict(name="longitude", pts=lon["pts"], lon=True, lo=lon["lo"], hi=lon["hi"],
                         step=step, cs=[]))
    units, back = None, True
    scale = 10
    simple = all(c["kind"] != "range" for c in cs)
    if kind == "threshold" and simple and lon is None and rng.rand() < 0.5:
        # the same wishes in other units
        units = ["mm h-1" if c["coord"] == "a" else None for c in cs]
        if units and "mm h-1" in units:
            cons = [text(dict(c, vals=[v * 3600000 for v in c["vals"]]), aname, 10, rng)
                    if c["coord"] == "a" else k for c, k in zip(cs, cons)]
            cons = [k for k in cons]
            back = bool(rng.randint(2))
            units = [u if rng.randint(2) or u else "None" for u in units]
        else:
            units = None
    keep = cube.copy()
    via = ["function", "plugin"][rng.randint(2)]
    ignore = bool(rng.randint(2))
    if via == "plugin":
        r = ctx.call(ExtractSubCube(cons, units=units, use_original_units=back,
                                    ignore_failure=ignore), cube)
    else:
        r = ctx.call(extract_subcube, cube, cons, units, back)
    ev = dict(dims=dims, via=via, ignore=ignore, cons=[str(c) for c in cons],
              units=[str(u) for u in units or []], same=same(cube, keep))
    if isinstance(r, Failed):
        s.event("extract", out="error", err=r.text, **ev)
        return
    if r is None:
        s.event("extract", out="none", **ev)
        return
    none_wanted = r is cube or (ignore and via == "plugin" and same(r, keep) and
                                any(c["kind"] != "range" or True for c in cs))
    if ignore and via == "plugin" and same(r, keep) and empty(dims):
        s.event("extract", out="same", **ev)
        return
    got, index = [], []
    conv = 1.0 if back or units is None else 1.0 / 3600000
    for d in dims:
        p = np.atleast_1d(r.coord(d["name"]).points).astype(float)
        if d["name"] == aname:
            p = p * conv
        sc = 1 if d["name"] == "realization" else 10
        got.append([int(round(float(v) * sc)) for v in p])
    values = True
    ref = keep.data
    # every value returned is the one at its coordinates
    want = [slice(None)] * keep.ndim
    try:
        for d, g in zip(dims, got):
            dim = keep.coord_dims(d["name"])[0]
            sel = [[i for i, q in enumerate(d["pts"]) if (q - v) % (3600 if d["lon"] else 10 ** 9)
                    == 0][0] for v in g]
            ref = np.take(ref, sel, axis=dim)
    except IndexError:
        values = False
    values = values and np.array_equal(ref.ravel(), r.data.ravel())
    a = r.coord(aname)
    k = keep.coord(aname)
    meta = r.name() == keep.name() and r.units == keep.units and r.attributes == keep.attributes \
        and r.dtype == keep.dtype and a.dtype == k.dtype and \
        str(a.units) == (str(k.units) if back or units is None else "mm h-1") and \
        a.attributes == k.attributes and r.coord("time") == keep.coord("time") and \
        (units is None or not back or np.allclose(
            a.points, [v / 10.0 for v in got[0]], rtol=1e-6))
    if lon is not None:
        c = r.coord("longitude")
        meta = meta and str(c.dtype) == "float32" and c.coord_system == \
            keep.coord("longitude").coord_system
    s.event("extract", out="ok", got=got, values=bool(values), meta=bool(meta), **ev)


def empty(dims):
    for d in dims:
        if d["lon"]:
            continue
        n = 0
        for p in d["pts"]:
            ok = True
            for c in d["cs"]:
                if c["kind"] == "range":
                    ok = ok and min(c["vals"]) <= p <= max(c["vals"])
                else:
                    ok = ok and p in c["vals"]
            n += ok
        if not n:
            return True
    return False


def longitudes(rng):
    step = int(rng.choice([10, 15, 30, 60]))
    n = int(rng.randint(3, 360 // step + 1))
    start = int(rng.choice([0, -180, 5, 170]))
    pts = [10 * (start + i * step) for i in range(n)]
    if n * step < 360 and rng.randint(2):
        pts = pts[:max(3, n // 2)]
    while True:
        lo = 10 * int(rng.randint(-200, 360))
        hi = lo + 10 * int(rng.randint(0, 300))
        if rng.randint(3) == 0:
            lo = pts[rng.randint(len(pts))] + 3600 * int(rng.randint(-1, 2))
            hi = lo + 10 * step * int(rng.randint(1, 4))
        if any((p - lo) % 3600 <= hi - lo for p in pts) and lo + 3600 > hi:
            break
    return dict(pts=pts, lo=lo, hi=hi, step=int(rng.choice([1, 1, 2, 3])))


def random_points(rng):
    n = int(rng.randint(3, 7))
    return sorted(rng.choice(np.arange(-60, 120), n, replace=False).tolist())


def random_constraints(rng, pts):
    r = rng.randint(4)
    pick = lambda: int(pts[rng.randint(len(pts))]) if rng.rand() < 0.8 else int(rng.randint(-60, 120))
    if r == 0:
        a = dict(coord="a", kind="eq", vals=[pick()], step=1)
    elif r == 1:
        a = dict(coord="a", kind="list", vals=[pick(), pick()], step=1)
    else:
        a = dict(coord="a", kind="range", vals=[pick(), pick()], step=int(rng.choice([1, 1, 2, 3])))
    out = [a]
    if rng.randint(2):
        out.append(dict(coord="b", kind="eq", vals=[int(rng.randint(1, 5))], step=1))
    elif rng.randint(2):
        out.append(dict(coord="b", kind="range", vals=[int(rng.randint(0, 3)), int(rng.randint(2, 6))],
                        step=int(rng.choice([1, 2, 3]))))
    if rng.randint(2):
        out.reverse()
    return out


def sites(ctx, s, rng):
    n = int(rng.randint(2, 6))
    ids = ["%05d" % i for i in sorted(rng.choice([2, 3002, 3005, 8, 9, 77, 30021, 300, 13010], n,
                                                 replace=False))]
    ids = [i for i in ids]
    cube = C.grid(np.arange(2 * n).reshape((2, n)), lead=[C.realization(2)], space="spot", ids=ids)
    # only ids that read as no number: others are matched as numbers
    lead0 = [i for i in ids if i.startswith("0")]
    if not lead0:
        return
    k = int(rng.randint(1, len(lead0) + 1))
    wanted = sorted(rng.choice(lead0, k, replace=False).tolist())
    val = "'%s'" % wanted[0] if rng.randint(2) else wanted[0]
    if len(wanted) > 1:
        val = "[%s]" % ", ".join("'%s'" % w for w in wanted)
    r = ctx.call(extract_subcube, cube, ["wmo_id=%s" % val])
    if isinstance(r, Failed) or r is None:
        s.event("sites", out="error", err=str(r), val=val)
        return
    got = [str(x) for x in r.coord("wmo_id").points]
    ref = cube.data[:, [ids.index(g) for g in got]]
    s.event("sites", out="ok", ids=ids, wanted=wanted, got=got,
            values=bool(np.array_equal(ref.ravel(), r.data.ravel())))


def level(ctx, s, rng):
    M = 2000000002
    name = ["pressure", "height"][rng.randint(2)]
    n = int(rng.randint(2, 8))
    z = np.sort(rng.choice(np.arange(1, 100), n, replace=False))
    zs = 1000 if name == "pressure" else 100
    z = z[::-1] * zs if name == "pressure" else z * zs
    nr = int(rng.choice([0, 2]))
    ny, nx = int(rng.randint(1, 3)), int(rng.randint(2, 4))
    m = max(nr, 1) * ny * nx
    cols = np.sort(np.array([rng.choice(np.arange(200, 330), n, replace=False)
                             for _ in range(m)]), axis=1)[:, ::-1] * 100
    rising = bool(rng.rand() < 0.3)          # upwards from the surface
    if rising:
        cols = cols[:, ::-1]
    last = bool(rng.rand() < 0.4)            # levels ordered towards the surface
    if last:
        z, cols = z[::-1], cols[:, ::-1]
    along = rising != last                   # values increase along the axis
    corr = bool(along == (z[-1] > z[0]))     # ... and with the coordinate
    miss = np.zeros(cols.shape, bool)
    if rng.randint(2):
        miss = rng.rand(*cols.shape) < 0.3
        miss[miss.all(axis=1), 0] = False
    t = int(rng.randint(195, 335)) * 100 + int(rng.choice([0, 0, 50]))
    if rng.randint(4) == 0:
        t = int(cols[rng.randint(m)][rng.randint(n)])
    elif miss.any() and rng.rand() < 0.8:    # just beyond the last value there is
        col = int(rng.choice(np.where(miss.any(axis=1) & ~miss.all(axis=1))[0])) if (miss.any(axis=1) & ~miss.all(axis=1)).any() else 0
        there = np.where(~miss[col])[0]
        t = int(cols[col][there[[0, -1][rng.randint(2)]]]) + int(rng.randint(-110, 111)) if len(there) else t
    arr = np.moveaxis(cols.reshape((max(nr, 1), ny, nx, n)), 3, 1) / 100.0
    mk = np.moveaxis(miss.reshape((max(nr, 1), ny, nx, n)), 3, 1)
    how = rng.randint(3)
    if miss.any():
        arr = np.where(mk, [np.nan, np.inf, -99.0][how], arr)
        if how == 2:
            arr = np.ma.masked_array(arr, mask=mk)
    zc = C.DimCoord(z.astype(np.float32), units="Pa" if name == "pressure" else "m",
                    **{"long_name" if name == "pressure" else "standard_name": name})
    lead = ([C.realization(nr)] if nr else []) + [zc]
    digit = int(rng.choice([2, 1, 0, 0])) if rng.rand() < 0.75 else None
    attrs = dict(C.ATTRS)
    if digit is not None:
        attrs["least_significant_digit"] = digit
    cube = C.grid(arr if nr else arr[0], lead=lead, name="temperature_on_levels", attrs=attrs)
    want = C.describe(cube)
    r = ctx.call(ExtractLevel(positive_correlation=corr, value_of_level=t / 100.0),
                 cube)
    inc = (1 if along else -1) * 10 ** (2 - (2 if digit is None else digit))
    if isinstance(r, Failed):
        s.event("level", out="error", err=r.text)
        return
    meta = r.units == zc.units and C.describe(r)["dims"] == [d for d in want["dims"] if d != name] \
        and not r.coords(name) and r.name() == (
            "pressure_of_atmosphere_at_" if name == "pressure" else "height_at_") + \
        "%sK" % (t / 100.0) and r.attributes == attrs
    s.event("level", out="ok", cols=np.where(miss, M, cols), inc=inc, z=[int(x) for x in z // zs], t=t, surface_last=last, rising=rising,
            got=fx(r.data / zs, 100), tol=2, meta=bool(meta))


def table(ctx, s, rng):
    nr, nc = int(rng.randint(1, 5)), int(rng.randint(1, 5))
    rows = rng.choice(np.arange(-10, 40), nr, replace=False)
    cols = rng.choice(np.arange(-10, 40), nc, replace=False)
    t = rng.randint(0, 100, (nr, nc))
    frac = rng.randint(2)
    tab = {"data": {str(int(c)): {str(int(r_)): float(t[i, j]) if frac else int(t[i, j])
                                  for i, r_ in enumerate(rows)} for j, c in enumerate(cols)},
           "metadata": {"units": "m"}}
    ny, nx = int(rng.randint(1, 4)), int(rng.randint(2, 4))
    n = ny * nx
    pick = lambda lab: np.where(rng.rand(n) < 0.4, rng.choice(lab, n), rng.randint(-20, 50, n)) * 2 + \
        (rng.rand(n) < 0.3)
    r, c = pick(rows), pick(cols)
    rn, cn = r / 2.0, c / 2.0
    nan = rng.rand(n) < 0.1 * rng.randint(2)
    rn = np.where(nan, np.nan, rn)
    eps = np.where(rng.rand(n) < 0.2, -1e-6, 0.0)
    lead = [C.realization(2)] if rng.randint(2) else []
    rep = 2 if lead else 1
    shp = (2,) * bool(lead) + (ny, nx)
    big = lambda a: np.tile(a, rep).reshape(shp)
    rc = C.grid(big(rn + eps), name="row_thing", units="K", lead=lead)
    cc = C.grid(big(cn), name="column_thing", units="m s-1", lead=lead)
    want = C.describe(rc)
    if lead and rng.randint(2):
        rc.transpose([1, 2, 0])
    new = "looked_up" if rng.randint(2) else None
    cubes = [rc, cc] if rng.randint(2) else [cc, rc]
    res = ctx.call(ExtractValueFromTable("row_thing", new_name=new), *cubes, table=tab)
    if isinstance(res, Failed):
        s.event("table", out="error", err=res.text)
        return
    ro, co = np.argsort(rows), np.argsort(cols)
    d = C.describe(res)
    s.event("table", out="ok", t=t[np.ix_(ro, co)], rows=rows[ro] * 2, cols=cols[co] * 2,
            r=np.where(np.tile(nan, rep), 2000000001, np.tile(r, rep)), c=np.tile(c, rep),
            got=fx(res.data), meta=bool(
                res.name() == (new or "row_thing") and str(res.units) == "m" and
                d["dims"] == want["dims"] and res.attributes == rc.attributes))


def drive(ctx):
    rng = ctx.rng
    for c in ctx.pick(ctx.cases, 2000 if ctx.thorough else 250):
        with ctx.session("extract") as s:
            extract(ctx, s, rng, c["cs"])
    n = 250 if ctx.thorough else 40
    for _ in range(n):
        with ctx.session("random") as s:
            pts = random_points(rng)
            extract(ctx, s, rng, random_constraints(rng, pts), pts)
        with ctx.session("longitude") as s:
            lon = longitudes(rng)
            cs = [dict(coord="a", kind="eq", vals=[[10, 7][rng.randint(2)]], step=1)] \
                if rng.randint(2) else []
            if rng.rand() < 0.4:
                cs = random_constraints(rng, PA)
            extract(ctx, s, rng, cs, PA, lon)
        with ctx.session("sites") as s:
            sites(ctx, s, rng)
        for _ in range(2):
            with ctx.session("level") as s:
                level(ctx, s, rng)
        with ctx.session("table") as s:
            table(ctx, s, rng)
    g = C.grid(np.ones((2, 2, 2)), lead=[C.realization(2)])
    a, b = C.grid(np.ones((2, 2)), name="r"), C.grid(np.ones((2, 3)), name="c")
    tab = {"data": {"1": {"1": 2.0}}, "metadata": {"units": "m"}}
    both = C.grid(np.ones((2, 2, 2)), lead=[C.DimCoord(np.array([2.0, 1.0], dtype=np.float32),
                                                       long_name="pressure", units="Pa")])
    both.add_aux_coord(C.AuxCoord(np.array([1.0]), "height", units="m"))
    bad = {
        "units_of_another_number": lambda: extract_subcube(g, ["realization=0"], ["1", "1"]),
        "units_of_no_coordinate": lambda: extract_subcube(g, ["air_temperature=0"], ["K"]),
        "no_match": lambda: ExtractSubCube(["realization=5"])(g),
        "no_match_in_range": lambda: ExtractSubCube(["realization=[5:9]"])(g),
        "no_match_with_step": lambda: ExtractSubCube(["realization=[5:9:2]"])(g),
        "pressure_and_height": lambda: ExtractLevel(True, 1.0)(both),
        "table_of_one_cube": lambda: ExtractValueFromTable("r")(a, table=tab),
        "table_of_other_shape": lambda: ExtractValueFromTable("r")(a, b, table=tab),
        "table_without_row_cube": lambda: ExtractValueFromTable("x")(a, a.copy(), table=tab),
    }
    for why, f in bad.items():
        with ctx.session("reject") as s:
            r = ctx.call(f)
            s.event("rejected", why=why, out="error" if isinstance(r, Failed) else "ok")
