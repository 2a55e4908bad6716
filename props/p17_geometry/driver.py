import numpy as np
from vkit import fx
from vkit import cubes as C
from vkit.main import Failed

from improver.utilities.complex_conversion import complex_to_deg, deg_to_complex
from improver.utilities.cube_checker import (assert_spatial_coords_match, assert_time_coords_valid,
                                             check_for_x_and_y_axes,
                                             find_dimension_coordinate_mismatch,
                                             spatial_coords_match)
from improver.utilities.pad_spatial import (create_cube_with_halo, pad_cube_with_halo,
                                            remove_cube_halo, remove_halo_from_cube)
from improver.utilities.spatial import (DifferenceBetweenAdjacentGridSquares,
                                        DistanceBetweenGridSquares,
                                        GradientBetweenAdjacentGridSquares,
                                        calculate_grid_spacing, check_if_grid_is_equal_area,
                                        distance_to_number_of_grid_cells, get_grid_y_x_values,
                                        lat_lon_determine, number_of_grid_cells_to_distance,
                                        transform_grid_to_lat_lon, update_name_and_vicinity_coord)


def out(r):
    return "error" if isinstance(r, Failed) else "ok"


def picture(c):
    m = np.ma.getmaskarray(c.data)
    return repr((np.where(m, 1e30, np.ma.getdata(c.data)).astype(np.float64).tolist(), c.name(),
                 sorted(c.attributes.items()), [str(x) for x in c.cell_methods],
                 [(x.name(), c.coord_dims(x), str(x.units), np.asarray(x.points).tolist(),
                   None if x.bounds is None else np.asarray(x.bounds).tolist()) for x in c.coords()]))


def ints(a, k=1):
    return [int(round(float(x) * k)) for x in np.asarray(a, dtype=np.float64).ravel()]


def axis_points(rng, n, d=None):
    """Integer points from steps d (cyclically), from some origin."""
    d = d or [1]
    return [int(rng.randint(-3, 4)) + 0 * i for i in range(1)] if n == 1 else \
        list(np.cumsum([int(rng.randint(-3, 4))] + [d[i % len(d)] for i in range(n - 1)]).astype(int))


def lead_coord(name, n):
    if name == "realization":
        return C.realization(n)
    if name == "percentile":
        return C.percentiles([10.0 * (i + 1) for i in range(n)])
    return C.DimCoord(np.arange(1, n + 1, dtype=np.float32) * 100, "height", units="m")


def build(rng, v, xs, ys, kind, step, units, circ, lead, radius=None, masked=None):
    """A cube of fields v [k, y, x] on the integer points times a step."""
    data = np.asarray(v, dtype=np.float32)
    if masked is not None:
        data = np.ma.masked_array(data, masked)
    lc = [lead_coord(lead, data.shape[0])] if lead else []
    if not lead:
        data = data[0]
    if kind == "proj":
        c = C.grid(data, lead=lc, y=[step * i for i in ys], x=[step * i for i in xs])
        if units == "km":
            for a in "xy":
                c.coord(axis=a).convert_units("km")
    else:
        c = C.grid(data, lead=lc, space="ll", y=ys, x=xs)
        if radius:
            cs = C.GeogCS(radius) if hasattr(C, "GeogCS") else C.GEOG
            for a in "xy":
                c.coord(axis=a).coord_system = cs
        c.coord(axis="x").circular = bool(circ)
    return c


def fields(cube, k, n1, n2):
    d = cube.data
    d = np.ma.filled(np.ma.masked_array(d).astype(np.float64), np.nan)
    return d.reshape((k, n1, n2))


def grid_case(ctx, case):
    rng = ctx.rng
    kind = "proj" if rng.rand() < 0.5 else "ll"
    circ = bool(case["circ"]) and kind == "ll"
    n = len(case["v"])
    lead = str(rng.choice(["", "", "realization", "percentile", "height"]))
    nk = int(rng.randint(2, 4)) if lead else 1
    along = "x" if rng.rand() < 0.5 or circ else "y"
    m = int(rng.randint(3, 5))
    if kind == "proj":
        # equal steps are required of projected grids for distances
        xs, ys = axis_points(rng, n if along == "x" else m), axis_points(rng, m if along == "x" else n)
        step = float(rng.choice([500, 1000, 2000]))
        ux, uy = xs, ys
        mpd, unit = 0, int(step)
    else:
        step = unit = 1
        ymenu = [[0, 30, 60], [-60, -30, 0, 30], [-45, -30, 0, 45], [30, 45, 60, 75], [0, 15, 45], [20, 30, 40, 60]]
        pick = [y for y in ymenu if along == "x" or len(y) >= 3]
        ys = list(pick[int(rng.randint(len(pick)))])
        s = int(rng.choice([5, 20]))
        if circ:
            d = [x * s for x in case["d"]]
        else:
            d = case["d"] if along == "x" else [1, 2]
        xs = list(np.cumsum([int(rng.randint(-100, 60))] + [d[i % len(d)] for i in range((n if along == "x" else m) - 1)]).astype(int))
        mpd = 100000 if rng.rand() < 0.6 else 111195
    nx, ny = len(xs), len(ys)
    v = rng.randint(0, 30, (nk, ny, nx))
    if along == "x":
        v[0, 0, :] = np.array(case["v"]) * 5
    else:
        v[0, :, 0] = np.resize(np.array(case["v"]) * 5, ny)
    if rng.rand() < 0.2:  # planes
        v[0] = 3 * np.arange(ny)[:, None] + 2 * np.arange(nx)[None, :]
    if rng.rand() < 0.3:
        ys = ys[::-1]
    if rng.rand() < 0.3 and not circ:
        xs = xs[::-1]
    missing = None
    v = v.astype(np.float64)
    if rng.rand() < 0.25:
        hole = rng.rand(nk, ny, nx) < 0.2
        if rng.rand() < 0.5:
            v[hole] = np.nan
        else:
            missing = hole
    regrid = rng.rand() < 0.45 and missing is None and not np.isnan(v).any() and not circ
    units = "km" if kind == "proj" and rng.rand() < 0.3 else "m"
    radius = 5729577.9513082 if mpd == 100000 else 6371000.0
    # one degree is a hundred kilometres on a smaller sphere
    if mpd == 111195:
        radius = 111195.0 * 180 / np.pi
    cube = build(rng, v, xs, ys, kind, step, units, circ, lead, radius, missing)
    cube.attributes["history"] = "as measured"
    kept = {k: v for k, v in cube.attributes.items()}
    before = picture(cube)
    rec = np.where(missing, np.nan, v) if missing is not None else v
    base = dict(kind=kind, circ=circ, xs=[int(x) for x in xs], ys=[int(y) for y in ys], unit=unit, mpd=mpd)
    per = step if kind == "proj" else 1
    scale_pts = 2 / per * (1000 if units == "km" else 1)
    S = 10000000
    dif = ctx.call(lambda: DifferenceBetweenAdjacentGridSquares()(cube))
    gra = ctx.call(lambda: GradientBetweenAdjacentGridSquares(regrid=bool(regrid))(cube))
    dis = ctx.call(lambda: DistanceBetweenGridSquares()(cube))
    wx = nx if circ else nx - 1
    with ctx.session("gradient") as s:
        bad = [x for x in (dif, gra, dis) if isinstance(x, Failed)]
        if bad:
            s.event("gradient", out="error", err=bad[0].text, lead=lead, **base)
            return
        gwx, gwy = (nx, ny) if regrid else (wx, ny - 1)
        dx, dy = fields(dif[0], nk, ny, wx), fields(dif[1], nk, ny - 1, nx)
        gx, gy = fields(gra[0], nk, ny, gwx), fields(gra[1], nk, gwy, nx)
        lname = lead or None
        meta = all(c.name() == "difference_of_air_temperature" and c.units == cube.units
                   and c.attributes.get("form_of_difference") == "forward_difference"
                   and [str(m.method) for m in c.cell_methods] == ["difference"] for c in dif) \
            and all(c.name() == "gradient_of_air_temperature" and c.units == "K m-1"
                    and "form_of_difference" not in c.attributes for c in gra) \
            and all(c.coord("time") == cube.coord("time") for c in dif) \
            and all({k: v for k, v in c.attributes.items() if k != "form_of_difference"} == kept for c in dif) \
            and all(C.attrs_post(kept, c.attributes) for c in gra)
        if lname:
            meta = meta and all(np.array_equal(c.coord(lname).points, cube.coord(lname).points)
                                and c.coord_dims(lname) == (0,) for c in tuple(dif) + tuple(gra))
        s.event("gradient", out="ok", regrid=bool(regrid), S=S,
                v=[[fx(r, 1) for r in f] for f in rec],
                dx=[[fx(r, 1) for r in f] for f in dx], dy=[[fx(r, 1) for r in f] for f in dy],
                gx=[[fx(r, S) for r in f] for f in gx], gy=[[fx(r, S) for r in f] for f in gy],
                mx=ints(dif[0].coord(axis="x").points, scale_pts), my=ints(dif[1].coord(axis="y").points, scale_pts),
                gmx=ints(gra[0].coord(axis="x").points, scale_pts), gmy=ints(gra[1].coord(axis="y").points, scale_pts),
                meta=bool(meta), same=before == picture(cube), lead=lead, units=units, **base)
        s.event("distance", out="ok", dx=[fx(np.abs(r), 1) for r in np.asarray(dis[0].data)],
                dy=[fx(np.abs(r), 1) for r in np.asarray(dis[1].data)],
                mx=ints(dis[0].coord(axis="x").points, scale_pts), my=ints(dis[1].coord(axis="y").points, scale_pts),
                meta=bool(all(c.units == "m" for c in dis)), same=before == picture(cube), **base)


def spacing_session(ctx):
    rng = ctx.rng
    step = float(rng.choice([250, 1000, 2000]))
    d1 = [[1], [2], [1, 2], [1, 2, 1], [3]][int(rng.randint(5))] if rng.rand() < 0.5 else [1]
    d2 = d1 if rng.rand() < 0.6 else [[1], [2]][int(rng.randint(2))]
    if rng.rand() < 0.2:  # nearly square
        d1, d2, step = [20], [21], step / 50
    xs, ys = axis_points(rng, int(rng.randint(3, 6)), d1), axis_points(rng, int(rng.randint(3, 6)), d2)
    if rng.rand() < 0.3:
        xs = xs[::-1]
    cube = build(rng, np.zeros((1, len(ys), len(xs))), xs, ys, "proj", step, "m", False, "")
    before = picture(cube)
    eq = bool(rng.rand() < 0.5)
    dist = int(rng.choice([-1000, 0, 100, 249, 250, 900, 1000, 1999, 2000, 5000, 12500]))
    n = int(rng.randint(1, 9))

    def number(r, k=1):
        return -1 if isinstance(r, Failed) else int(round(float(r) * k))
    unit = int(step)
    sp = ctx.call(lambda: calculate_grid_spacing(cube, "m", axis="x"))
    spk = ctx.call(lambda: calculate_grid_spacing(cube, "km", axis="x"))
    with ctx.session("spacing") as s:
        s.event("spacing", xs=[int(x) for x in xs], ys=[int(y) for y in ys], unit=unit, eq=eq, dist=dist, n=n,
                spx=number(sp) if number(sp) == number(spk, 1000) else -2,
                area=out(ctx.call(lambda: check_if_grid_is_equal_area(cube, require_equal_xy_spacing=eq))) == "ok",
                cells=number(ctx.call(lambda: distance_to_number_of_grid_cells(cube, float(dist)))),
                fcells=number(ctx.call(lambda: distance_to_number_of_grid_cells(cube, float(dist), axis="y", return_int=False)), 1000),
                back=number(ctx.call(lambda: number_of_grid_cells_to_distance(cube, n))),
                same=before == picture(cube))


def pad_session(ctx, case):
    rng = ctx.rng
    ny, nx = int(rng.randint(3, 6)), len(case["v"])
    even = rng.rand() < 0.75
    xs = axis_points(rng, nx, [int(rng.choice([1, 2]))] if even else case["d"])
    ys = axis_points(rng, ny, [int(rng.choice([1, 2]))])
    if rng.rand() < 0.3:
        ys = ys[::-1]
    if rng.rand() < 0.2:
        xs = xs[::-1]
    wx = int(case["w"])
    wy = int(rng.randint(1, 4))
    how = str(rng.choice(["constant", "mean", "maximum", "minimum", "symmetric", "edge", "reflect", "wrap"]))
    lim = {"reflect": 1}.get(how, 0)
    if how in ("reflect", "wrap", "symmetric"):
        wx, wy = min(wx, nx - 1 - lim), min(wy, ny - 1 - lim)
    wx, wy = max(wx, 1), max(wy, 1)
    v = rng.randint(-9, 10, (ny, nx)) * 36
    v[0] = np.array(case["v"]) * 36
    space = "proj" if rng.rand() < 0.6 else "ll"
    step = float(rng.choice([1000, 2000])) if space == "proj" else float(rng.choice([0.1, 0.25, 1.0]))
    kw = dict(y=[step * i for i in ys], x=[step * i for i in xs])
    cube = C.grid(v.astype(np.float32), space="xy" if space == "proj" else "ll", **kw)
    before = picture(cube)
    r = ctx.call(lambda: pad_cube_with_halo(cube, wx, wy, pad_method=how))
    with ctx.session("pad") as s:
        base = dict(v=v.tolist(), xs=[int(x) for x in xs], ys=[int(y) for y in ys], wx=wx, wy=wy, how=how)
        if isinstance(r, Failed):
            s.event("pad", out2="error", err=r.text, same=before == picture(cube), **base)
            return
        b = remove_halo_from_cube(r, wx, wy)
        cont = True
        for a in "xy":
            c = r.coord(axis=a)
            bd = np.asarray(c.bounds, dtype=np.float64)
            cont = cont and np.allclose(bd[1:, 0], bd[:-1, 1], atol=step * 1e-3) \
                and np.allclose(bd.mean(axis=1), c.points, atol=step * 1e-3)
        meta = r.name() == cube.name() and r.units == cube.units and r.attributes == cube.attributes \
            and r.coord("time") == cube.coord("time") and b.coord("time") == cube.coord("time") \
            and r.coord(axis="x").coord_system == cube.coord(axis="x").coord_system
        s.event("pad", out2="ok", got=[fx(x, 1) for x in np.asarray(r.data)],
                px=ints(r.coord(axis="x").points, 1 / step), py=ints(r.coord(axis="y").points, 1 / step),
                bounds=bool(cont), meta=bool(meta), back=[fx(x, 1) for x in np.asarray(b.data)],
                bx=ints(b.coord(axis="x").points, 1 / step), by=ints(b.coord(axis="y").points, 1 / step),
                same=before == picture(cube), **base)


def halo_session(ctx):
    rng = ctx.rng
    ny, nx = int(rng.randint(4, 8)), int(rng.randint(4, 8))
    xs, ys = axis_points(rng, nx, [int(rng.choice([1, 2]))]), axis_points(rng, ny, [int(rng.choice([1, 2]))])
    lead = str(rng.choice(["", "realization", "percentile"]))
    nk = int(rng.randint(1, 3)) if lead else 1
    v = rng.randint(0, 50, (nk, ny, nx))
    step = 1000.0
    cube = build(rng, v, xs, ys, "proj", step, "m", False, lead)
    before = picture(cube)
    sx, sy = (xs[1] - xs[0]), (ys[1] - ys[0])
    rad = int(rng.choice([2000, 3000, 4500, 2500]))
    rem = 2000 if sx == 2 or sy == 2 else 1000
    wx, wy, rx, ry = rad // (1000 * sx), rad // (1000 * sy), rem // (1000 * sx), rem // (1000 * sy)
    if 2 * rx >= nx - 1 or 2 * ry >= ny - 1:
        return
    h = ctx.call(lambda: create_cube_with_halo(cube, float(rad)))
    r = ctx.call(lambda: remove_cube_halo(cube, float(rem)))
    with ctx.session("halo") as s:
        bad = [x for x in (h, r) if isinstance(x, Failed)]
        if bad:
            s.event("halo", out="error", err=bad[0].text, lead=lead, nk=nk)
            return
        got = np.asarray(r.data).reshape((nk, ny - 2 * ry, nx - 2 * rx))
        s.event("halo", out="ok", xs=[int(x) for x in xs], ys=[int(x) for x in ys], wx=wx, wy=wy, rx=rx, ry=ry,
                px=ints(h.coord(axis="x").points, 1 / step), py=ints(h.coord(axis="y").points, 1 / step),
                zero=bool(np.all(h.data == 0) and h.shape == (ny + 2 * wy, nx + 2 * wx)),
                v=v.tolist(), got=got.astype(int).tolist(), gx=ints(r.coord(axis="x").points, 1 / step),
                gy=ints(r.coord(axis="y").points, 1 / step),
                dims=[c.name() for c in r.coords(dim_coords=True)] == [c.name() for c in cube.coords(dim_coords=True)],
                same=before == picture(cube))


def latlon_session(ctx):
    rng = ctx.rng
    ny, nx = int(rng.randint(2, 5)), int(rng.randint(2, 5))
    xs, ys = axis_points(rng, nx, [1, 3]), axis_points(rng, ny, [2, 1])
    cube = build(rng, np.zeros((1, ny, nx)), xs, ys, "proj", 20000.0, "m", False, "")
    km = build(rng, np.zeros((1, ny, nx)), xs, ys, "proj", 20000.0, "km", False, "")
    before = picture(km)
    a, b = ctx.call(lambda: transform_grid_to_lat_lon(cube)), ctx.call(lambda: transform_grid_to_lat_lon(km))
    yv, xv = get_grid_y_x_values(cube)
    ll = build(rng, np.zeros((1, 3, 3)), [0, 1, 2], [0, 1, 2], "ll", 1, "m", False, "")
    with ctx.session("latlon") as s:
        if isinstance(a, Failed) or isinstance(b, Failed):
            s.event("latlon", out="error")
            return
        s.event("latlon", out="ok", a=fx(np.concatenate([a[0].ravel(), a[1].ravel()]), 10000),
                b=fx(np.concatenate([b[0].ravel(), b[1].ravel()]), 10000),
                shape=bool(a[0].shape == (ny, nx) and np.all(np.diff(a[0], axis=0) * np.sign(ys[1] - ys[0]) > 0)
                           and np.all(np.diff(a[1], axis=1) > 0)),
                fields=bool(np.array_equal(yv, np.repeat(np.array(ys)[:, None] * 20000.0, nx, 1))
                            and np.array_equal(xv, np.repeat(np.array(xs)[None] * 20000.0, ny, 0))
                            and lat_lon_determine(ll) is None and lat_lon_determine(cube) is not None),
                same=before == picture(km))


def small_sessions(ctx):
    rng = ctx.rng
    deg = (rng.randint(-72000, 72001, (2, 3, 2)) / 100.0).astype(np.float32)
    deg.flat[0] = float(rng.choice([0, 360, -1e-6, 359.99999, 180, 90, 270]))
    rad = rng.randint(1, 50, deg.shape).astype(np.float32)
    r = ctx.call(lambda: complex_to_deg(deg_to_complex(deg, radius=rad)))
    with ctx.session("complex") as s:
        if isinstance(r, Failed):
            s.event("complex", out="error", err=r.text)
        else:
            s.event("complex", out="ok", deg=ints(deg, 100), got=[int(np.floor(float(x) * 100 + 1e-3)) for x in r.ravel()],
                    modulus=bool(np.allclose(np.abs(deg_to_complex(deg, radius=rad)), rad, rtol=1e-5)),
                    dtype=str(r.dtype))
        s.event("rejected", why="degrees_not_an_array", out=out(ctx.call(lambda: complex_to_deg(1 + 1j))))
    # vicinity coordinate
    had, given = int(rng.choice([0, 5000, 10000])), int(rng.choice([0, 2000, 7000]))
    prob = rng.rand() < 0.6
    c = C.prob(np.zeros((2, 3, 3)), [1.0, 2.0], name="precipitation_rate", units="mm h-1") if prob \
        else C.grid(np.zeros((3, 3)))
    if had:
        c.add_aux_coord(C.AuxCoord(np.array([had], dtype=np.float32), long_name="radius_of_vicinity", units="m"))
    new = "rainfall_rate_in_vicinity" if prob and rng.rand() < 0.5 else ""
    want = "probability_of_%s_above_threshold" % new if new else c.name()
    r = ctx.call(lambda: update_name_and_vicinity_coord(c, new, given))
    with ctx.session("vicinity") as s:
        if isinstance(r, Failed):
            s.event("vicinity", out="error", err=r.text)
        else:
            vc = c.coords("radius_of_vicinity")
            s.event("vicinity", out="ok", had=had, given=given, got=int(vc[0].points[0]) if vc else 0,
                    noted=bool(vc and "Maximum" in vc[0].attributes.get("comment", "")), cname=c.name(), want=want)
    # checks
    names = ["realization", "percentile", "height"]
    d1 = [str(x) for x in rng.permutation(names)[:rng.randint(0, 3)]]
    d2 = [str(x) for x in rng.permutation(names)[:rng.randint(0, 3)]]

    def mk(dims, y0=0.0):
        return C.grid(np.zeros([2] * len(dims) + [3, 3]), lead=[lead_coord(n, 2) for n in dims], y0=y0)
    both = bool(rng.rand() < 0.5)
    a, b = mk(d1), mk(d2)
    gs = [int(x) for x in rng.randint(0, 2, rng.randint(2, 4))] if rng.rand() < 0.6 else [0, 0, 0]
    many = [mk([], 1000.0 * g) for g in gs]
    cut = a
    hasx, hasy = True, True
    kind = int(rng.randint(0, 3))
    if kind == 1:
        cut = a[..., 0]
        cut.remove_coord("projection_x_coordinate")
        hasx = False
    elif kind == 2:
        cut = a[..., 0, :]
        cut.remove_coord("projection_y_coordinate")
        hasy = False
    with ctx.session("checks") as s:
        s.event("checks", axes=out(ctx.call(lambda: check_for_x_and_y_axes(cut))), hasx=hasx, hasy=hasy,
                both=both, d1=d1, d2=d2, mis=find_dimension_coordinate_mismatch(a, b, two_way_mismatch=both),
                grids=gs, match=bool(spatial_coords_match(many)),
                asserted=out(ctx.call(lambda: assert_spatial_coords_match(many))))
        ts = [{"t": int(rng.choice([0, 0, 0, 3600])), "f": int(rng.choice([0, 0, 0, -3600])), "b": bool(rng.rand() < 0.85)}
              for _ in range(int(rng.randint(1, 4)))]
        blend = bool(rng.rand() < 0.3)
        want = bool(rng.rand() < 0.8)
        cs = []
        for t in ts:
            x = C.grid(np.zeros((2, 2)), t=C.T0 + t["t"], frt=C.T0 - 14400 + t["f"],
                       tb=[C.T0 + t["t"] - 3600, C.T0 + t["t"]] if t["b"] else None)
            if blend:
                x.add_aux_coord(C.AuxCoord(np.array([C.T0 + t["f"]], dtype=np.int64), long_name="blend_time", units=C.TUNITS))
            cs.append(x)
        s.event("times", ts=ts, blend=blend, want=want, got=out(ctx.call(lambda: assert_time_coords_valid(cs, want))))


def refusals(ctx):
    rng = ctx.rng
    ll = build(rng, np.zeros((1, 3, 3)), [0, 1, 2], [0, 1, 2], "ll", 1, "m", False, "")
    for a in "xy":
        ll.coord(axis=a).coord_system = None
    uneven = build(rng, np.zeros((1, 3, 4)), [0, 1, 3, 4], [0, 1, 2], "proj", 1000.0, "m", False, "")
    circ = build(rng, np.zeros((1, 3, 3)), [0, 1, 2], [0, 1, 2], "proj", 1000.0, "m", False, "")
    circ.coord(axis="x").circular = True
    with ctx.session("refusals") as s:
        s.event("rejected", why="degrees_without_system", out=out(ctx.call(lambda: DistanceBetweenGridSquares()(ll))))
        s.event("rejected", why="uneven_projection", out=out(ctx.call(lambda: DistanceBetweenGridSquares()(uneven))))
        s.event("rejected", why="circular_projection", out=out(ctx.call(lambda: DistanceBetweenGridSquares()(circ))))
        s.event("rejected", why="circular_projection", out=out(ctx.call(lambda: DifferenceBetweenAdjacentGridSquares()(circ))))
        s.event("rejected", why="uneven_halo", out=out(ctx.call(lambda: create_cube_with_halo(uneven, 2000.0))))
        s.event("rejected", why="halo_below_a_cell", out=out(ctx.call(lambda: create_cube_with_halo(circ, 500.0))))
        ok = build(rng, np.zeros((1, 3, 3)), [0, 1, 2], [0, 1, 2], "ll", 1, "m", False, "")
        s.event("rejected", why="latitudes_as_metres", out=out(ctx.call(lambda: calculate_grid_spacing(ok, "m"))))
        s.event("rejected", why="latitudes_as_metres", out=out(ctx.call(lambda: transform_grid_to_lat_lon(ok))))


def drive(ctx):
    n = 1200 if ctx.thorough else 80
    for case in ctx.pick(ctx.cases, n):
        grid_case(ctx, case)
        pad_session(ctx, case)
    for _ in range(n // 2):
        spacing_session(ctx)
        halo_session(ctx)
        small_sessions(ctx)
    for _ in range(n // 8):
        latlon_session(ctx)
    refusals(ctx)
