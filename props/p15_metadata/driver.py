import re
from datetime import datetime

import numpy as np
from vkit import fx
from vkit import cubes as C
from vkit.main import Failed

from improver.metadata.amend import (amend_attributes, set_history_attribute,
                                     update_diagnostic_name, update_model_id_attr_attribute)
from improver.metadata.check_datatypes import check_mandatory_standards
from improver.metadata.probabilistic import (
    find_percentile_coordinate, find_threshold_coordinate, format_cell_methods_for_diagnostic,
    format_cell_methods_for_probability, get_diagnostic_cube_name_from_probability_name,
    get_threshold_coord_name_from_probability_name, in_vicinity_name_format, is_percentile,
    is_probability, probability_is_above_or_below)
from improver.metadata.utilities import (check_grid_match, create_coordinate_hash,
                                         create_new_diagnostic_cube,
                                         generate_mandatory_attributes, get_model_id_attr)
from improver.standardise import StandardiseMetadata
from improver.utilities.common_input_handle import as_cube, as_cubelist
from improver.utilities.copy_attributes import CopyAttributes
from improver.utilities.flatten import flatten
from improver.utilities.round import round_close

TIMES = ("time", "forecast_reference_time", "blend_time")
GAPS = ("forecast_period", "UTC_offset")
STEP = {"seconds": 1, "minutes": 60, "hours": 3600}


def out(r):
    return "error" if isinstance(r, Failed) else "ok"


def raw(name, units, v):
    """Points of a coordinate from the model's numbers."""
    v = np.asarray(v, dtype=np.float64)
    if name in TIMES:
        return (v + C.T0) / STEP[units.split()[0]]
    if name in GAPS:
        return v / STEP[units]
    return v / 100


def numbers(c, arr):
    units = str(c.units)
    out = []
    for v in np.asarray(arr).astype(np.float64).ravel():
        if c.name() in TIMES:
            v = v * STEP.get(units.split()[0], 0) - C.T0
        elif c.name() in GAPS:
            v = v * STEP.get(units, 0)
        else:
            v = v * 100
        out.append(int(round(v)))
    return out


def coord(c, cls):
    b = None
    if c["bnds"]:
        b = raw(c["name"], c["units"], c["bnds"]).reshape((-1, 2)).astype(c["dtype"])
    return cls(raw(c["name"], c["units"], c["pts"]).astype(c["dtype"]), long_name=c["name"]
               if c["name"] in ("blend_time", "UTC_offset") else None,
               standard_name=None if c["name"] in ("blend_time", "UTC_offset") else c["name"],
               units=c["units"], bounds=b)


def method(m):
    m, c = m.split(": ")
    return C.CellMethod(m, coords=c)


def tell(cube, skip=("projection_y_coordinate", "projection_x_coordinate")):
    cs = []
    for c in cube.coords():
        if c.name() in skip:
            continue
        dims = cube.coord_dims(c)
        kind = "dim" if cube.coords(c.name(), dim_coords=True) else "aux" if dims else "scalar"
        if c.has_bounds() and c.bounds.dtype != c.points.dtype:
            kind = "odd bounds"
        cs.append(dict(name=c.name(), kind=kind, n=len(c.points), dtype=str(c.points.dtype),
                       units=str(c.units), pts=numbers(c, c.points),
                       bnds=numbers(c, c.bounds) if c.has_bounds() else []))
    return dict(name=cube.name(), units=str(cube.units), dtype=str(cube.dtype),
                data=fx(cube.data, 100), coords=cs,
                attrs={k: text(v) for k, v in cube.attributes.items()},
                cms=["%s: %s" % (m.method, ",".join(m.coord_names)) for m in cube.cell_methods])


def text(v):
    return v if isinstance(v, str) else "%s:%s" % (type(v).__name__, v)


NOWS = ["%Y", "year %Y!", "%%%Y", "a{x%Y"]


def template(parts, rng):
    """The template string of a list of parts, and the parts with the clock filled in."""
    t, filled = "", []
    for p in parts:
        if p["t"] == "old":
            t += "{}"
            filled.append(p)
        elif p["t"] == "now":
            f = NOWS[rng.randint(3)]
            t += "{now:%s}" % f
            filled.append(dict(t="now", s=datetime.now().strftime(f)))
        else:
            t += p["s"]
            filled.append(p)
    return t, filled


def amendments(ops, rng, odd=True):
    """The last word on each attribute only (a dictionary cannot say more)."""
    d, model, seen = {}, [], set()
    for op in ops:
        if op["name"] in seen:
            continue
        seen.add(op["name"])
        if op["k"] == "remove":
            d[op["name"]] = "remove"
            model.append(op)
        elif odd and rng.rand() < 0.15:
            v = [3, 2.5, np.float32(1.5), np.int64(7)][rng.randint(4)]
            d[op["name"]] = v
            model.append(dict(op, parts=[dict(t="text", s=text(v))]))
        else:
            d[op["name"]], parts = template(op["parts"], rng)
            model.append(dict(op, parts=parts))
    return d, model


def std(ctx, s, rng, case):
    m, o = case["cube"], case["o"]
    m = dict(m)
    coords = [dict(c) for c in m["coords"]]
    if rng.rand() < 0.3:
        bt = dict(name=["blend_time", "forecast_reference_time"][rng.randint(2)], kind="scalar",
                  n=1, dtype=["int64", "float64"][rng.randint(2)],
                  units="%s since 1970-01-01 00:00:00" % ["seconds", "hours"][rng.randint(2)],
                  pts=[3600], bnds=[])
        coords.append(bt)
    if rng.rand() < 0.2:
        coords.append(dict(name="UTC_offset", kind="scalar", n=1,
                           dtype=["int64", "float32"][rng.randint(2)],
                           units=["hours", "seconds"][rng.randint(2)], pts=[-3600], bnds=[]))
    for c in coords:                        # seconds which have no exact count of hours
        if c["name"] == "forecast_period" and rng.rand() < 0.5:
            a = 3600 + 5 * int(rng.randint(5)) + 3
            c.update(dtype="float64", pts=[a + 5], bnds=[a, a + 5])
    if rng.rand() < 0.4:                    # instants at any whole second
        by = int(rng.choice([1, 7, 1200, 2400, 3599]))
        for c in coords:
            whole = c["dtype"] == "float64" or c["units"].startswith("seconds") and "int" in c["dtype"]
            if c["name"] in TIMES + GAPS and whole:
                c["pts"], c["bnds"] = [v + by for v in c["pts"]], [v + by for v in c["bnds"]]
    units = o["units"]
    if units == "celsius" and rng.randint(2):
        m["name"], m["units"], units = "wind_speed", "m s-1", "km h-1"
        if rng.rand() < 0.2:
            units = "K"
    dims = [c for c in coords if c["kind"] == "dim"]
    if rng.rand() < 0.3:
        rng.shuffle(dims)
    gdt = ["float32", "float64"][rng.randint(2)]
    yc, xc = C.xy(2, 1 if rng.rand() < 0 else 3)
    yc, xc = [C.DimCoord(c.points.astype(gdt), c.name(), units="m", coord_system=C.LAEA)
              for c in (yc, xc)]
    shp = [c["n"] for c in dims] + [2, 3]
    base = np.array(m["data"])
    data = (np.resize(base, shp) + np.arange(np.prod(shp)).reshape(shp) * 100)
    isint = m["dtype"].startswith("int")
    if isint:
        data = data // 100 * 100
    arr = (data / 100).astype(m["dtype"])
    arr = np.round(arr).astype(m["dtype"]) if isint else arr
    if not isint and rng.rand() < 0.3:
        arr.ravel()[0] = np.nan
    masked = rng.rand() < 0.3
    if masked:
        mk = np.zeros(shp, dtype=bool)
        mk.ravel()[-1] = True
        arr = np.ma.masked_array(arr, mk)
    cube = C.Cube(arr, units=m["units"])
    cube.rename(m["name"])
    cube.attributes.update(m["attrs"])
    for i, c in enumerate(dims):
        cube.add_dim_coord(coord(c, C.DimCoord), i)
    cube.add_dim_coord(yc, len(dims))
    cube.add_dim_coord(xc, len(dims) + 1)
    for c in coords:
        if c["kind"] == "scalar":
            cube.add_aux_coord(coord(c, C.AuxCoord if rng.randint(2) else C.DimCoord))
    for x in m["cms"]:
        cube.add_cell_method(method(x))
    d, ops = amendments(o["attrs"], rng)
    mods, model = {}, []
    when = [c["name"] for c in coords if c["name"] in TIMES + GAPS and c["kind"] == "scalar"]
    for x in o["modify"]:
        if x["name"] == "time" and when:
            x = dict(x, name=when[rng.randint(len(when))])
        v = x["v"] / 100
        v = int(v) if x["dtype"] == "int64" else float(v)
        mods[x["name"]] = [v, v + 1] if x["many"] else v
        model.append(x)
    before = tell(cube)
    r = ctx.call(StandardiseMetadata(
        new_name=o["name"] or None, new_units=units or None,
        coords_to_remove=o["remove"] or None, coord_modification=mods or None,
        attributes_dict=d or None), [cube] if rng.rand() < 0.2 else cube)
    ev = dict(cube=before, o=dict(o, units=units, attrs=ops, modify=model), tol=2)
    if isinstance(r, Failed):
        s.event("std", out="error", err=r.text, **ev)
        return
    grid = all(np.array_equal(r.coord(c.name()).points, c.points.astype("float32")) and
               r.coord(c.name()).points.dtype == "float32" and
               r.coord(c.name()).coord_system == C.LAEA for c in (yc, xc)) and \
        [c.name() for c in r.coords(dim_coords=True)][-2:] == [yc.name(), xc.name()]
    s.event("std", out="ok", got=tell(r), grid=bool(grid), **ev)


def flag(ctx, s, rng):
    nr = rng.randint(0, 3)
    lead = [C.realization(nr)] if nr else []
    ny, nx = rng.randint(2, 4, 2)
    shp = ([nr] if nr else []) + [ny, nx]
    v = rng.randint(250, 300, shp)
    f = rng.randint(0, 2, shp).astype(np.int8)
    cube = C.grid(v, lead=lead)
    c = C.AuxCoord(f, long_name="air_temperature status_flag", units="no_unit")
    c.attributes = {"flag_meanings": "above_surface_pressure below_surface_pressure",
                    "flag_values": np.array([0, 1], dtype="int8")}
    cube.add_aux_coord(c, tuple(range(len(shp))))
    keep = cube.copy()
    r = ctx.call(StandardiseMetadata(), cube)
    if isinstance(r, Failed):
        s.event("flag", out="error", err=r.text)
        return
    s.event("flag", out="ok", same=bool(np.array_equal(cube.data, keep.data) and cube.coords() == keep.coords()), v=fx(v), flag=f.ravel().tolist(), got=fx(r.data),
            gone=not r.coords("air_temperature status_flag") and list(r.shape) == shp)


def amend(ctx, s, rng, ops):
    cube = C.grid(np.ones((2, 2)))
    cube.attributes = {"title": "T {x} \\1", "other": "o"}
    if rng.randint(2):
        cube.attributes["history"] = ["h", "line 1\nline 2", "remove", "50%"][rng.randint(4)]
    if rng.rand() < 0.4:
        ops = [dict(o, parts=[q for p in o["parts"] for q in [p] * (2 if p["t"] != "old" and rng.rand() < 0.3 else 1)]) for o in ops]
    if rng.rand() < 0.3:
        ops = [dict(o, parts=[dict(p, s="\n" if p["s"] == ": " else p["s"]) for p in o["parts"]])
               for o in ops]
    before = dict(cube.attributes)
    d, model = amendments(ops, rng)
    r = ctx.call(amend_attributes, cube, d)
    if isinstance(r, Failed):
        s.event("amend", out="error", err=r.text, given={k: text(v) for k, v in d.items()})
        return
    s.event("amend", out="ok", attrs=before, ops=model,
            got={k: text(v) for k, v in cube.attributes.items()})


def copy(ctx, s, rng):
    pool = ["v", "remove", "{}", "now {now:%Y}", 3, np.float32(2.5), "a {} b"]
    src = C.grid(np.ones((2, 2)))
    names = ["title", "source", "version", "history"][: rng.randint(1, 5)]
    for n in names:
        src.attributes[n] = pool[rng.randint(len(pool))]
    cubes = []
    for _ in range(rng.randint(1, 4)):
        c = C.grid(np.ones((2, 2)))
        if rng.randint(2):
            c.attributes["history"] = "old"
        cubes.append(c)
    had = [{k: text(v) for k, v in c.attributes.items()} for c in cubes]
    args = [C.CubeList(cubes)] if rng.rand() < 0.3 else cubes
    r = ctx.call(CopyAttributes(names), *args, template_cube=src)
    if isinstance(r, Failed):
        s.event("copy", out="error", err=r.text)
        return
    flat = [r] if isinstance(r, C.Cube) else list(r)
    s.event("copy", out="ok", names=names, had=had,
            **{"from": {k: text(v) for k, v in src.attributes.items()}},
            got=[{k: text(v) for k, v in c.attributes.items()} for c in flat],
            same=isinstance(r, C.Cube) == (len(cubes) == 1 and args[0] is cubes[0]) and len(flat) == len(cubes) and all(a is b for a, b in zip(flat, cubes)))


def mandate(ctx, s, rng):
    p = rng.rand() * 0.4
    dt = "float64" if rng.rand() < p else ["float32", "int32", "int8"][rng.randint(3)]
    cube = C.grid(np.ones((2, 2)), t=None, dtype=dt)
    for n in ("time", "forecast_reference_time", "forecast_period", "height", "blend_time"):
        tu = "%s since 1970-01-01 00:00:00"
        if n in TIMES:
            u = tu % ("hours" if rng.rand() < p else "seconds")
            d = "float64" if rng.rand() < p else "int64"
        elif n in GAPS:
            u, d = "hours" if rng.rand() < p else "seconds", "int64" if rng.rand() < p else "int32"
        else:
            u, d = "m", "float64" if rng.rand() < p else ["float32", "int64"][rng.randint(2)]
        bd = None
        if rng.rand() < 0.4:
            bd = ["float32", "int64", "int32"][rng.randint(3)] if rng.rand() < p else d
        c = C.AuxCoord(np.array([3600], dtype=d), long_name=n, units=u,
                       bounds=None if bd is None else np.array([[0, 3600]], dtype=bd))
        cube.add_aux_coord(c)
    if rng.rand() < 0.2:
        cube.add_aux_coord(C.AuxCoord(np.array(["a"]), long_name="label", units="no_unit"))
    cs = []
    for c in cube.coords():
        u = str(c.units)
        cs.append(dict(name=c.name(), dtype=str(c.points.dtype), units=u,
                       bdtype=str(c.bounds.dtype) if c.has_bounds() else ""))
    r = ctx.call(check_mandatory_standards, cube)
    said = []
    if isinstance(r, Failed):
        said = sorted(set(re.findall(r"(\w+) of type", str(r.err))))
    s.event("mandate", name=cube.name(), dtype=str(cube.dtype), coords=cs, out2=out(r), said=said,
            err=r.text if isinstance(r, Failed) else "")


def attrs(rng):
    d = {}
    for n in ("title", "source", "institution", "mosg__model_configuration"):
        if rng.rand() < 0.8:
            d[n] = "abc"[rng.randint(2) if rng.rand() < 0.3 else 0]
    return d


def newcube(ctx, s, rng):
    lead = [C.realization(2)] if rng.randint(2) else []
    t = C.grid(np.ones([2] * len(lead) + [2, 3]), lead=lead)
    keep = t.copy()
    mand, opt = attrs(rng), attrs(rng) if rng.randint(2) else None
    if rng.randint(2):
        mand.update({n: "z" for n in ("title", "source", "institution")})
    data = None if rng.randint(2) else np.full(t.shape, 7, dtype=np.int32)
    dt = [np.float32, np.int32][rng.randint(2)]
    args = dict(dtype=dt) if rng.randint(2) else {}
    m0 = dict(mand)
    r = ctx.call(create_new_diagnostic_cube, "new_name", "m", t, mand, opt, data, **args)
    ev = dict(mand=m0, opt=opt or {}, out2=out(r))
    if isinstance(r, Failed):
        s.event("newcube", **ev)
        return
    want = "int32" if data is not None else np.dtype(args.get("dtype", np.float32)).name
    s.event("newcube", got=dict(r.attributes),
            coords=bool([c for c in r.coords()] == [c for c in t.coords()] and
                        all(r.coord_dims(c) == t.coord_dims(c) for c in t.coords()) and
                        all(a is not b for a, b in zip(r.coords(), t.coords()))),
            named=bool(r.name() == "new_name" and str(r.units) == "m" and str(r.dtype) == want),
            data=bool(r.shape == t.shape and (r.data == (0 if data is None else 7)).all()),
            same=bool(t == keep), **ev)


def mandatory(ctx, s, rng):
    ms = [attrs(rng) for _ in range(rng.randint(1, 4))]
    if rng.randint(2):
        ms = [dict(ms[0]) for _ in ms]
    cubes = [C.grid(np.ones((2, 2)), attrs=m) for m in ms]
    mid = "mosg__model_configuration" if rng.randint(2) else ""
    r = ctx.call(generate_mandatory_attributes, cubes, mid or None)
    s.event("mandatory", ms=ms, id=mid, out2=out(r), got=r if out(r) == "ok" else {})
    mid = "mosg__model_configuration"
    r = ctx.call(get_model_id_attr, cubes, mid)
    s.event("modelid", ms=ms, id=mid, out2=out(r), got=r if out(r) == "ok" else "")
    words = [[["uk_ens", "uk_det", "nc_det", "gl_ens"][i] for i in rng.permutation(4)[:rng.randint(1, 4)]]
             for _ in range(rng.randint(1, 4))]
    cubes = [C.grid(np.ones((2, 2)), attrs={mid: " ".join(w)}) for w in words]
    r = ctx.call(update_model_id_attr_attribute, cubes, mid)
    if isinstance(r, Failed):
        s.event("modelids", out="error", err=r.text)
    else:
        w = r[mid].split(" ")
        s.event("modelids", out="ok", words=words, got=w, sorted=w == sorted(w) and len(r) == 1)


def grids(ctx, s, rng):
    pool = [dict(), dict(), dict(dx=1000.0), dict(x0=500.0), dict(space="ll"), dict(cs=True)]
    ids, cubes, hashes = [], [], {}
    for _ in range(rng.randint(2, 5)):
        k = rng.randint(2) if rng.rand() < 0.8 else rng.randint(len(pool))
        n = 3 if rng.rand() < 0.9 else 4
        how = dict(pool[k])
        cs = how.pop("cs", None)
        g = C.grid(rng.rand(3, n), t=C.T0 + 3600 * rng.randint(3), **how)
        if cs:
            for c in g.coords(dim_coords=True):
                c.coord_system = C.GEOG
        if rng.rand() < 0.3:
            spot = C.grid(np.ones(2), space="spot")
            spot.attributes["model_grid_hash"] = create_coordinate_hash(g)
            g = spot
        ids.append("%d/%d" % (max(k, 1), n))
        cubes.append(g)
    r = ctx.call(check_grid_match, cubes)
    s.event("grids", grids=ids, out2=out(r))


def probname(ctx, s, rng):
    d = ["air_temperature", "cloud_area_fraction_above_x", "rain_in", "wind"][rng.randint(4)]
    vic = ["", "_in_vicinity", "_in_variable_vicinity"][rng.randint(3)]
    thr = ["_above_threshold", "_below_threshold", "_between_thresholds", ""][rng.randint(4)]
    n = "probability_of_" + d + vic + thr
    r = [ctx.call(f, n) for f in (get_threshold_coord_name_from_probability_name,
                                  get_diagnostic_cube_name_from_probability_name,
                                  in_vicinity_name_format)]
    r = [x.text if isinstance(x, Failed) else x for x in r]
    s.event("probname", d=d, vic=vic, thr=thr, coord=r[0], diag=r[1], invic=r[2])


def lookup(ctx, s, rng):
    kind = ["prob", "old", "perc", "perc2", "plain"][rng.randint(5)]
    rel = ["above", "below", "greater_than", "greater_than_or_equal_to", "less_than",
           "less_than_or_equal_to", "between_thresholds"][rng.randint(7)]
    wt = wp = wab = ""
    if kind == "prob":
        cube = C.prob(np.ones((2, 2, 2)), [1.0, 2.0], relative="greater_than")
        cube.coord(var_name="threshold").attributes["spp__relative_to_threshold"] = rel
        wt = "air_temperature"
    elif kind == "old":
        cube = C.prob(np.ones((2, 2, 2)), [1.0, 2.0])
        c = cube.coord(var_name="threshold")
        c.var_name = None
        c.rename("threshold")
        c.attributes["spp__relative_to_threshold"] = rel
        wt = "threshold"
    elif kind in ("perc", "perc2"):
        cube = C.grid(np.ones((2, 2, 2)), lead=[C.percentiles([10, 90])])
        if rng.randint(2):
            cube.coord("percentile").rename("percentile_over_neighbourhood")
        wp = cube.coords(dim_coords=True)[0].name()
        if kind == "perc2":
            cube.add_aux_coord(C.AuxCoord(np.float32(5), long_name="percentile_over_x"))
            wp = ""
    else:
        cube = C.grid(np.ones((2, 2)))
    if wt:
        wab = "above" if rel == "above" or rel[0] == "g" else "" if rel[:3] == "bet" else "below"
    t = ctx.call(find_threshold_coordinate, cube)
    p = ctx.call(find_percentile_coordinate, cube)
    ab = ctx.call(probability_is_above_or_below, cube)
    ok = is_probability(cube) == (wt != "") and is_percentile(cube) == (wp != "")
    s.event("lookup", kind=kind, thresh="" if isinstance(t, Failed) else t.name(), wantt=wt,
            perc="" if isinstance(p, Failed) else p.name(), wantp=wp,
            ab="wrong" if not ok else "" if ab is None or isinstance(ab, Failed) else ab,
            wantab=wab)


def cms_of(cube):
    return [dict(m=m.method, c=",".join(m.coord_names), i=",".join(m.intervals),
                 com="|".join(m.comments)) for m in cube.cell_methods]


def make_cms(cube, rng, coms):
    for _ in range(rng.randint(0, 4)):
        com = coms[rng.randint(len(coms))]
        cube.add_cell_method(C.CellMethod(
            ["mean", "maximum", "sum"][rng.randint(3)],
            coords=["time", "realization", "area"][rng.randint(3)],
            intervals=["1 hour", None][rng.randint(2)], comments=com or None))


def cells(ctx, s, rng):
    cube = C.grid(np.ones((2, 2)))
    make_cms(cube, rng, ["", "of rain", "note"])
    cms = cms_of(cube)
    p, d = cube.copy(), cube.copy()
    format_cell_methods_for_probability(p, "rain_rate")
    format_cell_methods_for_diagnostic(d)
    s.event("cells", cms=cms, n="rain_rate", prob=cms_of(p), diag=cms_of(d))


def rename(ctx, s, rng):
    old, base = "air_temperature", "surface_temperature"
    vic = ["", "", "_in_vicinity", "_in_variable_vicinity"][rng.randint(4)]
    isprob = bool(rng.randint(2))
    ovic = "_in_vicinity" if isprob and rng.rand() < 0.3 else ""
    if isprob:
        rel = ["greater_than", "less_than"][rng.randint(2)]
        src = C.prob(np.ones((2, 2, 2)), [1.0, 2.0], relative=rel)
        thr = "_above_threshold" if rel[0] == "g" else "_below_threshold"
        src.rename("probability_of_" + old + ovic + thr)
    else:
        thr = ""
        src = C.grid(np.ones((2, 2)), name=old)
    make_cms(src, rng, ["", "of " + old, "of rain", "note"])
    cms = cms_of(src)
    res = src if rng.randint(2) else src.copy()
    r = ctx.call(update_diagnostic_name, src, base + vic, res)
    if isinstance(r, Failed):
        s.event("rename", out="error", err=r.text)
        return
    t = [c.name() for c in res.coords() if c.var_name == "threshold"]
    s.event("rename", out="ok", old=old, new=base + vic, base=base, thr=thr, isprob=isprob,
            cname=res.name(), tname=t[0] if len(t) == 1 else "", cms=cms, got=cms_of(res))


def rounding(ctx, s, rng):
    n = rng.randint(1, 5)
    want = rng.randint(-900, 900, n)
    if rng.rand() < 0.3:
        want = rng.randint(10 ** 6, 2 * 10 ** 9, n)
        noise = np.zeros(n)
        far = False
    else:
        far = rng.rand() < 0.4
        noise = rng.choice([-9e-8, 9e-8, 0], n) if rng.randint(2) else np.zeros(n)
        if far:
            noise[rng.randint(n)] = rng.choice([0.1, -0.1, 0.5, 0.3])
    dt = [np.int64, np.int32][rng.randint(2)]
    v = want + noise
    if n == 1 and rng.randint(2):
        v = float(v[0])
    r = ctx.call(round_close, v, dt)
    s.event("round", far=bool(far), want=want.tolist(), out2=out(r),
            got=np.ravel(r).tolist() if out(r) == "ok" else [],
            dtype=bool(out(r) == "ok" and np.asarray(r).dtype == dt))


def tree(rng, depth, leaves):
    if depth == 0 or rng.rand() < 0.3:
        leaves.append(len(leaves))
        return dict(leaf=True, v=leaves[-1], kids=[]), leaves[-1]
    kids = [tree(rng, depth - 1, leaves) for _ in range(rng.randint(0, 4))]
    vals = [k[1] for k in kids]
    form = rng.randint(3)
    vals = vals if form == 0 else tuple(vals) if form == 1 else (x for x in vals)
    return dict(leaf=False, v=0, kids=[k[0] for k in kids]), vals


def flat(ctx, s, rng):
    lv = []
    t, v = tree(rng, 3, lv)
    if rng.randint(2):
        words = rng.rand() < 0.4            # strings and bytes are items, whatever their length

        def word(x):
            return ("item%d" % x if x % 3 else b"b%d" % x) if isinstance(x, int) else [word(y) for y in x]
        r = ctx.call(lambda: list(flatten(word(v) if words else v)))
        if words and not isinstance(r, Failed):
            r = [int("".join(q for q in (x.decode() if isinstance(x, bytes) else x) if q.isdigit())) if len(x) > 1 else -1 for x in r]
    else:
        cubes = [C.grid(np.full((2, 2), i)) for i in range(len(lv))]

        def swap(x):
            return cubes[x] if isinstance(x, int) else [swap(y) for y in x]
        r = ctx.call(as_cubelist, *([swap(v)] if isinstance(v, int) else [swap(x) for x in v]))
        if not lv:
            s.event("rejected", why="no_cubes", out=out(r))
            return
        if not isinstance(r, Failed):
            r = [next(i for i, c in enumerate(cubes) if c is x) for x in r]
    if isinstance(r, Failed):
        s.event("flat", out="error", err=r.text)
        return
    s.event("flat", out="ok", tree=t, got=r)


def history(ctx, s, rng):
    cube = C.grid(np.ones((2, 2)))
    old = "2001: was" if rng.randint(2) else None
    if old:
        cube.attributes["history"] = old
    app = bool(rng.randint(2))
    set_history_attribute(cube, "did; this", append=app)
    pre = re.escape(old + "; ") if old and app else ""
    s.event("history", ok=bool(re.match(
        "^" + pre + r"\d{4}-\d\d-\d\dT\d\d:\d\d:\d\dZ: did; this$", cube.attributes["history"])))


def drive(ctx):
    rng = ctx.rng
    stds = [c for c in ctx.cases if "cube" in c]
    fine = [c for c in stds if not any(m["many"] or m["name"] == "time" for m in c["o"]["modify"])]
    am = [c for c in ctx.cases if "ops" in c]
    for c in ctx.pick(fine, 3000 if ctx.thorough else 220) + ctx.pick(stds, 1000 if ctx.thorough else 60):
        with ctx.session("std") as s:
            std(ctx, s, rng, c)
    for c in ctx.pick(am, 1500 if ctx.thorough else 120):
        with ctx.session("amend") as s:
            amend(ctx, s, rng, c["ops"])
    n = 200 if ctx.thorough else 30
    for f, k in ((flag, n), (copy, n), (mandate, 2 * n), (newcube, n), (mandatory, n), (grids, n),
                 (probname, n), (lookup, n), (cells, n), (rename, n), (rounding, 2 * n), (flat, n),
                 (history, n // 2)):
        for _ in range(k):
            with ctx.session(f.__name__) as s:
                f(ctx, s, rng)
    bad = C.grid(np.ones((2, 2)))
    fl = C.grid(np.ones((2, 2)))
    c = C.AuxCoord(np.zeros((2, 2), dtype=np.int8), long_name="air_temperature status_flag")
    c.attributes = {"flag_meanings": "other"}
    fl.add_aux_coord(c, (0, 1))
    cases = {
        "odd_flag": lambda: StandardiseMetadata()(fl),
        "wrong_units": lambda: StandardiseMetadata(new_units="m")(bad.copy()),
        "not_a_probability": lambda: get_threshold_coord_name_from_probability_name("rain_above"),
        "no_threshold": lambda: find_threshold_coordinate(bad),
        "no_percentile": lambda: find_percentile_coordinate(bad),
        "not_a_cube": lambda: find_percentile_coordinate([bad]),
        "not_a_cube_either": lambda: as_cubelist(bad, 3),
        "absent_attribute": lambda: CopyAttributes(["absent"])(bad, template_cube=bad),
        "model_ids_absent": lambda: update_model_id_attr_attribute([bad], "absent"),
        "unmergeable": lambda: as_cube(bad, C.grid(np.ones((3, 3)), name="rain")),
    }
    for why, f in cases.items():
        with ctx.session("reject") as s:
            s.event("rejected", why=why, out=out(ctx.call(f)))
