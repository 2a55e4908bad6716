import warnings

import cartopy.crs as ccrs
import iris
import numpy as np
from vkit import fx
from vkit import cubes as C
from vkit.main import Failed

from improver.metadata.utilities import create_coordinate_hash
from improver.spotdata.apply_lapse_rate import SpotLapseRateAdjust
from improver.spotdata.height_adjustment import SpotHeightAdjustment
from improver.spotdata.neighbour_finding import NeighbourSelection
from improver.spotdata.spot_extraction import SpotExtraction
from improver.spotdata.spot_manipulation import SpotManipulation

NONE = 999999


def out(r):
    return "error" if isinstance(r, Failed) else "ok"


def rows(a, k=1):
    return [fx(r, k) for r in a]


class Grid:
    """A grid, its sites and the neighbour cubes found for them."""

    def __init__(self, ctx, case=None):
        rng = self.rng = ctx.rng
        self.ctx = ctx
        self.ring = case is None and rng.rand() < 0.35
        if case is not None:
            self.land, self.oro = np.array(case["land"]), np.array(case["oro"])
            ny, nx = self.land.shape
            self.xs, self.ys = [5 * i for i in range(nx)], [5 * i for i in range(ny)]
            self.sites, self.alt = [list(case["site"])], [case["h"]]
            self.r, self.n = case["r"], case["n"]
        elif self.ring:
            self.xs, self.ys = list(range(-180, 180, 45)), [-45, 0, 45]
            if rng.rand() < 0.3:
                self.xs = list(range(0, 360, 45))
            self.sites = [[int(rng.choice(np.arange(-180, 181, 15))), int(rng.choice(np.arange(-75, 76, 15)))] for _ in range(int(rng.randint(1, 6)))]
            self.sites[0][1] = 15
            self.r, self.n = int(rng.choice([2400, 4300, 5700, 8100])), int(rng.choice([1, 2, 4, 30]))
        else:
            nx, ny = [int(v) for v in rng.randint(2, 6, 2)]
            d = int(rng.choice([2, 10]))
            x0, y0 = [int(v) for v in rng.randint(-30, 30, 2)]
            self.xs, self.ys = [x0 + d * i for i in range(nx)], [y0 + d * i for i in range(ny)]
            cand = lambda c: int(rng.choice([v for v in range(min(c) - d, max(c) + d) if (2 * (v - c[0])) % (2 * d) != d]))
            self.sites = [[cand(self.xs), cand(self.ys)] for _ in range(int(rng.randint(1, 6)))]
            self.sites[0] = [self.xs[0], self.ys[-1]]
            self.r, self.n = int(rng.choice([d, d + 1, 2 * d, 3 * d + 1])), int(rng.choice([1, 2, 3, 5, 36]))
        if case is None or (rng.rand() < 0.3 and not self.ring):
            if rng.rand() < 0.25 and not self.ring:
                self.ys = self.ys[::-1]
            if case is None:
                ny, nx = len(self.ys), len(self.xs)
                self.oro = rng.randint(0, 30, (ny, nx)) * 10
                self.land = (rng.rand(ny, nx) < rng.choice([0, 0.2, 0.5, 1.0])).astype(int)
                self.alt = [NONE if rng.rand() < 0.25 else int(rng.randint(0, 60)) * 5 for _ in self.sites]
        k = len(self.sites)
        self.wmo = ["None" if rng.rand() < 0.3 else "%05d" % int(rng.randint(1, 99999 if rng.rand() < 0.8 else 12)) for _ in range(k)]
        self.uid = []
        self.latlon()
        kw = dict(name="surface_altitude", units="m", space="ll" if self.ring else "xy", bounds=True)
        self.kw = dict(x=np.array(self.xs, dtype=np.float32) * (1 if self.ring else 1000),
                       y=np.array(self.ys, dtype=np.float32) * (1 if self.ring else 1000), **kw)
        self.oc = C.grid(self.oro.astype(np.float32), **self.kw)
        self.lc = C.grid(self.land.astype(np.int8), **{**self.kw, "name": "land_binary_mask", "units": "1"}, dtype=np.int8)
        turn = rng.rand() < 0.3
        for c in (self.oc, self.lc):
            if self.ring:
                c.coord(axis="x").circular = True
            if turn:
                c.transpose()
            for k in ("time", "forecast_reference_time", "forecast_period"):
                c.remove_coord(k)

    def latlon(self):
        """Positions of the sites in degrees, and how they are listed."""
        own = self.rng.rand() < 0.4 and not self.ring
        self.crs = None
        pts = np.array(self.sites, dtype=float)
        if self.ring:
            ll = pts
        else:
            crs = C.LAEA.as_cartopy_crs()
            ll = ccrs.PlateCarree().transform_points(crs, pts[:, 0] * 1000, pts[:, 1] * 1000)[:, :2]
            if own:
                self.crs = crs
                if self.rng.rand() < 0.4 and len(self.xs) > 1 and len(self.ys) > 1:   # right on the edge of the domain
                    side = int(self.rng.randint(4))
                    c = (self.xs, self.ys)[side % 2]
                    h = abs(c[1] - c[0]) / 2
                    if h == int(h):
                        self.sites[-1][side % 2] = int(min(c) - h if side < 2 else max(c) + h)
                        pts = np.array(self.sites, dtype=float)
                        self.ll = ccrs.PlateCarree().transform_points(crs, pts[:, 0] * 1000, pts[:, 1] * 1000)[:, :2]
                        return
        self.ll = ll

    def sitelist(self):
        res = []
        for i, (x, y) in enumerate(self.sites):
            d = {"latitude": float(self.ll[i, 1]), "longitude": float(self.ll[i, 0])}
            if self.crs is not None:
                d = {"easting": x * 1000.0, "northing": y * 1000.0}
            if self.alt[i] != NONE:
                d["altitude"] = float(self.alt[i])
            elif self.rng.rand() < 0.5:
                d["altitude"] = None if self.rng.rand() < 0.5 else np.nan
            if self.wmo[i] != "None":
                d["wmo_id"] = int(self.wmo[i])
            elif self.rng.rand() < 0.5:
                d["wmo_id"] = None
            if self.uid and self.uid[i] != NONE:
                d["met_office_site_id"] = self.uid[i]
            res.append(d)
        return res

    def spec(self):
        return dict(xs=self.xs, ys=self.ys, ring=bool(self.ring), oro=self.oro.tolist(), land=self.land.tolist())

    def find(self, land, dz, sites=None, plugin=None):
        kw = {} if self.crs is None else dict(site_coordinate_system=self.crs, site_x_coordinate="easting", site_y_coordinate="northing")
        if self.uid:
            kw["unique_site_id_key"] = "met_office_site_id"
        p = NeighbourSelection(land_constraint=land, minimum_dz=dz, search_radius=self.r * 1000.0 - 1, node_limit=self.n, **kw)
        sites = self.sitelist() if sites is None else sites
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter("always")
            r = self.ctx.call(lambda: p(sites, self.oc, self.lc))
        self.warned = any("outside the grid domain" in str(x.message) for x in w)
        return r


def picks(nc, i=0):
    """The grid points (column, row) and displacements a neighbour cube holds."""
    d = nc.data[i]
    return [[int(v) for v in p] for p in np.rint(d[:2]).T], fx(d[2], 10)


def neighbour_event(s, g, land, dz):
    rng = g.rng
    g.uid = []
    if rng.rand() < 0.4:
        g.uid = [int(v) for v in rng.choice(9999, len(g.sites), replace=False) * int(rng.choice([1, 977, 9999])) + 1]
        how = rng.rand()
        if how < 0.12:
            g.uid[-1] = 123456789
        elif how < 0.24 and len(g.uid) > 1:
            g.uid[-1] = g.uid[0]
        elif how < 0.36:
            g.uid[-1] = NONE
    sites = g.sitelist()
    keep = [dict(x) for x in sites]
    r = g.find(land, dz, sites)
    inside = [i for i in range(len(g.sites)) if within(g, g.sites[i])]
    g.kept = inside
    uid = [g.uid[i] for i in inside] if g.uid else []
    base = dict(g=g.spec(), sites=g.sites, alt=g.alt, r=g.r, n=g.n, land=land, dz=dz, wmo=g.wmo, uid=uid,
                lat=fx(g.ll[:, 1], 1000), lon=fx(g.ll[:, 0], 1000), warned=g.warned, kept=repr(keep) == repr(sites))
    if isinstance(r, Failed):
        s.event("neighbours", out="error", err=r.text, **base)
        return None
    at, d = picks(r)
    meta = r.shape == (1, 3, len(at)) and r.dtype == np.float32 and r.units == "1" and r.name() == "grid_neighbours" and \
        list(r.coord("grid_attributes_key").points) == ["x_index", "y_index", "vertical_displacement"] and \
        r.attributes["model_grid_hash"] == create_coordinate_hash(g.oc) and list(r.coord("spot_index").points) == list(range(len(at)))
    guid = []
    if r.coords("met_office_site_id"):
        p = r.coord("met_office_site_id").points
        meta = meta and all(len(x) == 8 for x in p) and r.coord("met_office_site_id").attributes.get("unique_site_identifier") == "true"
        guid = [int(x) for x in p]
    s.event("neighbours", out="ok", at=at, gdz=d, galt=fx(r.coord("altitude").points, 10), gwmo=[str(x) for x in r.coord("wmo_id").points],
            glat=fx(r.coord("latitude").points, 1000), glon=fx(r.coord("longitude").points, 1000), guid=guid,
            method=str(r.coord("neighbour_selection_method_name").points[0]), meta=bool(meta), **base)
    return r


def within(g, p):
    h = lambda c: abs(c[1] - c[0]) / 2
    ok = lambda c, v: min(c) - h(c) <= v <= max(c) + h(c)
    return ok(g.ys, p[1]) and (g.ring or ok(g.xs, p[0]))


def sites_same(a, nc):
    return all(np.array_equal(a.coord(k).points, nc.coord(k).points) for k in ("wmo_id", "altitude", "latitude", "longitude"))


def extract_event(s, g, nc, method):
    rng = g.rng
    at, _ = picks(nc)
    ny, nx = g.oro.shape
    kinds = [(), (C.realization(2),), (C.percentiles([10, 50, 90]),), (C.realization(1),), "times", "both"]
    kind = kinds[int(rng.randint(len(kinds)))]
    n = 1
    lead = kind
    both = kind == "both"
    if both:
        kind = "times"
    if kind == "times":
        lead, n = (), 2
    elif kind:
        n = len(kind[0].points)
    v = rng.randint(2500, 3100, (n, ny, nx))
    kw = {**g.kw, "name": "air_temperature", "units": "K", "bounds": True}
    attrs = dict(C.ATTRS, mosg__grid_domain="uk", mosg__grid_type="standard", mosg__grid_version="1.3.0", mosg__model_configuration="uk_det")
    if kind == "times":
        cl = iris.cube.CubeList()
        for i in range(n):
            cl.append(C.grid(v[i].astype(np.float32) / 10, t=C.T0 + 3600 * i, attrs=attrs, **kw))
        cube = cl.merge_cube()
        if both:                                 # members, each with its name, at several times
            cl = iris.cube.CubeList()
            w = v
            v = np.concatenate([w, w[::-1] + 7])
            for i in range(2):
                c = cube.copy(data=v[2 * i:2 * i + 2].astype(np.float32) / 10)
                c.add_aux_coord(C.AuxCoord(np.int32(i), "realization", units="1"))
                c.add_aux_coord(C.AuxCoord("m%d" % i, long_name="member", units="no_unit"))
                cl.append(c)
            cube = cl.merge_cube()
            n = 4
    else:
        cube = C.grid((v if lead else v[0]).astype(np.float32) / 10, lead=lead, attrs=attrs, **kw)
    mask = rng.rand() < 0.3
    if mask:
        m = rng.rand(*cube.shape) < 0.3
        cube.data = np.ma.masked_array(cube.data, m)
    own = rng.randint(0, 50, (ny, nx))
    has_own = rng.rand() < 0.5
    if has_own:
        b = np.stack([own * 60, own * 60 + 3600], axis=-1) + C.T0
        cube.add_aux_coord(C.AuxCoord((own * 60 + C.T0 + 1800).astype(np.int64), long_name="local_time", units=C.TUNITS, bounds=b), (cube.ndim - 2, cube.ndim - 1))
    if g.ring:
        cube.coord(axis="x").circular = True
    cube.add_cell_method(C.CellMethod("maximum", coords="time"))
    if rng.rand() < 0.5:
        h = C.AuxCoord(np.array([1.5], dtype=np.float32), "height", units="m")
        if rng.rand() < 0.6:
            h.attributes["positive"] = "up"
        cube.add_aux_coord(h)
    scalars = [c.copy() for c in cube.coords() if cube.coord_dims(c) == ()]
    rec = [rows(x, 10) for x in cube.data.reshape((-1, ny, nx))]
    if rng.rand() < 0.5 and not has_own:
        order = list(range(cube.ndim))
        rng.shuffle(order)
        cube.transpose(order)
    title = None if rng.rand() < 0.5 else "New"
    p = SpotExtraction(neighbour_selection_method=method)
    r = g.ctx.call(lambda: p(nc, cube, new_title=title))
    if isinstance(r, Failed):
        s.event("extract", out="error", err=r.text, kind=str(kind)[:20])
        return None
    exp = dict(attrs)
    for k in [k for k in exp if k.startswith("mosg__grid")]:
        exp.pop(k)
    exp["title"] = title or "unknown"
    exp["model_grid_hash"] = nc.attributes["model_grid_hash"]
    lead_ok = r.coord("time") == cube.coord("time") and r.coord("forecast_reference_time") == cube.coord("forecast_reference_time") and \
        r.coord("forecast_period") == cube.coord("forecast_period") and r.dtype == np.float32 and r.units == "K" and r.name() == "air_temperature" and \
        r.cell_methods == cube.cell_methods
    if kind and kind != "times":
        lead_ok = lead_ok and r.coord(kind[0].name()) == cube.coord(kind[0].name()) and r.coord_dims(kind[0].name()) == (0,)
    if kind == "times":
        at0 = r.coord_dims("time")
        lead_ok = lead_ok and at0 == r.coord_dims("forecast_period") and len(at0) == 1
        if both:
            lead_ok = lead_ok and r.ndim == 3 and {at0, r.coord_dims("realization")} == {(0,), (1,)} and r.coord_dims("member") == r.coord_dims("realization") \
                and r.coord("member") == cube.coord("member") and r.coord("realization") == cube.coord("realization")
            if lead_ok and at0 == (0,):
                r.transpose([1, 0, 2])
        else:
            lead_ok = lead_ok and at0 == (0,)
    lead_ok = lead_ok and all(r.coords(c.name()) and r.coord(c.name()) == c for c in scalars)
    lead_ok = lead_ok and r.coord_dims("spot_index") == (r.ndim - 1,) and not r.coords(axis="x", dim_coords=True)
    gown = []
    if has_own:
        c = r.coord("local_time")
        gown = [int((x - C.T0 - 1800) // 60) for x in c.points]
        lead_ok = lead_ok and r.coord_dims(c) == (r.ndim - 1,) and np.array_equal(c.bounds[:, 0], c.points - 1800) and np.array_equal(c.bounds[:, 1], c.points + 1800)
    st = sites_same(r, nc)
    if nc.coords("met_office_site_id"):
        c = r.coord("met_office_site_id")
        st = st and "unique_site_identifier" not in c.attributes and list(c.points) == list(nc.coord("met_office_site_id").points)
    s.event("extract", out="ok", v=rec, at=at, got=rows(r.data.reshape((-1, r.shape[-1])), 10), lead=bool(lead_ok),
            aux=own.tolist() if has_own else [], own=gown, sites=bool(st), attrs={k: str(x) for k, x in r.attributes.items()} == {k: str(x) for k, x in exp.items()},
            kind=str(kind)[:20]) if has_own else \
        s.event("extract", out="ok", v=rec, at=at, got=rows(r.data.reshape((-1, r.shape[-1])), 10), lead=bool(lead_ok),
                aux=np.zeros((ny, nx), dtype=int).tolist(), own=[0] * len(at), sites=bool(st),
                attrs={k: str(x) for k, x in r.attributes.items()} == {k: str(x) for k, x in exp.items()}, kind=str(kind)[:20])
    other = cube.copy()
    c = other.coord(axis="x")
    pts = c.points.copy()
    pts[-1] += 1
    try:
        other.coord(axis="x").bounds = None
        other.coord(axis="x").points = pts
    except ValueError:
        return r
    s.event("rejected", why="another_grid", out=out(g.ctx.call(lambda: p(nc, other))))
    s.event("rejected", why="unknown_method", out=out(g.ctx.call(lambda: SpotExtraction(neighbour_selection_method="nearest_sea")(nc, cube))))
    return r


def spot_cube(g, nc, data, name, units, lead=(), grid_hash=True):
    c = C.grid(data, name=name, units=units, lead=lead, space="spot", alt=nc.coord("altitude").points,
               lat=nc.coord("latitude").points, lon=nc.coord("longitude").points, ids=nc.coord("wmo_id").points)
    if grid_hash:
        c.attributes["model_grid_hash"] = nc.attributes["model_grid_hash"]
    return c


def lapse_event(s, g, nc, method):
    rng = g.rng
    at, dz = picks(nc)
    k = len(at)
    lead = (C.percentiles([25, 50, 75]),) if rng.rand() < 0.5 else ()
    n = 3 if lead else 1
    v = rng.randint(26000, 30000, (n, k))
    nm = "air_temperature" if rng.rand() < 0.7 else "feels_like_temperature"
    cube = spot_cube(g, nc, (v if lead else v[0]).astype(np.float32) / 100, nm, "K", lead)
    height = C.AuxCoord(np.array([1.5], dtype=np.float32), "height", units="m")
    cube.add_aux_coord(height)
    fixed = int(rng.randint(-100, 60)) if rng.rand() < 0.4 else NONE
    lr = rng.randint(-100, 100, g.oro.shape)
    lrc = C.grid(lr.astype(np.float32) / 10000, **{**g.kw, "name": "air_temperature_lapse_rate", "units": "K m-1"})
    gaps = rng.rand() < 0.25                     # lapse rates known only in places
    if gaps:
        d = lrc.data.copy()
        d[rng.rand(*d.shape) < 0.4] = np.nan
        lrc.data = d
        lr = np.where(np.isnan(d), fx([np.nan], 1)[0], lr)
    lrc.add_aux_coord(height)
    if g.ring:
        lrc.coord(axis="x").circular = True
    if rng.rand() < 0.3:
        lrc.transpose()
    c0, n0 = cube.copy(), nc.copy()
    if fixed != NONE:
        p, args = SpotLapseRateAdjust(method, fixed_lapse_rate=fixed / 10000), (cube, nc)
    else:
        p, args = SpotLapseRateAdjust(method), (cube, nc, lrc)
    r = g.ctx.call(lambda: p(*args))
    base = dict(v=v.tolist(), at=at, dz=dz, fixed=fixed, grid=lr.tolist(), same=cube == c0 and nc == n0)
    if isinstance(r, Failed):
        s.event("lapse", out="error", err=r.text, **base)
        return
    q = r.copy(data=cube.data)
    q.attributes = cube.attributes
    meta = q == cube and C.attrs_post(cube.attributes, r.attributes) and r.dtype == np.float32
    s.event("lapse", out="ok", got=rows(r.data if lead else r.data[None], 1000), meta=bool(meta), **base)
    bad = cube.copy()
    bad.rename("relative_humidity")
    s.event("rejected", why="not_a_temperature", out=out(g.ctx.call(lambda: p(bad, *args[1:]))))
    s.event("rejected", why="no_lapse_rate", out=out(g.ctx.call(lambda: SpotLapseRateAdjust(method)(cube, nc))))
    s.event("rejected", why="two_lapse_rates", out=out(g.ctx.call(lambda: SpotLapseRateAdjust(method, fixed_lapse_rate=0.0)(cube, nc, lrc))))
    bad = cube.copy()
    bad.attributes["model_grid_hash"] = "other"
    s.event("rejected", why="another_grid", out=out(g.ctx.call(lambda: p(bad, *args[1:]))))
    if fixed == NONE:
        bad = lrc.copy()
        bad.coord("height").points = np.array([10.0], dtype=np.float32)
        if rng.rand() < 0.5:
            bad.coord("height").points = np.array([1.5], dtype=np.float32)
            bad.coord("height").units = "km"
        s.event("rejected", why="lapse_rate_elsewhere", out=out(g.ctx.call(lambda: p(cube, nc, bad))))


def height_event(s, g, nc, method):
    rng = g.rng
    at, dz = picks(nc)
    k = len(at)
    p = SpotHeightAdjustment(neighbour_selection_method=method)
    u, f = [("m", 1.0), ("km", 1000.0), ("ft", 0.3048)][int(rng.randint(3))]
    if rng.rand() < 0.6:
        nt = int(rng.randint(2, 5))
        t = sorted(int(x) * 10 for x in rng.choice(np.arange(0, 40), nt, replace=False))
        up = rng.rand() < 0.5
        pr = np.sort(rng.randint(0, 11, (k, nt)), axis=1)
        if not up:
            pr = pr[:, ::-1]
        lead = (C.realization(2),) if rng.rand() < 0.3 else ()
        n = 2 if lead else 1
        pr2 = np.sort(rng.randint(0, 11, (n - 1, k, nt)), axis=2) if n > 1 else np.zeros((0, k, nt), dtype=int)
        if not up:
            pr2 = pr2[..., ::-1]
        allp = np.concatenate([pr[None], pr2])  # member, site, threshold
        d = allp.transpose((0, 2, 1)) / 10
        cube = C.prob((d if lead else d[0]).astype(np.float32), [x / f for x in t], name="visibility_level", units=u,
                      relative="less_than" if up else "greater_than", lead=lead, lead_first=True, space="spot",
                      ids=nc.coord("wmo_id").points)
        if rng.rand() < 0.3 and not lead:
            cube.transpose()
        c0 = cube.copy()
        r = g.ctx.call(lambda: p(cube, nc))
        base = dict(t=[10 * x for x in t], dz=dz * n, p=allp.reshape((n * k, nt)).tolist())
        if isinstance(r, Failed):
            s.event("levels", out="error", err=r.text, **base)
            return
        want = [c.name() for c in c0.coords(dim_coords=True)]
        meta = [c.name() for c in r.coords(dim_coords=True)] == want and r.dtype == np.float32 and r.shape == c0.shape and \
            r.name() == c0.name() and r.coord(var_name="threshold") == c0.coord(var_name="threshold") and r.coord("time") == c0.coord("time")
        q = r.copy()
        tn = q.coord(var_name="threshold").name()
        from improver.utilities.cube_manipulation import enforce_coordinate_ordering
        enforce_coordinate_ordering(q, ["realization", "spot_index", tn])
        s.event("levels", out="ok", got=rows(q.data.reshape((n * k, nt)) * 10, 1000), meta=bool(meta), **base)
        one = c0.extract(iris.Constraint(coord_values={tn: lambda x: np.isclose(x.point, t[0] / f)}))
        s.event("rejected", why="one_threshold", out=out(g.ctx.call(lambda: p(one, nc))))
    else:
        lead = ((C.percentiles([25, 75]),), (C.realization(3),), ())[int(rng.randint(3))]
        n = len(lead[0].points) if lead else 1
        v = rng.randint(0, 3000, (n, k))
        cube = C.grid(((v if lead else v[0]) / f).astype(np.float32), name="cloud_base_altitude", units=u, lead=lead, space="spot", ids=nc.coord("wmo_id").points)
        c0 = cube.copy()
        r = g.ctx.call(lambda: p(cube, nc))
        if isinstance(r, Failed):
            s.event("heights", out="error", err=r.text, dz=dz)
            return
        meta = r.units == u and r.dtype == np.float32 and r.copy(data=c0.data) == c0
        q = r.data if r.ndim == 2 else r.data[None]
        s.event("heights", out="ok", v=v.tolist(), dz=dz, got=rows(q.astype(float) * f, 10), meta=bool(meta))


def manipulate_event(s, g, nc, land, dzc):
    rng = g.rng
    at, dz = picks(nc)
    ny, nx = g.oro.shape
    ps = [20, 40, 60, 80]
    kind = int(rng.randint(3))
    n = 4 if kind else 1
    lead = ((), (C.percentiles(ps),), (C.realization(4),))[kind]
    v = np.sort(rng.randint(26000, 30000, (n, ny, nx)), axis=0)
    cube = C.grid((v if lead else v[0]).astype(np.float32) / 100, lead=lead, **{**g.kw, "name": "air_temperature", "units": "K"})
    cube.add_aux_coord(C.AuxCoord(np.array([1.5], dtype=np.float32), "height", units="m"))
    if g.ring:
        cube.coord(axis="x").circular = True
    kw, want, lapse = {}, list(range(1, n + 1)), NONE
    scalar = False
    if kind == 1 and rng.rand() < 0.6:
        sel = sorted(int(x) for x in rng.choice(4, int(rng.randint(1, 4)), replace=False))
        kw["extract_percentiles"] = [ps[i] for i in sel]
        want = [i + 1 for i in sel]
        if len(sel) == 1 and rng.rand() < 0.5:
            kw["extract_percentiles"] = float(ps[sel[0]]) if rng.rand() < 0.5 else ps[sel[0]]
            scalar = True
    cubes = [cube]
    if rng.rand() < 0.6:
        lapse = int(rng.randint(-100, 50))
        kw["apply_lapse_rate_correction"] = True
        if rng.rand() < 0.5:
            kw["fixed_lapse_rate"] = lapse / 10000
        else:
            lr = C.grid(np.full((ny, nx), lapse / 10000, dtype=np.float32), **{**g.kw, "name": "air_temperature_lapse_rate", "units": "K m-1"})
            lr.add_aux_coord(C.AuxCoord(np.array([1.5], dtype=np.float32), "height", units="m"))
            if g.ring:
                lr.coord(axis="x").circular = True
            cubes.append(lr)
    title = None if rng.rand() < 0.5 else "Spots"
    p = SpotManipulation(land_constraint=land, similar_altitude=dzc, new_title=title, suppress_warnings=True, **kw)
    r = g.ctx.call(lambda: p(iris.cube.CubeList(cubes + [nc])))
    base = dict(v=v.tolist() and [(x).tolist() for x in v], at=at, dz=dz, lapse=lapse, want=want, scalar=scalar, kind=kind)
    if isinstance(r, Failed):
        s.event("manipulate", out="error", err=r.text, **base)
        return
    meta = "model_grid_hash" not in r.attributes and r.attributes["title"] == (("Post-Processed " * (lapse != NONE) + title) if title else "unknown") and sites_same(r, nc)
    if kind == 1:
        meta = meta and fx(r.coord("percentile").points, 1) == [ps[i - 1] for i in want]
    s.event("manipulate", out="ok", got=rows(r.data if r.ndim == 2 else r.data[None], 1000), meta=bool(meta), **base)
    # subsetting an existing spot forecast
    have = [str(x) for x in nc.coord("wmo_id").points] + ["00007", "None", "00005"]
    v = rng.randint(0, 500, len(have))
    sc = C.grid(v.astype(np.float32), name="air_temperature", units="K", space="spot", ids=have)
    r = g.ctx.call(lambda: SpotManipulation(subset_coord="wmo_id")(iris.cube.CubeList([sc, nc])))
    want = [str(x) for x in nc.coord("wmo_id").points]
    if isinstance(r, Failed):
        s.event("subset", out="error", err=r.text, have=have, want=want)
    else:
        s.event("subset", out="ok", have=have, want=want, v=v.tolist(), ids=[str(x) for x in np.atleast_1d(r.coord("wmo_id").points)], got=fx(np.atleast_1d(r.data), 10))
    s.event("rejected", why="lapse_rate_on_a_subset", out=out(g.ctx.call(lambda: SpotManipulation(apply_lapse_rate_correction=True)(iris.cube.CubeList([sc, nc])))))
    s.event("rejected", why="subset_by_missing_ids", out=out(g.ctx.call(lambda: SpotManipulation(subset_coord="none_such")(iris.cube.CubeList([sc, nc])))))


def session(ctx, case):
    rng = ctx.rng
    g = Grid(ctx, case)
    if not any(within(g, p) for p in g.sites):
        return
    land, dz = [bool(x) for x in rng.rand(2) < 0.5]
    with ctx.session("spots") as s:
        if case is not None:
            for lc in (False, True):
                for d in (False, True):
                    neighbour_event(s, g, lc, d)
            return
        nc = neighbour_event(s, g, land, dz)
        if nc is None:
            return
        method = str(nc.coord("neighbour_selection_method_name").points[0])
        extract_event(s, g, nc, method)
        lapse_event(s, g, nc, method)
        height_event(s, g, nc, method)
        manipulate_event(s, g, nc, land, dz)
        if rng.rand() < 0.3:
            all_methods(s, g)


def all_methods(s, g):
    from improver.cli import neighbour_finding
    fn = neighbour_finding.process
    g.uid, g.crs = [], None
    sites = g.sitelist()
    fn = getattr(fn, "__wrapped__", fn)
    fn = getattr(fn, "__wrapped__", fn)
    r = g.ctx.call(lambda: fn(g.oc, g.lc, sites, all_methods=True, search_radius=g.r * 1000.0 - 1, node_limit=g.n))
    if isinstance(r, Failed):
        s.event("methods", out="error", err=r.text)
        return
    alone = []
    for land, dz in ((False, False), (True, False), (False, True), (True, True)):
        q = g.find(land, dz, sites)
        at, d = picks(q)
        alone.append([at, d])
    one = r.ndim == 2
    if one:
        names = [c.name() for c in r.coords(dim_coords=True)]
    else:
        names = [c.name() for c in r.coords(dim_coords=True)]
    data = r.data if r.ndim == 3 else r.data[..., None]
    ats = [[[[int(v) for v in p] for p in np.rint(x[:2]).T], fx(x[2], 10)] for x in data]
    order = names[:2] == ["neighbour_selection_method", "grid_attributes"] and list(r.coord("neighbour_selection_method").points) == [0, 1, 2, 3]
    s.event("methods", out="ok", ats=ats, alone=alone, order=bool(order), names=[str(x) for x in r.coord("neighbour_selection_method_name").points])
    try:
        s.event("rejected", why="all_methods_with_a_constraint", out=out(g.ctx.call(lambda: fn(g.oc, g.lc, sites, all_methods=True, land_constraint=True))))
    except Exception:
        raise


def drive(ctx):
    n = 1200 if ctx.thorough else 50
    for case in ctx.pick([c for c in ctx.cases if "site" in c], n):
        session(ctx, case)
    for _ in range(2 * n):
        session(ctx, None)
