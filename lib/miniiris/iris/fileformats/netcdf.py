"""CF-netCDF save and load through netCDF4 (a compact stand-in for iris' own)."""
import re
import warnings

import cf_units
import netCDF4
import numpy as np

import iris.coord_systems as ics
import iris.coords
from iris._base import STD_NAMES

_GLOBAL_DEFAULT = ("conventions", "featureType", "history", "title")
_SKIP = {
    "standard_name", "long_name", "units", "calendar", "bounds", "axis", "coordinates",
    "grid_mapping", "cell_methods", "_FillValue", "missing_value", "climatology",
    "ancillary_variables", "cell_measures", "scale_factor", "add_offset", "circular",
}


def _var_name(obj, default="unknown"):
    name = obj.var_name or obj.standard_name or obj.long_name or default
    name = re.sub(r"[^a-zA-Z0-9]", "_", name) if obj.var_name is None else name
    return name


def _units_str(unit):
    return str(unit)


def _set_attrs(var, obj, attrs):
    if obj.standard_name:
        var.setncattr("standard_name", obj.standard_name)
    if obj.long_name:
        var.setncattr("long_name", obj.long_name)
    if not obj.units.is_unknown() and not obj.units.is_no_unit():
        var.setncattr("units", _units_str(obj.units))
        if obj.units.calendar:
            var.setncattr("calendar", obj.units.calendar)
    elif obj.units.is_no_unit():
        var.setncattr("units", "no_unit")
    for k, v in attrs.items():
        var.setncattr(k, v)


def _cm_str(m):
    """CF encoding of a cell method: "coord: method (interval: .. comment: ..)"."""
    text = "".join("%s: " % c for c in m.coord_names) + m.method
    extra = ["interval: " + i for i in m.intervals] + ["comment: " + c for c in m.comments]
    return text + (" (%s)" % " ".join(extra) if extra else "")


class _Writer:
    def __init__(self, ds):
        self.ds = ds
        self.coord_vars = []  # (coord, varname)
        self.mappings = []
        self.dims = []

    def unique(self, name):
        base, i = name, 0
        while name in self.ds.variables or name in self.ds.dimensions:
            name = "%s_%d" % (base, i)
            i += 1
        return name

    def coord(self, coord, dimnames, as_dim=None):
        for c, n in self.coord_vars:
            v = self.ds.variables[n]
            if c == coord and type(c) is type(coord) and self._dims_of(v, c) == tuple(dimnames):
                return n
        name = as_dim if as_dim else self.unique(_var_name(coord))
        pts = coord.points
        if pts.dtype.kind in "SU":
            length = max(len(str(p)) for p in pts.flat) or 1
            dim = "string%d" % length
            if dim not in self.ds.dimensions:
                self.ds.createDimension(dim, length)
            dn = tuple(dimnames) if (dimnames or coord.shape != (1,)) else ()
            v = self.ds.createVariable(name, "S1", dn + (dim,))
            arr = np.array([list(str(p).encode("utf8").ljust(length, b"\0")) for p in pts.flat],
                           dtype=np.uint8).view("S1").reshape(pts.shape + (length,))
            v[:] = arr.reshape(v.shape)
        else:
            dn = tuple(dimnames)
            v = self.ds.createVariable(name, pts.dtype, dn)
            v[...] = pts.reshape(v.shape)
            if coord.has_bounds():
                n = coord.nbounds
                if "bnds" not in self.ds.dimensions and n == 2:
                    self.ds.createDimension("bnds", 2)
                bdim = "bnds" if n == 2 else "bnds_%d" % n
                if bdim not in self.ds.dimensions:
                    self.ds.createDimension(bdim, n)
                bname = self.unique(name + "_bnds")
                b = self.ds.createVariable(bname, coord.bounds.dtype, dn + (bdim,))
                b[...] = coord.bounds.reshape(b.shape)
                v.setncattr("bounds", bname)
        axis = iris.util.guess_coord_axis(coord)
        if axis and as_dim:
            v.setncattr("axis", axis)
        _set_attrs(v, coord, coord.attributes)
        if coord.var_name is None and False:
            pass
        if getattr(coord, "circular", False):
            v.setncattr("circular", 1)
        self.coord_vars.append((coord, name))
        return name

    def _dims_of(self, v, coord):
        d = v.dimensions
        if coord.points.dtype.kind in "SU":
            d = d[:-1]
        return tuple(d)

    def mapping(self, cs):
        for c, n in self.mappings:
            if c == cs:
                return n
        name = self.unique(cs.grid_mapping_name)
        v = self.ds.createVariable(name, "i4")
        v.setncattr("grid_mapping_name", cs.grid_mapping_name)
        ell = cs if isinstance(cs, ics.GeogCS) else getattr(cs, "ellipsoid", None)
        if ell is not None:
            v.setncattr("longitude_of_prime_meridian", ell.longitude_of_prime_meridian)
            if ell.semi_major_axis == ell.semi_minor_axis:
                v.setncattr("earth_radius", ell.semi_major_axis)
            else:
                v.setncattr("semi_major_axis", ell.semi_major_axis)
                v.setncattr("semi_minor_axis", ell.semi_minor_axis)
        for k, val in cs.__dict__.items():
            if k != "ellipsoid" and not isinstance(cs, ics.GeogCS):
                v.setncattr(k, val)
        self.mappings.append((cs, name))
        return name


def save(cube, filename, netcdf_format="NETCDF4", local_keys=None, unlimited_dimensions=None,
         zlib=False, complevel=4, shuffle=True, fletcher32=False, contiguous=False,
         chunksizes=None, endian="native", least_significant_digit=None, packing=None,
         fill_value=None):
    from iris.cube import Cube

    cubes = [cube] if isinstance(cube, Cube) else list(cube)
    local_keys = set(local_keys or ())
    first = cubes[0]
    keys = set(first.attributes)
    for c in cubes[1:]:
        keys &= set(c.attributes)
        keys = {k for k in keys if np.all(c.attributes[k] == first.attributes[k])}
    global_keys = keys - local_keys
    ds = netCDF4.Dataset(filename, "w", format=netcdf_format)
    try:
        w = _Writer(ds)
        for c in cubes:
            dimnames = []
            for d in range(c.ndim):
                cs = c.coords(dimensions=d, dim_coords=True)
                if cs:
                    base = _var_name(cs[0])
                    existing = [n for k, n in w.coord_vars if k == cs[0]
                                and n in ds.dimensions]
                    if existing:
                        dimnames.append(existing[0])
                        continue
                    name = w.unique(base)
                    ds.createDimension(name, c.shape[d])
                    w.coord(cs[0], (name,), as_dim=name)
                    dimnames.append(name)
                else:
                    i = 0
                    while True:
                        name = "dim%d" % d if i == 0 else "dim%d_%d" % (d, i)
                        if name in ds.dimensions and (
                            len(ds.dimensions[name]) != c.shape[d] or name in dimnames
                        ):
                            i += 1
                            continue
                        break
                    if name not in ds.dimensions:
                        ds.createDimension(name, c.shape[d])
                    dimnames.append(name)
            aux = []
            for a in c.aux_coords:
                aux.append(w.coord(a, tuple(dimnames[d] for d in c.coord_dims(a))))
            name = w.unique(_var_name(c))
            data = c.data
            fill = None
            if np.ma.isMaskedArray(data):
                fill = netCDF4.default_fillvals[data.dtype.str[1:]]
            if data.dtype.kind == "U":
                raise ValueError("string cubes unsupported")
            dt = data.dtype
            if dt == bool:
                dt = np.dtype("i1")
            kw = dict(zlib=zlib, complevel=complevel, shuffle=shuffle,
                      least_significant_digit=least_significant_digit)
            if chunksizes is not None and len(chunksizes) == c.ndim and c.ndim:
                kw["chunksizes"] = tuple(chunksizes)
            if not c.ndim:
                kw = {}
            v = ds.createVariable(name, dt, tuple(dimnames), fill_value=fill, **kw)
            attrs = {k: val for k, val in c.attributes.items() if k not in global_keys}
            if "STASH" in attrs:
                attrs["um_stash_source"] = str(attrs.pop("STASH"))
            _set_attrs(v, c, attrs)
            v[...] = data
            if aux:
                v.setncattr("coordinates", " ".join(sorted(aux)))
            if c.cell_methods:
                v.setncattr("cell_methods", " ".join(_cm_str(m) for m in c.cell_methods))
            cs = c.coord_system()
            if cs is not None:
                v.setncattr("grid_mapping", w.mapping(cs))
            ancs = []
            for av, dims in c._ancillary:
                n = w.unique(_var_name(av))
                x = ds.createVariable(n, av.data.dtype, tuple(dimnames[d] for d in dims))
                _set_attrs(x, av, av.attributes)
                x[...] = av.data.reshape(x.shape)
                ancs.append(n)
            if ancs:
                v.setncattr("ancillary_variables", " ".join(ancs))
        for k in sorted(global_keys):
            ds.setncattr(k, first.attributes[k])
        ds.setncattr("Conventions", "CF-1.7")
    finally:
        ds.close()


_CM = re.compile(r"((?:\w+: )+)(\w+(?: \w+)*?)(?=\s+\w+: |\s*\(|$)(?:\s*\(([^)]*)\))?")


def parse_cell_methods(text):
    out = []
    for names, method, extra in _CM.findall(text):
        intervals, comments = [], []
        for bit in re.split(r"(?=interval: |comment: )", extra):
            bit = bit.strip()
            if bit.startswith("interval: "):
                intervals.append(bit[10:])
            elif bit.startswith("comment: "):
                comments.append(bit[9:])
        out.append(iris.coords.CellMethod(
            method, coords=names.replace(":", "").split(), intervals=intervals or None,
            comments=comments or None))
    return tuple(out)


def _attrs(var):
    return {k: var.getncattr(k) for k in var.ncattrs() if k not in _SKIP}


def _unit(var):
    if "units" not in var.ncattrs():
        return cf_units.Unit("unknown")
    u = var.getncattr("units")
    cal = var.getncattr("calendar") if "calendar" in var.ncattrs() else None
    try:
        if cal or " since " in u:
            return cf_units.Unit(u, calendar=cal or "gregorian")
        return cf_units.Unit(u)
    except ValueError:
        warnings.warn("Ignoring invalid units %r" % u)
        return cf_units.Unit("unknown")


def _names(var):
    std = var.getncattr("standard_name") if "standard_name" in var.ncattrs() else None
    lng = var.getncattr("long_name") if "long_name" in var.ncattrs() else None
    if std is not None and std not in STD_NAMES:
        lng = lng or std
        std = None
    return std, lng


def _string(var):
    data = np.ma.filled(var[...], b"\0") if np.ma.isMaskedArray(var[...]) else var[...]
    arr = np.asarray(data)
    lead = arr.shape[:-1]
    flat = arr.reshape(-1, arr.shape[-1])
    vals = [b"".join(bytes(c) if c else b"\0" for c in row).split(b"\0")[0].decode("utf8").rstrip()
            for row in flat]
    return np.array(vals).reshape(lead if lead else (1,))


def _cs(ds, var):
    if "grid_mapping" not in var.ncattrs():
        return None
    name = var.getncattr("grid_mapping")
    if name not in ds.variables:
        return None
    m = ds.variables[name]
    a = {k: m.getncattr(k) for k in m.ncattrs()}
    ell = None
    if "earth_radius" in a:
        ell = ics.GeogCS(a["earth_radius"],
                         longitude_of_prime_meridian=a.get("longitude_of_prime_meridian"))
    elif "semi_major_axis" in a:
        ell = ics.GeogCS(a["semi_major_axis"], a.get("semi_minor_axis"),
                         longitude_of_prime_meridian=a.get("longitude_of_prime_meridian")) \
            if "semi_minor_axis" in a else ics.GeogCS(
                a["semi_major_axis"], inverse_flattening=a.get("inverse_flattening"))
    kind = a.get("grid_mapping_name")
    if kind == "latitude_longitude":
        return ell
    if kind == "lambert_azimuthal_equal_area":
        return ics.LambertAzimuthalEqualArea(
            a.get("latitude_of_projection_origin", 0), a.get("longitude_of_projection_origin", 0),
            a.get("false_easting", 0), a.get("false_northing", 0), ell)
    if kind == "transverse_mercator":
        return ics.TransverseMercator(
            a["latitude_of_projection_origin"],
            a.get("longitude_of_central_meridian", a.get("longitude_of_projection_origin")),
            a.get("false_easting", 0), a.get("false_northing", 0),
            a.get("scale_factor_at_central_meridian", 1), ell)
    if kind == "rotated_latitude_longitude":
        return ics.RotatedGeogCS(a["grid_north_pole_latitude"], a["grid_north_pole_longitude"],
                                 a.get("north_pole_grid_longitude", 0), ell)
    return None


_XY = {"projection_x_coordinate", "projection_y_coordinate", "latitude", "longitude",
       "grid_latitude", "grid_longitude"}


def load_cubes(filename, callback=None):
    from iris.cube import Cube, CubeList

    out = CubeList()
    ds = netCDF4.Dataset(filename, "r")
    try:
        ds.set_auto_maskandscale(True)
        refs = set()
        for n, v in ds.variables.items():
            for key in ("bounds", "coordinates", "grid_mapping", "ancillary_variables"):
                if key in v.ncattrs():
                    refs.update(str(v.getncattr(key)).split())
        for n, v in ds.variables.items():
            if n in refs or n in ds.dimensions:
                continue
            if v.dtype.kind == "S" and v.ndim and v.dimensions[-1].startswith("string"):
                continue
            out.append(_load_one(ds, n, v, Cube))
    finally:
        ds.close()
    return out


def _load_array(var):
    data = var[...]
    if np.ma.isMaskedArray(data) and not np.ma.is_masked(data) \
            and "_FillValue" not in var.ncattrs():
        data = np.ma.getdata(data)
    return np.asanyarray(data).reshape(var.shape)


def _load_one(ds, name, v, Cube):
    data = _load_array(v)
    if np.ma.isMaskedArray(data) and not np.ma.is_masked(data) and "_FillValue" not in v.ncattrs():
        data = np.ma.getdata(data)
    std, lng = _names(v)
    attrs = {k: ds.getncattr(k) for k in ds.ncattrs()}
    attrs.update(_attrs(v))
    attrs.pop("um_stash_source", None)
    cube = Cube(data, standard_name=std, long_name=lng, var_name=name, units=_unit(v),
                attributes=attrs)
    cube._filename = ds.filepath()
    if "cell_methods" in v.ncattrs():
        cube.cell_methods = parse_cell_methods(v.getncattr("cell_methods"))
    cs = _cs(ds, v)
    dims = v.dimensions

    def build(cv, n, dim_ok):
        s, l = _names(cv)
        if cv.dtype.kind == "S" or cv.dtype == str:
            pts = _string(cv)
            cd = cv.dimensions[:-1]
            b = None
        else:
            pts = np.ma.getdata(cv[...]) if not np.ma.is_masked(cv[...]) else cv[...]
            pts = np.asanyarray(pts)
            cd = cv.dimensions
            b = None
            if "bounds" in cv.ncattrs() and cv.getncattr("bounds") in ds.variables:
                b = np.ma.getdata(ds.variables[cv.getncattr("bounds")][...])
                if not cd:
                    b = np.asarray(b).reshape(1, -1)
            if not cd:
                pts = np.asarray(pts).reshape(1)
        kw = dict(standard_name=s, long_name=l, var_name=n, units=_unit(cv), bounds=b,
                  attributes={k: val for k, val in _attrs(cv).items()},
                  coord_system=cs if (s in _XY) else None)
        if isinstance(cs, ics.GeogCS) is False and cs is not None and s in (
                "latitude", "longitude"):
            kw["coord_system"] = None
        if isinstance(cs, ics.GeogCS) and s and s.startswith("projection_"):
            kw["coord_system"] = None
        if np.asarray(pts).dtype.kind not in "SU" and len(cd) <= 1 and (dim_ok or not cd):
            try:
                return iris.coords.DimCoord(
                    pts, circular=bool("circular" in cv.ncattrs()), **kw), cd
            except (ValueError, TypeError):
                pass
        return iris.coords.AuxCoord(pts, **kw), cd

    for i, d in enumerate(dims):
        if d in ds.variables:
            c, _ = build(ds.variables[d], d, True)
            if isinstance(c, iris.coords.DimCoord):
                cube.add_dim_coord(c, i)
            else:
                cube.add_aux_coord(c, i)
    if "coordinates" in v.ncattrs():
        for n in str(v.getncattr("coordinates")).split():
            if n in ds.variables:
                c, cd = build(ds.variables[n], n, False)
                cube.add_aux_coord(c, tuple(dims.index(x) for x in cd))
    if "ancillary_variables" in v.ncattrs():
        for n in str(v.getncattr("ancillary_variables")).split():
            if n in ds.variables:
                a = ds.variables[n]
                s, l = _names(a)
                cube.add_ancillary_variable(
                    iris.coords.AncillaryVariable(
                        np.asanyarray(a[...]), standard_name=s, long_name=l, var_name=n,
                        units=_unit(a), attributes=_attrs(a)),
                    tuple(dims.index(x) for x in a.dimensions))
    return cube
