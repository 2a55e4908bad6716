"""Concatenation along one shared dimension coordinate."""
import numpy as np

import iris.exceptions
from iris._base import array_equal, attributes_equal


def _sig(cube):
    return (
        cube.standard_name, cube.long_name, cube.var_name, str(cube.units), cube.ndim,
        tuple(str(m) for m in cube.cell_methods), str(cube.dtype),
    )


def _compatible(a, b):
    """Return (dim, msg): the dimension along which a and b may be joined."""
    msgs = []
    if a.name() != b.name():
        msgs.append("Cube names differ: {} != {}".format(a.name(), b.name()))
    if not attributes_equal(a.attributes, b.attributes):
        msgs.append("Cube metadata differs for phenomenon: %s" % a.name())
    elif a.metadata != b.metadata:
        msgs.append("Cube metadata differs for phenomenon: %s" % a.name())
    if msgs:
        return None, msgs
    if a.ndim != b.ndim:
        return None, ["Data dimensions differ: %d != %d" % (a.ndim, b.ndim)]
    if a.dtype != b.dtype:
        return None, ["Datatypes differ: %s != %s" % (a.dtype, b.dtype)]
    ca = {c.name(): c for c in a.dim_coords}
    cb = {c.name(): c for c in b.dim_coords}
    if set(ca) != set(cb) or any(
        not a._same_defn(ca[n], cb[n]) or a.coord_dims(ca[n]) != b.coord_dims(cb[n]) for n in ca
    ):
        return None, ["Dimension coordinates metadata differ: %s != %s"
                      % (", ".join(sorted(ca)), ", ".join(sorted(cb)))]
    diff = [n for n in ca if not (
        array_equal(ca[n].points, cb[n].points)
        and ca[n].has_bounds() == cb[n].has_bounds()
        and (not ca[n].has_bounds() or array_equal(ca[n].bounds, cb[n].bounds)))]
    anon = [d for d in range(a.ndim) if not a.coords(dimensions=d, dim_coords=True)]
    dims = [a.coord_dims(ca[n])[0] for n in diff]
    dims += [d for d in anon if a.shape[d] != b.shape[d]]
    if len(dims) != 1:
        return None, ["Cannot find an axis to concatenate over for phenomenon %s" % a.name()
                      if not dims else "Expected only a single axis to differ"]
    dim = dims[0]
    xa = sorted(a.aux_coords, key=lambda c: c.name())
    xb = sorted(b.aux_coords, key=lambda c: c.name())
    if [c.name() for c in xa] != [c.name() for c in xb]:
        na, nb = [c.name() for c in xa], [c.name() for c in xb]
        return None, ["Auxiliary coordinates metadata differ: %s != %s"
                      % (", ".join(na), ", ".join(nb))]
    for p, q in zip(xa, xb):
        if a.coord_dims(p) != b.coord_dims(q):
            return None, ["Auxiliary coordinate dims differ: %s" % p.name()]
        if not a._same_defn(p, q) or (p.dtype.kind != q.dtype.kind):
            return None, ["Auxiliary coordinates metadata differ: %s" % p.name()]
        if not a.coord_dims(p):
            if p != q:
                return None, ["Scalar coordinates values or metadata differ: %s != %s"
                              % (p.name(), q.name())]
        elif dim not in a.coord_dims(p):
            if not array_equal(p.points, q.points):
                return None, ["Auxiliary coordinates values differ: %s" % p.name()]
    shape_ok = all(i == dim or x == y for i, (x, y) in enumerate(zip(a.shape, b.shape)))
    if not shape_ok:
        return None, ["shapes differ"]
    return dim, []


def _join(cubes, dim):
    from iris.coords import DimCoord
    from iris.cube import Cube

    first = cubes[0]
    dimc = first.coords(dimensions=dim, dim_coords=True)
    if dimc:
        name = dimc[0]
        cs = [c.coord(name) for c in cubes]

        def key(i):
            return cs[i].points[0]

        order = sorted(range(len(cubes)), key=key)
        decreasing = any(len(c.points) > 1 and c.points[0] > c.points[-1] for c in cs)
        if decreasing:
            order = order[::-1]
        cubes = [cubes[i] for i in order]
    data = [c.data for c in cubes]
    if any(np.ma.isMaskedArray(d) for d in data):
        joined = np.ma.concatenate(data, axis=dim)
    else:
        joined = np.concatenate(data, axis=dim)
    new = Cube(joined)
    new.metadata = first.metadata
    for c in first.dim_coords + first.aux_coords:
        dims = first.coord_dims(c)
        is_dim = any(c is x for x in first.dim_coords)
        if dim in dims:
            ax = dims.index(dim)
            parts = [cube.coord(c) for cube in cubes]
            pts = np.concatenate([p.points for p in parts], axis=ax)
            bnds = None
            if c.has_bounds():
                bnds = np.concatenate([p.bounds for p in parts], axis=ax)
            nc = c.copy()
            nc._points = nc._bounds = None
            nc.points = pts
            nc.bounds = bnds
        else:
            nc = c.copy()
        if is_dim:
            new.add_dim_coord(nc, dims[0])
        else:
            new._add_unique_aux_coord(nc, dims)
    return new


def concatenate(cubes, error_on_mismatch=False):
    from iris.cube import CubeList

    groups = []
    for cube in cubes:
        placed = False
        last = None
        for g in groups:
            dim, msgs = _compatible(g["cubes"][0], cube)
            if dim is not None and g["dim"] in (None, dim):
                # values along the dimension must not overlap
                ok = True
                dc = g["cubes"][0].coords(dimensions=dim, dim_coords=True)
                if dc:
                    name = dc[0]
                    new = cube.coord(name)
                    for other in g["cubes"]:
                        o = other.coord(name)
                        lo, hi = o.points.min(), o.points.max()
                        nlo, nhi = new.points.min(), new.points.max()
                        if not (nlo > hi or nhi < lo):
                            ok = False
                            msgs = ["Found cubes with overlap on concatenate axis %r, cannot "
                                    "concatenate overlapping cubes" % name.name()]
                if ok:
                    g["cubes"].append(cube)
                    g["dim"] = dim
                    placed = True
                    break
            last = msgs
        if not placed:
            if groups and error_on_mismatch:
                raise iris.exceptions.ConcatenateError(last or ["unknown"])
            groups.append({"cubes": [cube], "dim": None})
    out = CubeList()
    for g in groups:
        if len(g["cubes"]) == 1:
            out.append(g["cubes"][0])
        else:
            out.append(_join(g["cubes"], g["dim"]))
    return out
