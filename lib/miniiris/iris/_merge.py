"""Merging cubes over their scalar coordinates (after iris._merge)."""
import itertools

import numpy as np

import iris.exceptions
import iris.util
from iris._base import attributes_equal
from iris.coords import AuxCoord, DimCoord

_AXES = {"T": 0, "Z": 1, "Y": 2, "X": 3}
_HINTS = ["time", "forecast_reference_time"]


def _coord_key(c):
    return (
        not np.issubdtype(c.dtype, np.number),
        not isinstance(c, DimCoord),
        _AXES.get(iris.util.guess_coord_axis(c), 5),
        c.standard_name or "", c.long_name or "", c.var_name or "",
    )


def _scalars(cube):
    return sorted((c for c in cube.coords() if not cube.coord_dims(c)), key=_coord_key)


def _vectors(cube):
    return sorted((c for c in cube.coords() if cube.coord_dims(c)), key=lambda c: c.name())


def _differences(a, b):
    msgs = []
    for f in ("standard_name", "long_name", "var_name", "units"):
        if getattr(a, f) != getattr(b, f):
            msgs.append("cube.%s differs: %r != %r" % (f, str(getattr(a, f)), str(getattr(b, f))))
    if not attributes_equal(a.attributes, b.attributes):
        only = set(a.attributes) ^ set(b.attributes)
        if only:
            msgs.append("cube.attributes keys differ: %s" % ", ".join(
                repr(k) for k in sorted(only)))
        else:
            keys = [k for k in a.attributes
                    if not attributes_equal({k: a.attributes[k]}, {k: b.attributes[k]})]
            msgs.append("cube.attributes values differ for keys: %s" % ", ".join(
                repr(k) for k in keys))
    if a.cell_methods != b.cell_methods:
        msgs.append("cube.cell_methods differ")
    if a.shape != b.shape:
        msgs.append("cube.shape differs: {} != {}".format(a.shape, b.shape))
    if a.dtype != b.dtype:
        msgs.append("cube data dtype differs: {} != {}".format(a.dtype, b.dtype))
    sa, sb = _scalars(a), _scalars(b)

    def names(cs):
        return {c.name() for c in cs}

    if names(sa) != names(sb):
        msgs.append("Coordinates in cube.aux_coords (scalar) differ: %s." % ", ".join(
            sorted(names(sa) ^ names(sb))))
    else:
        for c in sa:
            o = b.coord(c.name()) if b.coords(c.name()) else None
            if o is None or not a._same_defn(c, o) or c.nbounds != o.nbounds:
                msgs.append("Coordinates in cube.aux_coords (scalar) differ: %s." % c.name())
    va, vb = _vectors(a), _vectors(b)
    dnames = {c.name() for c in a.dim_coords}, {c.name() for c in b.dim_coords}
    if dnames[0] != dnames[1]:
        msgs.append("Coordinates in cube.dim_coords differ: %s." % ", ".join(
            sorted(dnames[0] ^ dnames[1])))
    elif names(va) != names(vb):
        msgs.append("Coordinates in cube.aux_coords (non-scalar) differ: %s." % ", ".join(
            sorted(names(va) ^ names(vb))))
    else:
        for c in va:
            o = b.coord(c.name())
            if not (c == o) or a.coord_dims(c) != b.coord_dims(o):
                kind = "dim_coords" if isinstance(c, DimCoord) and any(
                    c is d for d in a.dim_coords) else "aux_coords (non-scalar)"
                msgs.append("Coordinates in cube.%s differ: %s." % (kind, c.name()))
    return msgs


def _cellkey(c):
    p = c.points[0]
    p = p.item() if hasattr(p, "item") else p
    if c.has_bounds():
        return (p, tuple(np.asarray(c.bounds[0]).tolist()))
    return (p, ())


class _Proto:
    def __init__(self, cube):
        self.template = cube
        self.cubes = []

    def register(self, cube, error=False):
        if self.cubes:
            msgs = _differences(self.template, cube)
            if msgs:
                if error:
                    raise iris.exceptions.MergeError(msgs)
                return False
        self.cubes.append(cube)
        return True

    def merge(self, unique=True):
        from iris.cube import Cube, CubeList

        cubes = self.cubes
        scal = _scalars(self.template)
        names = [c.name() for c in scal]
        table = []
        for cube in cubes:
            table.append([_cellkey(cube.coord(c)) for c in scal])
        if unique and len(set(map(tuple, table))) != len(table):
            raise iris.exceptions.DuplicateDataError(
                "Duplicate %r cube, with scalar coordinates %s" % (
                    self.template.name(), ", ".join(names)))
        if len(set(map(tuple, table))) != len(table):
            # unique=False: merge each repetition separately
            groups = []
            seen = {}
            for row, cube in zip(table, cubes):
                k = seen.get(tuple(row), 0)
                seen[tuple(row)] = k + 1
                while len(groups) <= k:
                    groups.append(_Proto(self.template))
                groups[k].cubes.append(cube)
            out = CubeList()
            for g in groups:
                out.extend(g.merge(unique=True))
            return out
        n = len(cubes)
        if n == 1:
            return CubeList([cubes[0].copy()])
        cols = list(zip(*table))
        varying = [i for i in range(len(scal)) if len(set(cols[i])) > 1]
        # equivalence classes under one-to-one correspondence
        classes = []
        for i in varying:
            for cl in classes:
                pairs = set(zip(cols[cl[0]], cols[i]))
                if len(pairs) == len(set(cols[cl[0]])) == len(set(cols[i])):
                    cl.append(i)
                    break
            else:
                classes.append([i])
        reps = [cl[0] for cl in classes]
        sizes = [len(set(cols[r])) for r in reps]
        chosen = None
        for k in range(1, len(reps) + 1):
            options = []
            for combo in itertools.combinations(range(len(reps)), k):
                prod = 1
                for j in combo:
                    prod *= sizes[j]
                if prod == n and len(set(zip(*[cols[reps[j]] for j in combo]))) == n:
                    options.append(combo)
            if options:
                chosen = options[0]
                break
        anon_dims = None
        if chosen is None:
            # partial product: group what separates, the rest shares a dimension
            chosen, anon_dims = self._partial(cols, reps, sizes, n)
        dims = []  # each: list of class ids sharing this dimension
        if anon_dims is None:
            dims = [[j] for j in chosen]
        else:
            dims = [[j] for j in chosen] + [anon_dims]
        def axis_and_name(g):
            best = min(reps[j] for j in g)
            axis = {"T": 1, "Z": 2, "Y": 3, "X": 4}.get(
                iris.util.guess_coord_axis(scal[best]), 0)
            return (axis, scal[best].name())

        dims.sort(key=axis_and_name)
        dim_values = []
        for g in dims:
            vals = sorted(set(zip(*[cols[reps[j]] for j in g])))
            dim_values.append(vals)
        shape = tuple(len(v) for v in dim_values)
        if int(np.prod(shape)) != n:
            raise AssertionError("miniiris merge: inconsistent space")
        index = {}
        for row, cube in zip(table, cubes):
            pos = tuple(
                dim_values[d].index(tuple(row[reps[j]] for j in g)) for d, g in enumerate(dims)
            )
            index[pos] = (row, cube)
        grid = [index[p] for p in np.ndindex(*shape)]
        arrays = [c.data for _, c in grid]
        if any(np.ma.isMaskedArray(a) for a in arrays):
            data = np.ma.stack([np.ma.asanyarray(a) for a in arrays])
        else:
            data = np.stack(arrays)
        data = data.reshape(shape + self.template.shape)
        out = Cube(data)
        out.metadata = self.template.metadata
        nd = len(shape)
        t = self.template
        for c in t.dim_coords:
            out.add_dim_coord(c.copy(), t.coord_dims(c)[0] + nd)
        for c in t.aux_coords:
            if t.coord_dims(c):
                out._add_unique_aux_coord(c.copy(), tuple(d + nd for d in t.coord_dims(c)))
        taken = set()
        pending = []
        for i, c in enumerate(scal):
            if i not in varying:
                out._add_unique_aux_coord(c.copy(), ())
                continue
            # minimal set of new dimensions determining this coordinate
            deps = None
            for k in range(1, nd + 1):
                for combo in itertools.combinations(range(nd), k):
                    m = {}
                    ok = True
                    for p in np.ndindex(*shape):
                        key = tuple(p[d] for d in combo)
                        v = index[p][0][i]
                        if m.setdefault(key, v) != v:
                            ok = False
                            break
                    if ok:
                        deps = (combo, m)
                        break
                if deps:
                    break
            combo, m = deps
            cshape = tuple(shape[d] for d in combo)
            keys = list(np.ndindex(*cshape))
            if c.dtype.kind in "SU":
                pts = np.array([m[k][0] for k in keys])
            else:
                pts = np.array([m[k][0] for k in keys], dtype=c.dtype)
            pts = pts.reshape(cshape)
            bnds = None
            if c.has_bounds():
                bnds = np.array([m[k][1] for k in keys], dtype=c.bounds.dtype).reshape(
                    cshape + (-1,))
            kw = dict(standard_name=c.standard_name, long_name=c.long_name,
                      var_name=c.var_name, units=c.units, attributes=c.attributes,
                      coord_system=c.coord_system)
            try:
                if len(combo) != 1:
                    raise ValueError
                new = DimCoord(pts, bounds=bnds, circular=getattr(c, "circular", False), **kw)
            except ValueError:
                new = AuxCoord(pts, bounds=bnds, **kw)
            pending.append((c, new, combo))
        def prio(item):
            c = item[0]
            name = c.name()
            return (
                not np.issubdtype(c.dtype, np.number),
                not isinstance(c, DimCoord),
                _HINTS.index(name) if name in _HINTS else len(_HINTS),
                _AXES.get(iris.util.guess_coord_axis(c), 5), name,
            )

        for c, new, combo in sorted(pending, key=prio):
            if (isinstance(new, DimCoord) and len(combo) == 1 and combo[0] not in taken):
                # only a coordinate of the class that spans the dimension
                out.add_dim_coord(new, combo[0])
                taken.add(combo[0])
            else:
                out._add_unique_aux_coord(new, combo)
        return CubeList([out])

    @staticmethod
    def _partial(cols, reps, sizes, n):
        """Find separable classes; the remainder shares one anonymous dimension."""
        ids = list(range(len(reps)))
        for k in range(len(ids) - 1, 0, -1):
            for combo in itertools.combinations(ids, k):
                prod = 1
                for j in combo:
                    prod *= sizes[j]
                rest = [j for j in ids if j not in combo]
                rv = set(zip(*[cols[reps[j]] for j in rest]))
                if prod * len(rv) == n and len(
                    set(zip(*[cols[reps[j]] for j in combo + tuple(rest)]))
                ) == n:
                    full = set(zip(*[cols[reps[j]] for j in combo]))
                    if len(full) == prod:
                        return list(combo), rest
        return [], ids


def merge(cubes, unique=True):
    from iris.cube import CubeList

    protos = {}
    order = []
    for cube in cubes:
        key = cube.metadata.name()
        if key not in protos:
            order.append(key)
        group = protos.setdefault(key, [])
        for p in group:
            if p.register(cube):
                break
        else:
            p = _Proto(cube)
            p.register(cube)
            group.append(p)
    out = CubeList()
    for key in sorted(order):
        for p in protos[key]:
            out.extend(p.merge(unique))
    return out


def merge_cube(cubes):
    if not cubes:
        raise ValueError("can't merge an empty CubeList")
    p = _Proto(cubes[0])
    for c in cubes:
        p.register(c, error=True)
    merged = p.merge()
    if len(merged) > 1:
        raise iris.exceptions.MergeError(["failed to merge into a single cube"])
    return merged[0]
