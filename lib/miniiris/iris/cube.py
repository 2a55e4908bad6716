"""Stand-in for iris.cube."""
import copy as _copy
import itertools
import warnings
from collections import OrderedDict

import cf_units
import numpy as np

import iris._constraints
import iris.coords
import iris.exceptions
import iris.util
from iris._base import (
    CFVariableMixin, CubeMetadata, as_concrete, attributes_equal, is_lazy,
)

__all__ = ["Cube", "CubeList"]


class CubeList(list):
    def __new__(cls, list_of_cubes=None):
        return list.__new__(cls)

    def __init__(self, list_of_cubes=None):
        cubes = [] if list_of_cubes is None else list(list_of_cubes)
        super().__init__(cubes)

    def __str__(self):
        if not self:
            return "< No cubes >"
        return "\n".join("%d: %s" % (i, c.summary(shorten=True)) for i, c in enumerate(self))

    def __repr__(self):
        return "[%s]" % ",\n".join(repr(c) for c in self)

    def __add__(self, other):
        return CubeList(list.__add__(self, other))

    def __getitem__(self, keys):
        result = super().__getitem__(keys)
        if isinstance(result, list):
            result = CubeList(result)
        return result

    def __getslice__(self, start, stop):
        return CubeList(super().__getslice__(start, stop))

    def copy(self):
        return _copy.copy(self)

    def __copy__(self):
        return CubeList(self)

    def __deepcopy__(self, memo):
        return CubeList([c.copy() for c in self])

    def xml(self, checksum=False, order=True, byteorder=True):
        return "\n".join(c.xml(checksum, order, byteorder) for c in self)

    def extract(self, constraints, strict=False):
        constraints = iris._constraints.list_of_constraints(constraints)
        out = CubeList()
        for constraint in constraints:
            found = [r for r in (constraint.extract(c) for c in self) if r is not None]
            if strict and len(found) != 1:
                raise iris.exceptions.ConstraintMismatchError(
                    "Got %d cubes for constraint %r, expecting 1." % (len(found), constraint)
                )
            out.extend(found)
        if strict and len(constraints) == 1:
            return out[0]
        return out

    def extract_cube(self, constraint):
        return self.extract_cubes_impl([constraint])[0]

    def extract_cubes(self, constraints):
        return CubeList(
            self.extract_cubes_impl(iris._constraints.list_of_constraints(constraints))
        )

    def extract_cubes_impl(self, constraints):
        out = []
        for c in constraints:
            c = iris._constraints.as_constraint(c)
            found = [r for r in (c.extract(cube) for cube in self) if r is not None]
            if len(found) != 1:
                raise iris.exceptions.ConstraintMismatchError(
                    "Got %d cubes for constraint %r, expecting 1." % (len(found), c)
                )
            out.append(found[0])
        return out

    def extract_overlapping(self, coord_names):
        raise NotImplementedError()

    def merge(self, unique=True):
        from iris._merge import merge

        return merge(self, unique)

    def merge_cube(self):
        from iris._merge import merge_cube

        return merge_cube(self)

    def concatenate(self, check_aux_coords=True, **kwargs):
        from iris._concatenate import concatenate

        return concatenate(self)

    def concatenate_cube(self, check_aux_coords=True, **kwargs):
        from iris._concatenate import concatenate

        if not self:
            raise ValueError("can't concatenate an empty CubeList")
        names = [c.metadata.name() for c in self]
        res = concatenate(self, error_on_mismatch=True)
        if len(res) == 1:
            return res[0]
        msgs = []
        if len(set(names)) > 1:
            msgs.append("Cube names differ: {} != {}".format(*sorted(set(names))[:2]))
        else:
            msgs.append("An unexpected problem prevented concatenation.")
            msgs.append("Expected only a single cube, found {}.".format(len(res)))
        raise iris.exceptions.ConcatenateError(msgs)

    def realise_data(self):
        for c in self:
            c.data


class Cube(CFVariableMixin):
    __orthogonal_indexing__ = True
    __array_priority__ = 100

    def __init__(self, data, standard_name=None, long_name=None, var_name=None, units=None,
                 attributes=None, cell_methods=None, dim_coords_and_dims=None,
                 aux_coords_and_dims=None, aux_factories=None, cell_measures_and_dims=None,
                 ancillary_variables_and_dims=None):
        if isinstance(data, str):
            raise TypeError("Invalid data type: {!r}.".format(data))
        self._data = self._check_data(data)
        self.standard_name = standard_name
        self.long_name = long_name
        self.var_name = var_name
        self.units = units if units is not None else "unknown"
        self.attributes = attributes
        self.cell_methods = cell_methods
        self._dim = []
        self._aux = []
        self._ancillary = []
        self._measures = []
        identities = set()
        for coord, dim in dim_coords_and_dims or ():
            if (coord.name(), dim) not in identities:
                self.add_dim_coord(coord, dim)
        for coord, dims in aux_coords_and_dims or ():
            self.add_aux_coord(coord, dims)
        for cm, dims in cell_measures_and_dims or ():
            self.add_cell_measure(cm, dims)
        for av, dims in ancillary_variables_and_dims or ():
            self.add_ancillary_variable(av, dims)

    @staticmethod
    def _check_data(data):
        if is_lazy(data):
            return data
        if not isinstance(data, np.ma.MaskedArray):
            data = np.asarray(data)
        return data

    # ------------------------------------------------------------- data
    @property
    def data(self):
        if is_lazy(self._data):
            self._data = np.asanyarray(as_concrete(self._data))
        return self._data

    @data.setter
    def data(self, data):
        data = self._check_data(data)
        if self.shape != data.shape:
            if self.shape or data.shape != (1,):
                raise ValueError("Require data with shape {!r}, got {!r}.".format(
                    self.shape, data.shape))
        self._data = data

    def has_lazy_data(self):
        return is_lazy(self._data)

    def core_data(self):
        return self._data

    def lazy_data(self):
        import dask.array as da

        if self.has_lazy_data():
            return self._data
        return da.from_array(self._data, chunks=self._data.shape or -1, asarray=False)

    @property
    def shape(self):
        return self._data.shape

    @property
    def ndim(self):
        return self._data.ndim

    @property
    def dtype(self):
        return self._data.dtype

    # --------------------------------------------------------- metadata
    @property
    def metadata(self):
        return CubeMetadata(self.standard_name, self.long_name, self.var_name, self.units,
                            self.attributes, self.cell_methods)

    @metadata.setter
    def metadata(self, value):
        if isinstance(value, dict):
            value = CubeMetadata(**{f: value.get(f) for f in CubeMetadata._fields})
        elif not hasattr(value, "_fields") and isinstance(value, (tuple, list)):
            value = CubeMetadata(*value)
        for field in CubeMetadata._fields:
            if hasattr(value, field):
                v = getattr(value, field)
                if field == "attributes":
                    v = _copy.deepcopy(dict(v or {}))
                setattr(self, field, v)

    @property
    def cell_methods(self):
        return self._cell_methods

    @cell_methods.setter
    def cell_methods(self, value):
        self._cell_methods = tuple(value) if value else ()

    def add_cell_method(self, cell_method):
        self.cell_methods = self.cell_methods + (cell_method,)

    # ------------------------------------------------------------ coords
    @property
    def dim_coords(self):
        return tuple(c for c, d in sorted(self._dim, key=lambda p: (p[1], p[0].name())))

    @property
    def aux_coords(self):
        return tuple(c for c, d in sorted(
            self._aux, key=lambda p: (self._dkey(p[1]), p[0].name())))

    @staticmethod
    def _dkey(dims):
        return tuple(dims)

    @property
    def derived_coords(self):
        return ()

    @property
    def aux_factories(self):
        return ()

    def cell_measures(self, name_or_cell_measure=None):
        out = [m for m, _ in self._measures]
        if isinstance(name_or_cell_measure, str):
            out = [m for m in out if m.name() == name_or_cell_measure]
        return out

    def ancillary_variables(self, name=None):
        out = [m for m, _ in self._ancillary]
        if isinstance(name, str):
            out = [m for m in out if m.name() == name]
        return out

    def ancillary_variable(self, name):
        r = self.ancillary_variables(name)
        if len(r) != 1:
            raise iris.exceptions.AncillaryVariableNotFoundError(name)
        return r[0]

    def cell_measure(self, name):
        r = self.cell_measures(name)
        if len(r) != 1:
            raise iris.exceptions.CellMeasureNotFoundError(name)
        return r[0]

    def add_cell_measure(self, cm, dims=None):
        self._measures.append((cm, self._norm_dims(dims)))

    def add_ancillary_variable(self, av, dims=None):
        self._ancillary.append((av, self._norm_dims(dims)))

    def ancillary_variable_dims(self, av):
        for a, d in self._ancillary:
            if a is av or a.name() == av:
                return d
        raise iris.exceptions.AncillaryVariableNotFoundError(av)

    @staticmethod
    def _norm_dims(dims):
        if dims is None:
            return ()
        if isinstance(dims, (int, np.integer)):
            return (int(dims),)
        return tuple(int(d) for d in dims)

    def add_aux_coord(self, coord, data_dims=None):
        if self.coords(coord):
            raise iris.exceptions.CannotAddError(
                "Duplicate coordinates are not possible."
            ) if False else ValueError("Duplicate coordinates are not possible.")
        self._add_unique_aux_coord(coord, data_dims)

    def _check_multi_dim(self, coord, data_dims):
        data_dims = self._norm_dims(data_dims)
        if data_dims:
            if len(data_dims) != coord.ndim:
                raise ValueError("Invalid data dimensions: {} given, {} expected for {!r}.".format(
                    len(data_dims), coord.ndim, coord.name()))
            for i, dim in enumerate(data_dims):
                if coord.shape[i] != self.shape[dim]:
                    raise ValueError(
                        "Unequal lengths. Cube dimension {} => {}; metadata {!r} dimension {} "
                        "=> {}.".format(dim, self.shape[dim], coord.name(), i, coord.shape[i]))
        elif coord.shape != (1,):
            raise ValueError("Missing data dimensions for multi-valued {} {!r}".format(
                type(coord).__name__, coord.name()))
        return data_dims

    def _add_unique_aux_coord(self, coord, data_dims):
        data_dims = self._check_multi_dim(coord, data_dims)
        self._aux.append((coord, data_dims))

    def add_dim_coord(self, dim_coord, data_dim):
        if self.coords(dim_coord):
            raise ValueError("The coordinate already exists on the cube. Duplicate coordinates "
                             "are not possible.")
        if isinstance(data_dim, (tuple, list)):
            if len(data_dim) != 1:
                raise ValueError("The supplied data dimension must be a single number.")
            data_dim = int(data_dim[0])
        else:
            data_dim = int(data_dim)
        if not isinstance(dim_coord, iris.coords.DimCoord):
            raise ValueError("The dim_coord may not be an AuxCoord instance.")
        if any(d == data_dim for _, d in self._dim):
            raise ValueError("A dim_coord is already associated with dimension %d." % data_dim)
        if data_dim >= self.ndim:
            raise ValueError("The cube does not have the specified dimension (%d)" % data_dim)
        if dim_coord.shape[0] != self.shape[data_dim]:
            raise ValueError("Unequal lengths. Cube dimension {} => {}; coord {!r} => {}.".format(
                data_dim, self.shape[data_dim], dim_coord.name(), len(dim_coord.points)))
        self._dim.append((dim_coord, int(data_dim)))

    def remove_coord(self, coord):
        coord = self.coord(coord)
        self._dim = [(c, d) for c, d in self._dim if c is not coord]
        self._aux = [(c, d) for c, d in self._aux if c is not coord]

    def replace_coord(self, new_coord):
        old = self.coord(new_coord)
        dims = self.coord_dims(old)
        was_dim = any(c is old for c, _ in self._dim)
        self.remove_coord(old)
        if was_dim and isinstance(new_coord, iris.coords.DimCoord):
            self.add_dim_coord(new_coord, dims[0])
        else:
            self.add_aux_coord(new_coord, dims)

    def coord_dims(self, coord):
        if isinstance(coord, iris.coords.Coord):
            for c, d in self._dim:
                if c is coord:
                    return (d,)
            for c, d in self._aux:
                if c is coord:
                    return d
        target = self.coord(coord)
        for c, d in self._dim:
            if c is target:
                return (d,)
        for c, d in self._aux:
            if c is target:
                return d
        raise iris.exceptions.CoordinateNotFoundError(str(coord))

    def coords(self, name_or_coord=None, standard_name=None, long_name=None, var_name=None,
               attributes=None, axis=None, contains_dimension=None, dimensions=None,
               coord_system=None, dim_coords=None, mesh_coords=None):
        name = None
        coord = None
        if isinstance(name_or_coord, str):
            name = name_or_coord
        elif name_or_coord is not None:
            coord = name_or_coord
        out = []
        if dim_coords in (True, None):
            out += list(self.dim_coords)
        if dim_coords in (False, None):
            out += list(self.aux_coords)
        if name is not None:
            out = [c for c in out if name in c._names() or (not c._names() and c.name() == name)]
        if standard_name is not None:
            out = [c for c in out if c.standard_name == standard_name]
        if long_name is not None:
            out = [c for c in out if c.long_name == long_name]
        if var_name is not None:
            out = [c for c in out if c.var_name == var_name]
        if axis is not None:
            axis = axis.upper()
            out = [c for c in out if iris.util.guess_coord_axis(c) == axis]
        if attributes is not None:
            out = [c for c in out if all(k in c.attributes and c.attributes[k] == v
                                         for k, v in attributes.items())]
        if coord_system is not None:
            out = [c for c in out if c.coord_system == coord_system]
        if coord is not None:
            if isinstance(coord, iris.coords.Coord):
                out = [c for c in out if c is coord or self._same_defn(c, coord)]
            else:  # metadata object
                out = [c for c in out if self._same_defn(c, coord)]
        if contains_dimension is not None:
            out = [c for c in out if contains_dimension in self.coord_dims(c)]
        if dimensions is not None:
            dimensions = self._norm_dims(dimensions)
            out = [c for c in out if tuple(sorted(self.coord_dims(c))) == tuple(sorted(dimensions))]
        return out

    @staticmethod
    def _same_defn(a, b):
        return (
            a.standard_name == b.standard_name and a.long_name == b.long_name
            and a.var_name == b.var_name and a.units == b.units
            and a.coord_system == b.coord_system
            and attributes_equal(a.attributes, b.attributes)
        )

    def coord(self, name_or_coord=None, **kwargs):
        found = self.coords(name_or_coord, **kwargs)
        if len(found) > 1:
            raise iris.exceptions.CoordinateNotFoundError(
                "Expected to find exactly 1 coordinate, but found %d. They were: %s."
                % (len(found), ", ".join(c.name() for c in found)))
        if not found:
            bad = name_or_coord
            if bad is not None and not isinstance(bad, str):
                bad = bad.name() if hasattr(bad, "name") and callable(bad.name) else bad
            if bad is None:
                bad = kwargs
            raise iris.exceptions.CoordinateNotFoundError(
                "Expected to find exactly 1 {} coordinate, but found none.".format(bad)
                if isinstance(bad, str) else
                "Expected to find exactly 1 coordinate matching the given {!r}, but found none."
                .format(bad))
        return found[0]

    def coord_system(self, spec=None):
        systems = OrderedDict()
        for c in self.coords():
            if c.coord_system is not None:
                systems.setdefault(type(c.coord_system).__name__, c.coord_system)
        if spec is None:
            for v in systems.values():
                return v
            return None
        if isinstance(spec, str):
            for v in systems.values():
                if any(k.__name__ == spec for k in type(v).__mro__):
                    return v
            return None
        for v in systems.values():
            if isinstance(v, spec):
                return v
        return None

    def is_compatible(self, other, ignore=None):
        return (self.name() == other.name() and self.units == other.units
                and self.cell_methods == other.cell_methods)

    def convert_units(self, unit):
        unit = cf_units.as_unit(unit)
        if self.units.is_unknown():
            raise iris.exceptions.UnitConversionError(
                "Cannot convert from unknown units. The \"cube.units\" attribute may be set "
                "directly.")
        if self.has_lazy_data():
            old = self.units
            src = self._data
            self._data = src.map_blocks(lambda x: old.convert(x, unit), dtype=float
                                        if src.dtype.kind in "iu" else src.dtype)
        else:
            new_data = self.units.convert(self.data, unit)
            self._data = np.asanyarray(new_data)
        self.units = unit

    # ---------------------------------------------------------- indexing
    def __getitem__(self, keys):
        if keys is None:
            raise TypeError("cube indices must be...")
        full = iris.util._build_full_slice_given_keys(keys, self.ndim)
        norm = []
        for d, k in enumerate(full):
            if isinstance(k, (list, np.ndarray)):
                k = np.asarray(k)
                if k.dtype == bool:
                    k = np.where(k)[0]
                if k.ndim == 0:
                    k = int(k)
                else:
                    k = tuple(int(i) for i in k)
            elif isinstance(k, np.integer):
                k = int(k)
            elif isinstance(k, tuple):
                k = tuple(int(i) for i in k)
            if isinstance(k, int):
                n = self.shape[d]
                if not -n <= k < n:
                    raise IndexError("index %d is out of bounds for dimension %d with size %d"
                                     % (k, d, n))
            norm.append(k)
        data = self._data
        mapping = {}
        new_dim = 0
        # apply orthogonally, from the last dimension
        for d in range(self.ndim - 1, -1, -1):
            k = norm[d]
            idx = (slice(None),) * d + (np.array(k) if isinstance(k, tuple) else k,)
            if isinstance(k, slice) and k == slice(None):
                continue
            data = data[idx]
        for d in range(self.ndim):
            if isinstance(norm[d], int):
                mapping[d] = None
            else:
                mapping[d] = new_dim
                new_dim += 1
        if not is_lazy(data):
            if np.ma.isMaskedArray(self._data):
                if data is np.ma.masked or not isinstance(data, np.ndarray):
                    md = np.ma.getdata(self._data)[tuple(
                        k if isinstance(k, int) else slice(None) for k in norm)]
                    mm = np.ma.getmaskarray(self._data)[tuple(
                        k if isinstance(k, int) else slice(None) for k in norm)]
                    data = np.ma.array(md, mask=mm)
                else:
                    fv = self._data.fill_value
                    data = np.ma.array(np.array(np.ma.getdata(data)),
                                       mask=np.array(np.ma.getmask(data))
                                       if np.ma.getmask(data) is not np.ma.nomask
                                       else np.ma.nomask)
                    try:
                        data.fill_value = fv
                    except TypeError:
                        pass
            else:
                data = np.array(data)
            if data.size == 0 and self._data.size:
                raise IndexError("Cannot index with zero length slice.")
        cube = Cube(data)
        cube.metadata = self.metadata

        def sub(coord, dims):
            if not dims:
                return coord.copy()
            return coord[tuple(norm[d] if not isinstance(norm[d], tuple)
                               else np.array(norm[d]) for d in dims)]

        for coord, dims in self._aux:
            new = sub(coord, dims)
            nd = tuple(mapping[d] for d in dims if mapping[d] is not None)
            cube._aux.append((new, nd))
        for coord, d in self._dim:
            new = sub(coord, (d,))
            nd = mapping[d]
            if nd is not None and isinstance(new, iris.coords.DimCoord):
                cube._dim.append((new, nd))
            else:
                cube._aux.append((new, () if nd is None else (nd,)))
        for av, dims in self._ancillary:
            if dims:
                new = av[tuple(norm[d] if not isinstance(norm[d], tuple)
                               else np.array(norm[d]) for d in dims)]
            else:
                new = av.copy()
            cube._ancillary.append((new, tuple(mapping[d] for d in dims
                                               if mapping[d] is not None)))
        for av, dims in self._measures:
            new = av[tuple(norm[d] for d in dims)] if dims else av.copy()
            cube._measures.append((new, tuple(mapping[d] for d in dims
                                              if mapping[d] is not None)))
        return cube

    # a Cube is not Iterable (isinstance(cube, Iterable) must be False)
    __iter__ = None

    def subset(self, coord):
        if not isinstance(coord, iris.coords.Coord):
            raise ValueError("coord_to_extract must be a valid Coord.")
        this = self.coords(coord)
        if not this:
            return None
        this = this[0]
        dims = self.coord_dims(this)
        if len(dims) > 1:
            raise iris.exceptions.CoordinateMultiDimError("Cannot subset multi-dim")
        if not dims:
            try:
                this.intersect(coord)
                return self
            except ValueError:
                return None
        idx = this.intersect(coord, return_indices=True)
        keys = [slice(None)] * self.ndim
        keys[dims[0]] = tuple(idx)
        return self[tuple(keys)]

    def extract(self, constraint):
        return iris._constraints.as_constraint(constraint).extract(self)

    def intersection(self, *args, ignore_bounds=False, **kwargs):
        result = self
        for arg in args:
            if not isinstance(arg, iris.coords.CoordExtent):
                arg = iris.coords.CoordExtent(*arg)
            result = result._intersect(arg.name_or_coord, arg.minimum, arg.maximum,
                                       arg.min_inclusive, arg.max_inclusive, ignore_bounds)
        for name, value in kwargs.items():
            result = result._intersect(name, *value, ignore_bounds=ignore_bounds)
        return result

    def _intersect(self, name, minimum, maximum, min_inclusive=True, max_inclusive=True,
                   ignore_bounds=False):
        coord = self.coord(name)
        if coord.ndim != 1:
            raise iris.exceptions.CoordinateMultiDimError(coord)
        modulus = coord.units.modulus
        if modulus is None:
            raise ValueError("coordinate units with no modulus are not yet supported")
        dim = self.coord_dims(coord)
        points = coord.points
        if not ignore_bounds and coord.has_bounds():
            b = coord.bounds
            lo, hi = b.min(axis=1), b.max(axis=1)
        else:
            lo = hi = points
        shift = -np.floor((points - minimum) / modulus) * modulus
        wrapped = points + shift
        wrapped = np.where(np.isclose(wrapped - modulus, minimum), minimum, wrapped)
        offset = wrapped - points
        wlo, whi = lo + offset, hi + offset
        keep = (whi >= minimum) & (wlo <= maximum)
        if not min_inclusive:
            keep &= whi > minimum
        if not max_inclusive:
            keep &= wlo < maximum
        # bounds that straddle the minimum from the far side
        alt = (whi - modulus >= minimum) & (wlo - modulus <= maximum)
        offset = np.where(~keep & alt, offset - modulus, offset)
        keep = keep | alt
        idx = np.where(keep)[0]
        if idx.size == 0:
            raise IndexError("zero-size intersection")
        new_points = points[idx] + offset[idx]
        order = np.argsort(new_points, kind="stable")
        idx = idx[order]
        keys = [slice(None)] * self.ndim
        keys[dim[0]] = tuple(int(i) for i in idx)
        out = self[tuple(keys)]
        new = coord.copy()[tuple([np.array(idx)])]
        npts = (points[idx] + offset[idx]).astype(points.dtype)
        nb = None
        if coord.has_bounds():
            nb = (coord.bounds[idx] + offset[idx][:, None]).astype(coord.bounds.dtype)
        new = new.copy(npts, nb)
        out.remove_coord(out.coord(coord.name()))
        if isinstance(new, iris.coords.DimCoord):
            out.add_dim_coord(new, dim[0])
        else:
            out.add_aux_coord(new, dim)
        return out

    def slices_over(self, ref_to_slice):
        if isinstance(ref_to_slice, (str, iris.coords.Coord)) or np.isscalar(ref_to_slice):
            ref_to_slice = [ref_to_slice]
        slice_dims = set()
        for ref in ref_to_slice:
            if isinstance(ref, (int, np.integer)):
                slice_dims.add(int(ref))
            else:
                slice_dims.update(self.coord_dims(self.coord(ref)))
        all_dims = set(range(self.ndim))
        opposite = list(all_dims - slice_dims)
        return self.slices(opposite, ordered=False)

    def slices(self, ref_to_slice, ordered=True):
        if not isinstance(ordered, bool):
            raise TypeError("'ordered' argument to slices must be boolean.")
        if isinstance(ref_to_slice, (str, iris.coords.Coord)) or np.isscalar(ref_to_slice):
            ref_to_slice = [ref_to_slice]
        slice_dims = []
        for ref in ref_to_slice:
            if isinstance(ref, (int, np.integer)):
                if not 0 <= ref < self.ndim:
                    raise ValueError("Requested an iterator over a dimension (%s) which does not "
                                     "exist." % ref)
                slice_dims.append(int(ref))
            else:
                dims = self.coord_dims(self.coord(ref))
                if not dims:
                    raise ValueError("Requested an iterator over a coordinate (%s) which does not "
                                     "describe a dimension." % self.coord(ref).name())
                slice_dims.extend(dims)
        if len(set(slice_dims)) != len(slice_dims):
            raise ValueError("The requested coordinates are not orthogonal.")
        dims_index = list(self.shape)
        for d in slice_dims:
            dims_index[d] = 1
        return _SliceIterator(_slice_iter(self, tuple(dims_index), slice_dims, ordered))

    def transpose(self, new_order=None):
        if new_order is None:
            new_order = np.arange(self.ndim)[::-1]
        new_order = [int(d) % self.ndim if self.ndim else int(d) for d in new_order]
        if len(new_order) != self.ndim:
            raise ValueError("Incorrect number of dimensions")
        mapping = {old: new for new, old in enumerate(new_order)}
        self._data = self._data.transpose(new_order)
        self._dim = [(c, mapping[d]) for c, d in self._dim]
        self._aux = [(c, tuple(mapping[d] for d in dims)) for c, dims in self._aux]
        self._ancillary = [(c, tuple(mapping[d] for d in dims)) for c, dims in self._ancillary]
        self._measures = [(c, tuple(mapping[d] for d in dims)) for c, dims in self._measures]

    def copy(self, data=None):
        return self._deepcopy(data)

    def __copy__(self):
        raise _copy.Error("Cube shallow-copy not allowed. Use deepcopy() or Cube.copy()")

    def __deepcopy__(self, memo):
        return self._deepcopy(None)

    def _deepcopy(self, data):
        if data is None:
            d = self._data
            data = d if is_lazy(d) else d.copy()
        else:
            data = self._check_data(data)
            if data.shape != self.shape:
                raise ValueError("Require data with shape {!r}, got {!r}.".format(
                    self.shape, data.shape))
        new = Cube(data)
        new.metadata = self.metadata
        new._dim = [(c.copy(), d) for c, d in self._dim]
        new._aux = [(c.copy(), d) for c, d in self._aux]
        new._ancillary = [(c.copy(), d) for c, d in self._ancillary]
        new._measures = [(c.copy(), d) for c, d in self._measures]
        return new

    # -------------------------------------------------------- comparison
    def _coord_set_equal(self, other):
        mine = self.coords()
        theirs = list(other.coords())
        if len(mine) != len(theirs):
            return False
        for c in mine:
            for i, o in enumerate(theirs):
                if c == o and self.coord_dims(c) == other.coord_dims(o):
                    del theirs[i]
                    break
            else:
                return False
        return True

    def __eq__(self, other):
        if not isinstance(other, Cube):
            return NotImplemented
        if self is other:
            pass
        if not (self.metadata == other.metadata):
            return False
        if self.shape != other.shape or not self._coord_set_equal(other):
            return False
        a, b = self.data, other.data
        if a.dtype.kind in "SUO" or b.dtype.kind in "SUO":
            return bool(np.all(a == b))
        return bool(np.ma.allclose(a, b))

    def __ne__(self, other):
        r = self.__eq__(other)
        return r if r is NotImplemented else not r

    def __hash__(self):
        return hash(id(self))

    # ---------------------------------------------------------- printing
    def summary(self, shorten=False, name_padding=35, **kwargs):
        parts = []
        for d in range(self.ndim):
            names = [c.name() for c, k in self._dim if k == d]
            parts.append("%s: %d" % (names[0] if names else "-- ", self.shape[d]))
        head = "%s / (%s) (%s)" % (self.name(), self.units,
                                   "; ".join(parts) or "scalar cube")
        if shorten:
            return head
        lines = [head]
        lines.extend("     %s" % c.name() for c in self.coords())
        return "\n".join(lines)

    def __str__(self):
        return self.summary()

    def __repr__(self):
        return "<iris 'Cube' of %s>" % self.summary(shorten=True, name_padding=1)

    def xml(self, checksum=False, order=True, byteorder=True):
        coords = sorted((repr(c._canonical()), self.coord_dims(c)) for c in self.coords())
        data = np.ma.asanyarray(self.data)
        import hashlib

        filled = np.where(np.ma.getmaskarray(data), 0, np.ma.getdata(data))
        digest = hashlib.md5(np.ascontiguousarray(filled).tobytes()).hexdigest()
        mdig = hashlib.md5(np.ascontiguousarray(np.ma.getmaskarray(data)).tobytes()).hexdigest()
        return repr((
            self.standard_name, self.long_name, self.var_name, str(self.units),
            sorted((k, repr(v)) for k, v in self.attributes.items()),
            [str(m) for m in self.cell_methods], coords, self.shape, str(self.dtype),
            digest if checksum else None, mdig if checksum else None,
        ))

    # ----------------------------------------------------------- analysis
    def _list_of_coords(self, names):
        if isinstance(names, (str, iris.coords.Coord)):
            names = [names]
        return [self.coord(n) for n in names]

    def collapsed(self, coords, aggregator, **kwargs):
        coords = self._list_of_coords(coords)
        dims = set()
        for c in coords:
            dims.update(self.coord_dims(c))
        dims = sorted(dims)
        if not dims:
            raise iris.exceptions.CoordinateCollapseError(
                "Cannot collapse a dimension which does not describe any data.")
        untouched = [d for d in range(self.ndim) if d not in dims]
        indices = tuple(0 if d in dims else slice(None) for d in range(self.ndim))
        if self.ndim:
            collapsed_cube = self._strip_from_dims(dims)[indices]
        else:
            collapsed_cube = self.copy()
        for coord in self.aux_coords + self.dim_coords:
            cdims = self.coord_dims(coord)
            local = [cdims.index(d) for d in dims if d in cdims]
            if local:
                new = coord.collapsed(local)
                nd = tuple(untouched.index(d) for d in cdims if d not in dims)
                collapsed_cube._dim = [(c, d) for c, d in collapsed_cube._dim
                                       if not self._same_defn(c, coord)]
                collapsed_cube._aux = [(c, d) for c, d in collapsed_cube._aux
                                       if not self._same_defn(c, coord)]
                collapsed_cube._aux.append((new, nd))
        order = untouched + dims
        data = self.data
        n = int(np.prod([self.shape[d] for d in dims])) if dims else 1
        new_shape = tuple(self.shape[d] for d in untouched) + (n,)
        unrolled = data.transpose(order).reshape(new_shape)
        kwargs = dict(kwargs)
        weights = kwargs.get("weights")
        if weights is not None:
            weights = np.asanyarray(weights)
            if weights.ndim != self.ndim:
                raise ValueError("weights must have the shape of the cube")
            kwargs["weights"] = weights.transpose(order).reshape(new_shape)
        result = aggregator.aggregate(unrolled, axis=-1, **kwargs)
        aggregator.update_metadata(collapsed_cube, coords, axis=-1, **kwargs)
        return aggregator.post_process(collapsed_cube, result, coords, **kwargs)

    def _strip_from_dims(self, dims):
        if not (self._ancillary or self._measures):
            return self
        new = self.copy()
        new._ancillary = [(a, d) for a, d in new._ancillary if not set(d) & set(dims)]
        new._measures = [(a, d) for a, d in new._measures if not set(d) & set(dims)]
        return new

    def aggregated_by(self, coords, aggregator, **kwargs):
        coords = self._list_of_coords(coords)
        dims = {d for c in coords for d in self.coord_dims(c)}
        if len(dims) != 1:
            raise iris.exceptions.CoordinateCollapseError("one dimension expected")
        dim = dims.pop()
        keys = list(zip(*[c.points.tolist() for c in coords]))
        groups = OrderedDict()
        for i, k in enumerate(keys):
            groups.setdefault(k, []).append(i)
        slices = []
        for idx in groups.values():
            sel = [slice(None)] * self.ndim
            sel[dim] = tuple(idx)
            sub = self[tuple(sel)]
            anon = sub
            d = np.asanyarray(aggregator.aggregate(sub.data, axis=dim, **kwargs))
            slices.append((idx, d))
        data = np.ma.stack([d for _, d in slices], axis=dim)
        if not np.ma.isMaskedArray(self.data):
            data = np.ma.getdata(data)
        out = Cube(data)
        out.metadata = self.metadata
        for c, dd in self._dim + self._aux:
            cd = self._norm_dims(dd)
            if dim not in cd:
                out._add_unique_aux_coord(c.copy(), cd) if not any(
                    c is x for x, _ in self._dim) else out.add_dim_coord(c.copy(), cd)
                continue
            if any(c is g for g in coords):
                first = [i[0] for i, _ in slices]
                out._add_unique_aux_coord(iris.coords.AuxCoord.from_coord(c[np.array(first)]), cd)
            else:
                parts = [c[np.array(i)].collapsed() for i, _ in slices]
                pts = np.concatenate([p.points for p in parts])
                bnds = None
                if all(p.has_bounds() for p in parts):
                    bnds = np.concatenate([p.bounds for p in parts])
                new = iris.coords.AuxCoord.from_coord(c[:1].copy())
                new = iris.coords.AuxCoord(pts, standard_name=c.standard_name,
                                           long_name=c.long_name, var_name=c.var_name,
                                           units=c.units, bounds=bnds, attributes=c.attributes,
                                           coord_system=c.coord_system)
                out._add_unique_aux_coord(new, cd)
        aggregator.update_metadata(out, coords, **kwargs)
        return out

    def rolling_window(self, coord, aggregator, window, **kwargs):
        coord = self.coord(coord)
        (dim,) = self.coord_dims(coord)
        win = iris.util.rolling_window(self.data, window, 1, dim)
        data = aggregator.aggregate(win, axis=-1, **kwargs)
        sel = [slice(None)] * self.ndim
        sel[dim] = slice(0, self.shape[dim] - window + 1)
        out = self[tuple(sel)].copy()
        for c in list(out.coords()):
            if dim in out.coord_dims(c):
                src = self.coord(c.name())
                base = src.bounds if src.has_bounds() else src.points
                w = iris.util.rolling_window(base, window, 1, 0)
                nb = np.array([w.reshape(w.shape[0], -1).min(1), w.reshape(w.shape[0], -1).max(1)]).T
                pts = nb.mean(axis=1).astype(src.dtype) if src.dtype.kind == "f" else (
                    nb.sum(axis=1) * 0.5).astype(src.dtype)
                new = c.copy(pts, nb)
                dims = out.coord_dims(c)
                out.replace_coord(new)
        out._data = np.asanyarray(data)
        aggregator.update_metadata(out, [coord], **kwargs)
        return out

    def interpolate(self, sample_points, scheme, collapse_scalar=True):
        coords, points = zip(*sample_points)
        interp = scheme.interpolator(self, coords)
        return interp(points, collapse_scalar=collapse_scalar)

    def regrid(self, grid, scheme):
        regridder = scheme.regridder(self, grid)
        return regridder(self)

    # --------------------------------------------------------------- maths
    def _binary(self, other, func, units, in_place=False, dividing=False, symm=False):
        from iris.analysis.maths import binary

        return binary(self, other, func, units, in_place)

    def __add__(self, other):
        from iris.analysis import maths

        return maths.add(self, other)

    __radd__ = __add__

    def __iadd__(self, other):
        from iris.analysis import maths

        return maths.add(self, other, in_place=True)

    def __sub__(self, other):
        from iris.analysis import maths

        return maths.subtract(self, other)

    def __rsub__(self, other):
        return (-self) + other

    def __isub__(self, other):
        from iris.analysis import maths

        return maths.subtract(self, other, in_place=True)

    def __mul__(self, other):
        from iris.analysis import maths

        return maths.multiply(self, other)

    __rmul__ = __mul__

    def __imul__(self, other):
        from iris.analysis import maths

        return maths.multiply(self, other, in_place=True)

    def __truediv__(self, other):
        from iris.analysis import maths

        return maths.divide(self, other)

    __div__ = __truediv__

    def __itruediv__(self, other):
        from iris.analysis import maths

        return maths.divide(self, other, in_place=True)

    def __rtruediv__(self, other):
        data = 1.0 / self.core_data()
        rec = self.copy(data=data)
        rec.units = rec.units ** -1 if not rec.units.is_unknown() else rec.units
        return rec * other

    def __neg__(self):
        return self.copy(data=-self.data)

    def __pow__(self, other):
        from iris.analysis import maths

        return maths.exponentiate(self, other)


class _SliceIterator:
    def __init__(self, gen):
        self._gen = gen

    def __iter__(self):
        return self

    def __next__(self):
        return next(self._gen)

    next = __next__


def _slice_iter(cube, dims_index, requested, ordered):
    for index in np.ndindex(*dims_index):
        keys = list(index)
        for d in requested:
            keys[d] = slice(None)
        out = cube[tuple(keys)]
        if ordered and len(requested) > 1:
            order = np.argsort(np.argsort(requested))
            # requested order of the surviving dimensions
            surviving = sorted(requested)
            perm = [surviving.index(d) for d in requested]
            if perm != list(range(len(perm))):
                out.transpose(perm)
        yield out
