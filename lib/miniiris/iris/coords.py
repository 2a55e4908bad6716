"""Stand-in for iris.coords."""
import copy
import itertools
import warnings
from collections import namedtuple

import cf_units
import numpy as np

import iris.exceptions
from iris._base import (
    CFVariableMixin, CoordMetadata, DimCoordMetadata, array_equal, as_concrete,
    attributes_equal, is_lazy,
)


class CoordDefn(namedtuple("CoordDefn", ["standard_name", "long_name", "var_name", "units",
                                         "attributes", "coord_system"])):
    __slots__ = ()


class CoordExtent(namedtuple("_CoordExtentBase", ["name_or_coord", "minimum", "maximum",
                                                  "min_inclusive", "max_inclusive"])):
    def __new__(cls, name_or_coord, minimum, maximum, min_inclusive=True, max_inclusive=True):
        return super().__new__(cls, name_or_coord, minimum, maximum, min_inclusive,
                               max_inclusive)


class Cell(namedtuple("Cell", ["point", "bound"])):
    __array_priority__ = 100

    def __new__(cls, point=None, bound=None):
        if point is None:
            raise ValueError("Point must be defined.")
        if bound is not None:
            bound = tuple(bound)
        if isinstance(point, (tuple, list)) and len(point) == 1:
            point = point[0]
        return super().__new__(cls, point, bound)

    def __mod__(self, mod):
        bound = self.bound
        if bound is not None:
            bound = tuple(v % mod for v in bound)
        return Cell(self.point % mod, bound)

    def __add__(self, mod):
        bound = self.bound
        if bound is not None:
            bound = tuple(v + mod for v in bound)
        return Cell(self.point + mod, bound)

    def __hash__(self):
        if self.bound is None:
            return hash(self.point)
        return super().__hash__()

    def __eq__(self, other):
        if isinstance(other, Cell):
            if self.bound is None and other.bound is None:
                return self.point == other.point
            if self.bound is not None and other.bound is not None:
                return self.point == other.point and self.bound == other.bound
            if self.bound is None:
                return self == Cell(self.point) and other.contains_point(self.point) and (
                    self.point == other.point
                )
            return other == self
        if isinstance(other, str) and self.bound is None:
            return self.point == other
        return self._compare(other, "eq")

    def __ne__(self, other):
        return not self == other

    def _compare(self, other, op):
        import operator

        if isinstance(other, Cell):
            other_point = other.point
            if self.bound is not None and other.bound is not None:
                me, you = (self.bound, self.point), (other.bound, other.point)
                me = min(self.bound), max(self.bound), self.point
                you = min(other.bound), max(other.bound), other.point
                return getattr(operator, op)(me, you)
            if self.bound is None and other.bound is None:
                return getattr(operator, op)(self.point, other_point)
            if self.bound is None:
                rev = {"lt": "gt", "gt": "lt", "le": "ge", "ge": "le", "eq": "eq"}[op]
                return other._compare(self.point, rev)
            other = other_point
        if self.bound is None:
            return bool(getattr(operator, op)(self.point, other))
        lo, hi = min(self.bound), max(self.bound)
        if op == "eq":
            return bool(lo <= other <= hi)
        if op in ("gt", "le"):
            return bool(getattr(operator, op)(lo, other))
        return bool(getattr(operator, op)(hi, other))

    def __lt__(self, other):
        return self._compare(other, "lt")

    def __gt__(self, other):
        return self._compare(other, "gt")

    def __le__(self, other):
        return self._compare(other, "le")

    def __ge__(self, other):
        return self._compare(other, "ge")

    def __str__(self):
        if self.bound is not None:
            return repr(self)
        return str(self.point)

    def contains_point(self, point):
        if self.bound is None:
            raise ValueError("Point cannot exist inside an unbounded cell.")
        return min(self.bound) <= point <= max(self.bound)


class CellMethod:
    def __init__(self, method, coords=None, intervals=None, comments=None):
        if not isinstance(method, str):
            raise TypeError("'method' must be a string - got a '%s'" % type(method))

        def names(x):
            if x is None:
                return ()
            if isinstance(x, (str, Coord)):
                x = (x,)
            return tuple(i.name() if isinstance(i, Coord) else str(i) for i in x)

        self.method = method
        self.coord_names = names(coords)
        self.intervals = names(intervals)
        self.comments = names(comments)

    def _key(self):
        return (self.method, self.coord_names, self.intervals, self.comments)

    def __eq__(self, other):
        if not isinstance(other, CellMethod):
            return NotImplemented
        return self._key() == other._key()

    def __ne__(self, other):
        r = self.__eq__(other)
        return r if r is NotImplemented else not r

    def __lt__(self, other):
        return self._key() < other._key()

    def __gt__(self, other):
        return self._key() > other._key()

    def __le__(self, other):
        return self._key() <= other._key()

    def __ge__(self, other):
        return self._key() >= other._key()

    def __hash__(self):
        return hash(str(self))

    def __add__(self, other):
        raise NotImplementedError()

    def __str__(self):
        parts = []
        for name, interval, comment in itertools.zip_longest(
                self.coord_names, self.intervals, self.comments, fillvalue=""):
            other = ", ".join(x for x in (interval, comment) if x)
            parts.append("%s (%s)" % (name, other) if other else "%s" % name)
        return "%s: " % self.method + ", ".join(parts)

    def __repr__(self):
        return "CellMethod(method=%r, coord_names=%r, intervals=%r, comments=%r)" % self._key()


class _DimensionalMetadata(CFVariableMixin):
    pass


class Coord(_DimensionalMetadata):
    _mode = "coord"

    def __init__(self, points, standard_name=None, long_name=None, var_name=None, units=None,
                 bounds=None, attributes=None, coord_system=None, climatological=False):
        self.standard_name = standard_name
        self.long_name = long_name
        self.var_name = var_name
        self.units = units if units is not None else ("unknown" if units is None else units)
        self.attributes = attributes
        self.coord_system = coord_system
        self._bounds = None
        self._points = None
        self.points = points
        self.bounds = bounds
        self.climatological = climatological

    # -- values
    def _sanitise(self, values, ndmin):
        if is_lazy(values):
            values = as_concrete(values)
        if not np.ma.isMaskedArray(values):
            values = np.asarray(values)
        if values.ndim < ndmin:
            values = values.reshape((1,) * (ndmin - values.ndim) + values.shape)
        return values

    @property
    def points(self):
        return self._points.view()

    @points.setter
    def points(self, points):
        points = self._sanitise(points, 1)
        if self._points is not None and self._points.shape != points.shape:
            raise ValueError(
                "Require data with shape {!r}, got {!r}.".format(
                    self._points.shape, points.shape
                )
            )
        self._check_points(points)
        self._points = points

    def _check_points(self, points):
        pass

    def _check_bounds(self, bounds):
        pass

    @property
    def bounds(self):
        return None if self._bounds is None else self._bounds.view()

    @bounds.setter
    def bounds(self, bounds):
        if bounds is None:
            self._bounds = None
            return
        bounds = self._sanitise(bounds, 2)
        if self.shape != bounds.shape[: len(self.shape)]:
            raise ValueError("Bounds shape must be compatible with points shape.")
        self._check_bounds(bounds)
        self._bounds = bounds

    def core_points(self):
        return self.points

    def core_bounds(self):
        return self.bounds

    def has_lazy_points(self):
        return False

    def has_lazy_bounds(self):
        return False

    lazy_points = core_points
    lazy_bounds = core_bounds

    @property
    def shape(self):
        return self._points.shape

    @property
    def ndim(self):
        return self._points.ndim

    @property
    def dtype(self):
        return self._points.dtype

    @property
    def bounds_dtype(self):
        return None if self._bounds is None else self._bounds.dtype

    @property
    def nbounds(self):
        return 0 if self._bounds is None else self._bounds.shape[-1]

    def has_bounds(self):
        return self._bounds is not None

    def __len__(self):
        return self.shape[0]

    # -- metadata
    @property
    def metadata(self):
        return CoordMetadata(self.standard_name, self.long_name, self.var_name, self.units,
                             self.attributes, self.coord_system, self.climatological)

    @metadata.setter
    def metadata(self, md):
        for field in ("standard_name", "long_name", "var_name", "units", "attributes",
                      "coord_system"):
            setattr(self, field, getattr(md, field))

    def _metadata_equal(self, other):
        return (
            self.standard_name == other.standard_name
            and self.long_name == other.long_name
            and self.var_name == other.var_name
            and self.units == other.units
            and self.coord_system == other.coord_system
            and bool(self.climatological) == bool(other.climatological)
            and bool(getattr(self, "circular", False)) == bool(getattr(other, "circular", False))
            and attributes_equal(self.attributes, other.attributes)
        )

    def __eq__(self, other):
        if other is self:
            return True
        if not isinstance(other, Coord):
            return NotImplemented
        if not self._metadata_equal(other):
            return False
        if not array_equal(self._points, other._points):
            return False
        if self.has_bounds() != other.has_bounds():
            return False
        return not self.has_bounds() or array_equal(self._bounds, other._bounds)

    def __ne__(self, other):
        r = self.__eq__(other)
        return r if r is NotImplemented else not r

    def __hash__(self):
        return id(self) // 16

    def is_compatible(self, other, ignore=None):
        compatible = (
            self.name() == other.name()
            and self.units == other.units
            and self.coord_system == other.coord_system
        )
        if compatible:
            common = set(self.attributes).intersection(other.attributes)
            if ignore is not None:
                if isinstance(ignore, str):
                    ignore = (ignore,)
                common = common.difference(ignore)
            for key in common:
                if np.any(self.attributes[key] != other.attributes[key]):
                    return False
        return compatible

    # -- arithmetic
    def _math(self, other, func):
        if isinstance(other, Coord):
            raise NotImplementedError("coord %s coord" % func)
        new = self.copy(points=func(self.points, other))
        if self.has_bounds():
            new.bounds = func(self.bounds, other)
        return new

    def __add__(self, other):
        return self._math(other, lambda a, b: a + b)

    __radd__ = __add__

    def __sub__(self, other):
        return self._math(other, lambda a, b: a - b)

    def __mul__(self, other):
        return self._math(other, lambda a, b: a * b)

    __rmul__ = __mul__

    def __truediv__(self, other):
        return self._math(other, lambda a, b: a / b)

    def __neg__(self):
        return self.copy(-self.points, -self.bounds if self.has_bounds() else None)

    # -- structure
    def copy(self, points=None, bounds=None):
        if points is None and bounds is not None:
            raise ValueError("If bounds are specified, points must also be specified")
        new = self._blank_copy()
        if points is not None:
            new._points = None
            new._bounds = None
            new.points = points
            new.bounds = bounds
        return new

    def _blank_copy(self):
        new = object.__new__(type(self))
        new.__dict__.update(self.__dict__)
        new._attributes = copy.deepcopy(self._attributes)
        new.coord_system = copy.deepcopy(self.coord_system)
        new._points = self._copy_array(self._points)
        if self._bounds is not None:
            new._bounds = self._copy_array(self._bounds)
        return new

    def _copy_array(self, array):
        return array.copy()

    def __copy__(self):
        return self.copy()

    def __deepcopy__(self, memo):
        return self.copy()

    def __getitem__(self, keys):
        points, bounds = self._points, self._bounds
        if not isinstance(keys, tuple):
            keys = (keys,)
        keys = tuple(
            np.array(k) if isinstance(k, (list, tuple)) else k for k in keys
        )
        n_arrays = sum(1 for k in keys if isinstance(k, np.ndarray))
        if n_arrays > 1:
            new_points = points
            new_bounds = bounds
            dim = 0
            for k in keys:
                idx = (slice(None),) * dim + (k,)
                new_points = new_points[idx]
                if new_bounds is not None:
                    new_bounds = new_bounds[idx]
                if not isinstance(k, (int, np.integer)):
                    dim += 1
        else:
            new_points = points[keys]
            bkeys = keys
            if Ellipsis in [k for k in keys if not isinstance(k, np.ndarray)]:
                bkeys = keys + (slice(None),)
            new_bounds = bounds[bkeys] if bounds is not None else None
        new_points = np.array(new_points) if not np.ma.isMaskedArray(new_points) else new_points.copy()
        if new_points.size == 0 and points.size:
            raise IndexError("Cannot index with zero length slice.")
        if new_points.ndim == 0:
            new_points = new_points.reshape((1,))
        if new_bounds is not None:
            new_bounds = np.array(new_bounds)
            if new_bounds.ndim == 1:
                new_bounds = new_bounds.reshape((1,) + new_bounds.shape)
        return self._indexed(new_points, new_bounds)

    def _indexed(self, points, bounds):
        return self.copy(points, bounds)

    def convert_units(self, unit):
        if self.units.is_unknown():
            raise iris.exceptions.UnitConversionError(
                "Cannot convert from unknown units. The \"units\" attribute may be set directly."
            )
        unit = cf_units.as_unit(unit)
        new_points = self.units.convert(self._points, unit)
        new_bounds = None
        if self.has_bounds():
            new_bounds = self.units.convert(self._bounds, unit)
        self._bounds = None
        self.points = new_points
        if new_bounds is not None:
            self.bounds = new_bounds
        self.units = unit

    def cell(self, index):
        from iris.util import _build_full_slice_given_keys

        if isinstance(index, tuple):
            idx = index
        else:
            idx = (index,)
        point = self._points[idx]
        if np.size(point) != 1:
            raise IndexError("The index %s did not uniquely identify a single cell" % (index,))
        point = tuple(np.array(point, ndmin=1).flatten())[0]
        bound = None
        if self.has_bounds():
            bound = tuple(np.array(self._bounds[idx], ndmin=1).flatten())
        if self.units.is_time_reference():
            point = self.units.num2date(point)
            if bound is not None:
                bound = tuple(self.units.num2date(b) for b in bound)
        return Cell(point, bound)

    def cells(self):
        if self.ndim != 1:
            raise iris.exceptions.CoordinateMultiDimError(self)
        return iter([self.cell(i) for i in range(self.shape[0])])

    def _sanity_check_bounds(self):
        if self.ndim == 1:
            if self.nbounds != 2:
                raise ValueError(
                    "Invalid operation for {!r}, with {} bound(s). Contiguous bounds are only "
                    "defined for 1D coordinates with 2 bounds.".format(self.name(), self.nbounds)
                )

    def is_contiguous(self, rtol=1e-05, atol=1e-08):
        if self.has_bounds():
            if self.nbounds == 2:
                return bool(np.allclose(self.bounds[1:, 0], self.bounds[:-1, 1], rtol=rtol,
                                        atol=atol))
        return False

    def contiguous_bounds(self):
        if not self.has_bounds():
            if self.ndim == 1:
                warnings.warn("Coordinate {!r} is not bounded, guessing contiguous bounds."
                              .format(self.name()))
                bounds = self._guess_bounds()
            else:
                raise ValueError("Cannot guess bounds")
        else:
            self._sanity_check_bounds()
            bounds = self.bounds
        return np.concatenate([bounds[:, 0], bounds[-1:, 1]])

    def is_monotonic(self):
        if self.ndim != 1:
            raise iris.exceptions.CoordinateMultiDimError(self)
        if self.shape == (1,):
            return True
        from iris.util import monotonic

        if not monotonic(self.points, strict=True):
            return False
        if self.has_bounds():
            for b in range(self.nbounds):
                if not monotonic(self.bounds[..., b], strict=True):
                    return False
        return True

    def is_scalar(self):
        return self.shape == (1,)

    def intersect(self, other, return_indices=False):
        if not self.is_compatible(other):
            raise ValueError("The intersection cannot be taken - definitions differ")
        other_cells = other.cells()
        idx = [i for i, c in enumerate(self.cells()) if c in other_cells]
        if not idx:
            raise ValueError("No intersection between %s coords possible." % self.name())
        idx = np.array(idx)
        return idx if return_indices else self[idx]

    def _guess_bounds(self, bound_position=0.5):
        if self.ndim != 1:
            raise iris.exceptions.CoordinateMultiDimError(self)
        if self.shape[0] < 2:
            raise ValueError("Cannot guess bounds for a coordinate of length 1.")
        if self.has_bounds():
            raise ValueError("Coord already has bounds. Remove the bounds before guessing new "
                             "ones.")
        diffs = np.diff(self.points)
        diffs = np.insert(diffs, 0, diffs[0])
        diffs = np.append(diffs, diffs[-1])
        min_bounds = self.points - diffs[:-1] * bound_position
        max_bounds = self.points + diffs[1:] * (1 - bound_position)
        bounds = np.array([min_bounds, max_bounds]).transpose()
        if self.name() in ("latitude", "grid_latitude") and self.units == "degree":
            points = self.points
            if (points >= -90).all() and (points <= 90).all():
                np.clip(bounds, -90, 90, out=bounds)
        return bounds

    def guess_bounds(self, bound_position=0.5):
        self.bounds = self._guess_bounds(bound_position)

    def nearest_neighbour_index(self, point):
        points = self.points
        bounds = self.bounds if self.has_bounds() else np.array([])
        if self.ndim != 1:
            raise ValueError("Nearest-neighbour is currently limited to one-dimensional "
                             "coordinates.")
        if getattr(self, "circular", False):
            modulus = self.units.modulus or 360
            point = points.min() + (point - points.min()) % modulus
        if bounds.size:
            inside = np.where(
                np.logical_and(
                    point >= np.min(bounds, axis=1), point <= np.max(bounds, axis=1)
                )
            )[0]
            if inside.size:
                if inside.size == 1:
                    return int(inside[0])
                diff = np.abs(points[inside] - point)
                return int(inside[np.argmin(diff)])
        diff = points - point
        if getattr(self, "circular", False):
            modulus = self.units.modulus or 360
            diff = (diff + modulus / 2) % modulus - modulus / 2
        return int(np.argmin(np.abs(diff)))

    def collapsed(self, dims_to_collapse=None):
        if isinstance(dims_to_collapse, (int, np.integer)):
            dims_to_collapse = [dims_to_collapse]
        if dims_to_collapse is not None and len(dims_to_collapse) == 0:
            return self.copy()
        if np.issubdtype(self.dtype, np.str_) or self.dtype.kind in "SUO":
            def serialize(x):
                return "|".join([str(i) for i in x.flatten()])

            bounds = None
            if self.has_bounds():
                shape = self._bounds.shape[1:]
                bounds = []
                for index in np.ndindex(shape):
                    index_slice = (slice(None),) + tuple(index)
                    bounds.append(serialize(self.bounds[index_slice]))
                dtype = np.dtype("U{}".format(max(map(len, bounds))))
                bounds = np.array(bounds, dtype=dtype).reshape((1,) + shape)
            points = serialize(self.points)
            dtype = np.dtype("U{}".format(len(points) or 1))
            return self.copy(points=np.array(points, dtype=dtype).reshape(1), bounds=bounds)
        if self.ndim > 1:
            if self.has_bounds():
                warnings.warn("Collapsing a multi-dimensional coordinate. Metadata may not be "
                              "fully descriptive for {!r}.".format(self.name()))
        if dims_to_collapse is None or self.ndim == 1:
            axes = tuple(range(self.ndim))
        else:
            axes = tuple(dims_to_collapse)
        if self.ndim == 1 and not self.is_contiguous():
            warnings.warn("Collapsing a non-contiguous coordinate. Metadata may not be fully "
                          "descriptive for {!r}.".format(self.name()))
        item = self.bounds if self.has_bounds() else self.points
        baxes = axes + ((self.ndim,) if self.has_bounds() else ())
        bounds = np.stack([item.min(axis=baxes), item.max(axis=baxes)], axis=-1)
        # iris: midpoint, in the dtype of the points
        points = (bounds.sum(axis=-1) * 0.5).astype(self.dtype)
        points = np.asarray(points)
        if points.ndim == 0:
            points = points.reshape(1)
            bounds = bounds.reshape(1, 2)
        bounds = bounds.astype(item.dtype)
        new = self.copy()
        cls_new = new
        cls_new._points = None
        cls_new._bounds = None
        cls_new.points = points
        cls_new.bounds = bounds
        return cls_new

    def summary(self, **kwargs):
        return repr(self)

    def xml_element(self, doc=None):
        return repr(self._canonical())

    def _canonical(self):
        def arr(a):
            if a is None:
                return None
            a = np.asarray(a)
            return (str(a.dtype) if a.dtype.kind not in "US" else "string", a.shape, a.tolist())

        return (
            type(self).__name__, self.standard_name, self.long_name, self.var_name,
            str(self.units), self.units.calendar,
            sorted((k, repr(np.asarray(v).tolist())) for k, v in self.attributes.items()),
            repr(self.coord_system), arr(self._points), arr(self._bounds),
            bool(getattr(self, "circular", False)),
        )

    def __repr__(self):
        return "%s(%r, bounds=%r, standard_name=%r, units=%r, long_name=%r, var_name=%r)" % (
            type(self).__name__, self._points, self._bounds, self.standard_name, self.units,
            self.long_name, self.var_name,
        )

    __str__ = __repr__


class AuxCoord(Coord):
    @classmethod
    def from_coord(cls, coord):
        kwargs = dict(
            points=coord.points.copy(), bounds=None if coord.bounds is None else coord.bounds.copy(),
            standard_name=coord.standard_name, long_name=coord.long_name,
            var_name=coord.var_name, units=coord.units,
            attributes=copy.deepcopy(dict(coord.attributes)),
            coord_system=copy.deepcopy(coord.coord_system),
        )
        if issubclass(cls, DimCoord):
            kwargs["circular"] = getattr(coord, "circular", False)
        return cls(**kwargs)


Coord.from_coord = AuxCoord.__dict__["from_coord"]


class DimCoord(Coord):
    @classmethod
    def from_regular(cls, zeroth, step, count, standard_name=None, long_name=None,
                     var_name=None, units=None, attributes=None, coord_system=None,
                     circular=False, climatological=False, with_bounds=False):
        points = (zeroth + step) + step * np.arange(count, dtype=np.float32)
        coord = cls(points, standard_name=standard_name, long_name=long_name,
                    var_name=var_name, units=units, attributes=attributes,
                    coord_system=coord_system, circular=circular)
        if with_bounds:
            d = 0.5 * step
            coord.bounds = np.concatenate([[points - d], [points + d]]).T
        return coord

    def __init__(self, points, standard_name=None, long_name=None, var_name=None, units=None,
                 bounds=None, attributes=None, coord_system=None, circular=False,
                 climatological=False):
        self.circular = bool(circular)
        super().__init__(points, standard_name=standard_name, long_name=long_name,
                         var_name=var_name, units=units, bounds=bounds, attributes=attributes,
                         coord_system=coord_system, climatological=climatological)

    @property
    def metadata(self):
        return DimCoordMetadata(self.standard_name, self.long_name, self.var_name, self.units,
                                self.attributes, self.coord_system, self.climatological,
                                self.circular)

    @metadata.setter
    def metadata(self, md):
        for field in ("standard_name", "long_name", "var_name", "units", "attributes",
                      "coord_system"):
            setattr(self, field, getattr(md, field))

    def _check_points(self, points):
        from iris.util import monotonic

        if points.ndim != 1:
            raise ValueError("The 'DimCoord' points array must be 1-dimensional"
                             if points.ndim else "scalar")
        if not np.issubdtype(points.dtype, np.number):
            raise ValueError("The {!r} {} points array must be numerical.".format(
                self.name(), type(self).__name__))
        if np.ma.is_masked(points):
            raise TypeError("A DimCoord points array must not be masked.")
        if points.size > 1 and not monotonic(points, strict=True):
            raise ValueError("The {!r} {} points array must be strictly monotonic.".format(
                self.name(), type(self).__name__))

    def _check_bounds(self, bounds):
        from iris.util import monotonic

        n = self.shape[0]
        if not np.issubdtype(bounds.dtype, np.number):
            raise ValueError("The bounds array must be numerical.")
        if bounds.ndim == 2 and n > 1:
            direction = set()
            for b in range(bounds.shape[-1]):
                mono, d = monotonic(bounds[:, b], strict=True, return_direction=True)
                if not mono:
                    raise ValueError("The {!r} {} bounds array must be strictly monotonic.".format(
                        self.name(), type(self).__name__))
                direction.add(d)
            if len(direction) > 1:
                raise ValueError("The bounds array must be monotonic in the same direction "
                                 "as the points.")

    def _sanitise(self, values, ndmin):
        values = super()._sanitise(values, ndmin)
        if np.ma.isMaskedArray(values):
            if np.ma.is_masked(values):
                raise TypeError("A DimCoord points array must not be masked.")
            values = values.filled()
        values = np.array(values)
        values.flags.writeable = False
        return values

    def _copy_array(self, array):
        array = array.copy()
        array.flags.writeable = False
        return array

    def _indexed(self, points, bounds):
        try:
            new = self.copy(points, bounds)
            if new.circular and new.shape != self.shape:
                new.circular = False
            return new
        except ValueError:
            return AuxCoord(points, standard_name=self.standard_name, long_name=self.long_name,
                            var_name=self.var_name, units=self.units, bounds=bounds,
                            attributes=self.attributes, coord_system=self.coord_system)

    def collapsed(self, dims_to_collapse=None):
        coord = super().collapsed(dims_to_collapse)
        if self.circular and self.units.modulus is not None:
            bnds = np.array(coord.bounds, copy=True)
            bnds[0, 1] = bnds[0, 0] + self.units.modulus
            coord.bounds = bnds
            coord.points = np.array(np.sum(bnds) * 0.5, dtype=self.points.dtype)
        coord.circular = False
        return coord

    def is_monotonic(self):
        return True


class _SimpleDM(CFVariableMixin):
    def __init__(self, data, standard_name=None, long_name=None, var_name=None, units=None,
                 attributes=None):
        self.standard_name = standard_name
        self.long_name = long_name
        self.var_name = var_name
        self.units = units
        self.attributes = attributes
        self.data = np.asanyarray(data)

    @property
    def shape(self):
        return self.data.shape

    @property
    def ndim(self):
        return self.data.ndim

    def copy(self, values=None):
        new = copy.copy(self)
        new._attributes = copy.deepcopy(self._attributes)
        new.data = np.array(self.data if values is None else values)
        return new

    def __deepcopy__(self, memo):
        return self.copy()

    def __getitem__(self, keys):
        return self.copy(np.atleast_1d(self.data[keys]))

    def __eq__(self, other):
        return (
            type(self) is type(other) and self._names() == other._names()
            and self.units == other.units
            and attributes_equal(self.attributes, other.attributes)
            and array_equal(self.data, other.data)
        )

    def __hash__(self):
        return id(self)


class AncillaryVariable(_SimpleDM):
    pass


class CellMeasure(_SimpleDM):
    def __init__(self, data, standard_name=None, long_name=None, var_name=None, units=None,
                 attributes=None, measure="area"):
        super().__init__(data, standard_name, long_name, var_name, units, attributes)
        self.measure = measure
