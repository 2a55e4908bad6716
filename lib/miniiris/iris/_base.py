"""Names, units and attributes shared by cubes and coordinates."""
from collections import namedtuple

import cf_units
import numpy as np

from iris.std_names import STD_NAMES

BaseMetadata = namedtuple(
    "BaseMetadata", ["standard_name", "long_name", "var_name", "units", "attributes"]
)
CoordMetadata = namedtuple(
    "CoordMetadata",
    ["standard_name", "long_name", "var_name", "units", "attributes", "coord_system",
     "climatological"],
)
DimCoordMetadata = namedtuple(
    "DimCoordMetadata",
    ["standard_name", "long_name", "var_name", "units", "attributes", "coord_system",
     "climatological", "circular"],
)
_CubeMetadata = namedtuple(
    "CubeMetadata",
    ["standard_name", "long_name", "var_name", "units", "attributes", "cell_methods"],
)


def _meta_name(meta, default=None):
    return meta.standard_name or meta.long_name or meta.var_name or default or "unknown"


class CubeMetadata(_CubeMetadata):
    def name(self, default=None):
        return _meta_name(self, default)

    def __eq__(self, other):
        if not isinstance(other, tuple) or len(self) != len(other):
            return NotImplemented
        for field in ("standard_name", "long_name", "var_name", "units", "cell_methods"):
            if getattr(self, field) != getattr(other, field):
                return False
        return attributes_equal(self.attributes, other.attributes)

    def __ne__(self, other):
        r = self.__eq__(other)
        return r if r is NotImplemented else not r

    __hash__ = None


def hexdigest(value):
    if isinstance(value, np.ndarray):
        return ("ndarray", value.shape, str(value.dtype), value.tobytes())
    return value


def _value_equal(a, b):
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        a_, b_ = np.asarray(a), np.asarray(b)
        return a_.shape == b_.shape and a_.dtype == b_.dtype and bool(np.all(a_ == b_))
    return bool(a == b)


def attributes_equal(left, right):
    if set(left) != set(right):
        return False
    return all(_value_equal(left[k], right[k]) for k in left)


def convert_attributes(attributes):
    """Cube-style attribute normalisation is not applied by iris; keep a copy."""
    return LimitedAttributeDict(attributes or {})


class LimitedAttributeDict(dict):
    _forbidden_keys = (
        "standard_name", "long_name", "units", "bounds", "axis", "calendar",
        "leap_month", "leap_year", "month_lengths", "coordinates", "grid_mapping",
        "climatology", "cell_methods", "formula_terms", "compress", "add_offset",
        "scale_factor", "_FillValue",
    )

    def __init__(self, *args, **kwargs):
        dict.__init__(self, *args, **kwargs)
        for key in self:
            self._check(key)

    def _check(self, key):
        if key in self._forbidden_keys:
            raise ValueError(f"{key!r} is not a permitted attribute")

    def __setitem__(self, key, value):
        self._check(key)
        dict.__setitem__(self, key, value)

    def update(self, other=(), **kwargs):
        if hasattr(other, "keys"):
            for key in other.keys():
                self[key] = other[key]
        else:
            for key, value in other:
                self[key] = value
        for key, value in kwargs.items():
            self[key] = value

    def setdefault(self, key, default=None):
        if key not in self:
            self[key] = default
        return self[key]

    def copy(self):
        return LimitedAttributeDict(self)

    def __eq__(self, other):
        if not isinstance(other, dict):
            return NotImplemented
        return attributes_equal(self, other)

    def __ne__(self, other):
        r = self.__eq__(other)
        return r if r is NotImplemented else not r

    __hash__ = None


def token(name):
    """Return name if it is a valid NetCDF token, otherwise None."""
    import re

    if name is not None and not re.match(r"^[a-zA-Z0-9][\w\.\+\-@]*$", name):
        return None
    return name


def get_valid_standard_name(name):
    if name is None:
        return None
    parts = name.split(None, 1) if name.strip() else [name]
    std = parts[0] if parts else name
    mods = ("detection_minimum", "number_of_observations", "standard_error", "status_flag")
    valid = std in STD_NAMES
    if valid and len(parts) == 2:
        valid = parts[1] in mods
    if not valid:
        raise ValueError("{!r} is not a valid standard_name".format(name))
    return name


class CFVariableMixin:
    _standard_name = None
    long_name = None
    _var_name = None

    @property
    def standard_name(self):
        return self._standard_name

    @standard_name.setter
    def standard_name(self, name):
        self._standard_name = get_valid_standard_name(name)

    @property
    def var_name(self):
        return self._var_name

    @var_name.setter
    def var_name(self, name):
        if name is not None:
            if not name:
                raise ValueError("An empty string is not a valid netCDF variable name.")
            if set(name).intersection(" \t\n\r"):
                raise ValueError(
                    "{!r} is not a valid netCDF variable name as it contains whitespace.".format(
                        name
                    )
                )
        self._var_name = name

    @property
    def units(self):
        return self._units

    @units.setter
    def units(self, unit):
        self._units = cf_units.as_unit(unit)

    @property
    def attributes(self):
        return self._attributes

    @attributes.setter
    def attributes(self, attributes):
        self._attributes = LimitedAttributeDict(attributes or {})

    def name(self, default=None, token=None):
        result = self.standard_name or self.long_name or self.var_name or default or "unknown"
        return str(result)

    def rename(self, name):
        try:
            self.standard_name = name
            self.long_name = None
        except ValueError:
            self.standard_name = None
            self.long_name = str(name)
        self.var_name = None

    def _names(self):
        return {x for x in (self.standard_name, self.long_name, self.var_name) if x}


def is_lazy(data):
    return hasattr(data, "compute")


def as_concrete(data):
    if is_lazy(data):
        data = data.compute()
        if isinstance(data, np.generic):
            data = np.asanyarray(data)
    return data


def array_equal(a, b, withnans=False):
    a, b = as_concrete(a), as_concrete(b)
    a = a if isinstance(a, np.ndarray) else np.asanyarray(a)
    b = b if isinstance(b, np.ndarray) else np.asanyarray(b)
    if a.shape != b.shape:
        return False
    if a.size == 0:
        return True
    ma, mb = np.ma.getmaskarray(a), np.ma.getmaskarray(b)
    if (ma != mb).any():
        return False
    eq = np.ma.getdata(a) == np.ma.getdata(b)
    eq = np.broadcast_to(np.asarray(eq), a.shape) | ma
    if withnans and a.dtype.kind == "f" and b.dtype.kind == "f":
        eq = eq | (np.isnan(np.ma.getdata(a)) & np.isnan(np.ma.getdata(b)))
    return bool(eq.all())


def broadcast_to_shape(array, shape, dim_map):
    array = np.asanyarray(array)
    if len(dim_map) != array.ndim:
        raise ValueError(
            "dim_map must have an entry for every dimension of the input array"
        )
    order = np.argsort(dim_map, kind="stable") if len(dim_map) else []
    arr = array.transpose([int(i) for i in order]) if len(dim_map) else array
    full = [1] * len(shape)
    for d, n in zip(sorted(dim_map), arr.shape):
        full[d] = n
    masked = np.ma.isMaskedArray(arr)
    data = np.broadcast_to(np.ma.getdata(arr).reshape(full), shape)
    if masked:
        if np.ma.is_masked(arr):
            mask = np.broadcast_to(np.ma.getmaskarray(arr).reshape(full), shape)
            return np.ma.array(data, mask=mask)
        return np.ma.array(data)
    return data
