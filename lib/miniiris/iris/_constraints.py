"""Stand-in for iris._constraints."""
import operator
from collections.abc import Iterable, Mapping

import numpy as np

import iris.coords
import iris.exceptions


class Constraint:
    def __init__(self, name=None, cube_func=None, coord_values=None, **kwargs):
        if not (name is None or isinstance(name, str)):
            raise TypeError("name must be None or string, got %r" % name)
        if not (cube_func is None or callable(cube_func)):
            raise TypeError("cube_func must be None or callable, got %r" % cube_func)
        if not (coord_values is None or isinstance(coord_values, Mapping)):
            raise TypeError("coord_values must be None or a collections.Mapping, got %r"
                            % coord_values)
        coord_values = {} if coord_values is None else coord_values
        duplicates = set(coord_values.keys()) & set(kwargs.keys())
        if duplicates:
            raise ValueError("Duplicate coordinate conditions specified for: %s"
                             % list(duplicates))
        self._name = name
        self._cube_func = cube_func
        self._coord_values = dict(coord_values)
        self._coord_values.update(kwargs)

    def __repr__(self):
        args = []
        if self._name:
            args.append(("name", self._name))
        if self._cube_func:
            args.append(("cube_func", self._cube_func))
        if self._coord_values:
            args.append(("coord_values", self._coord_values))
        return "Constraint(%s)" % ", ".join("%s=%r" % a for a in args)

    def __and__(self, other):
        return ConstraintCombination(self, other, operator.__and__)

    def __rand__(self, other):
        return ConstraintCombination(other, self, operator.__and__)

    def _cim_extract(self, cube):
        shape = cube.shape
        match = True
        if self._name:
            match = self._name in cube._names() or (
                not cube._names() and self._name == cube.name()
            )
        if match and self._cube_func:
            match = bool(self._cube_func(cube))
        cols = [True] * len(shape)
        if not match:
            return False
        for name, value in self._coord_values.items():
            r = self._coord_extract(cube, name, value)
            if r is False:
                return False
            if r is True:
                continue
            dim, mask = r
            if cols[dim] is True:
                cols[dim] = mask
            else:
                cols[dim] = cols[dim] & mask
        return cols

    @staticmethod
    def _coord_extract(cube, name, value):
        try:
            coord = cube.coord(name)
        except iris.exceptions.CoordinateNotFoundError:
            return False
        dims = cube.coord_dims(coord)
        if len(dims) > 1:
            raise iris.exceptions.CoordinateMultiDimError(
                "Cannot apply constraints to multidimensional coordinates"
            )
        if callable(value):
            func = value
        elif isinstance(value, Iterable) and not isinstance(
            value, (str, iris.coords.Cell)
        ):
            desired = list(value)

            def func(cell):
                return any(bool(cell == v) for v in desired)
        else:
            def func(cell):
                return bool(cell == value)

        r = np.array([bool(func(cell)) for cell in coord.cells()])
        if not dims:
            return bool(r[0])
        return dims[0], r

    def extract(self, cube):
        cols = self._cim_extract(cube)
        return _apply_cols(cube, cols)


def _apply_cols(cube, cols):
    if cols is False:
        return None
    idx = []
    for c in cols:
        if c is True:
            idx.append(slice(None))
            continue
        where = np.where(c)[0]
        if where.size == 0:
            return None
        if where.size == 1:
            idx.append(int(where[0]))
        else:
            d = np.diff(where)
            if (d == d[0]).all():
                idx.append(slice(int(where[0]), int(where[-1]) + 1, int(d[0])))
            else:
                idx.append(tuple(int(i) for i in where))
    if all(c is True for c in cols):
        return cube
    return cube[tuple(idx)]


class ConstraintCombination(Constraint):
    def __init__(self, lhs, rhs, operator):
        self.lhs = as_constraint(lhs)
        self.rhs = as_constraint(rhs)
        self.operator = operator

    def __repr__(self):
        return "ConstraintCombination(%r, %r, %r)" % (self.lhs, self.rhs, self.operator)

    @property
    def _coord_values(self):
        out = dict(self.lhs._coord_values)
        out.update(self.rhs._coord_values)
        return out

    def _cim_extract(self, cube):
        a = self.lhs._cim_extract(cube)
        if a is False:
            return False
        b = self.rhs._cim_extract(cube)
        if b is False:
            return False
        out = []
        for x, y in zip(a, b):
            out.append(y if x is True else x if y is True else x & y)
        return out


class AttributeConstraint(Constraint):
    def __init__(self, **attributes):
        self._attributes = attributes
        super().__init__(cube_func=self._cube_func_)

    def _cube_func_(self, cube):
        for name, value in self._attributes.items():
            if name not in cube.attributes:
                return False
            cv = cube.attributes[name]
            if callable(value):
                if not value(cv):
                    return False
            elif cv != value:
                return False
        return True

    def __repr__(self):
        return "AttributeConstraint(%r)" % self._attributes


class NameConstraint(Constraint):
    def __init__(self, standard_name="none", long_name="none", var_name="none", STASH="none"):
        self.standard_name, self.long_name = standard_name, long_name
        self.var_name, self.STASH = var_name, STASH
        super().__init__(cube_func=self._cf)

    def _cf(self, cube):
        def m(actual, expected):
            return expected == "none" or (
                expected(actual) if callable(expected) and actual is not None
                else actual == expected
            )

        return (m(cube.standard_name, self.standard_name) and m(cube.long_name, self.long_name)
                and m(cube.var_name, self.var_name))


def as_constraint(thing):
    if isinstance(thing, Constraint):
        return thing
    if thing is None:
        return Constraint()
    if isinstance(thing, str):
        return Constraint(thing)
    raise TypeError("%r cannot be cast to a constraint." % (thing,))


def list_of_constraints(constraints):
    if isinstance(constraints, str) or not isinstance(constraints, Iterable):
        constraints = [constraints]
    return [as_constraint(c) for c in constraints]
