"""Stand-in for iris.analysis.maths."""
import numpy as np

import iris.coords
import iris.exceptions


def _broadcast(cube, other):
    """Return (template, a, b) where a, b are numpy-broadcastable data arrays."""
    if cube.shape == other.shape:
        return cube, cube.data, other.data
    big, small, swap = (cube, other, False) if cube.ndim >= other.ndim else (other, cube, True)
    dims = []
    used = set()
    for d in range(small.ndim):
        cs = small.coords(dimensions=d, dim_coords=True)
        target = None
        if cs and big.coords(cs[0].name()):
            bd = big.coord_dims(big.coord(cs[0].name()))
            if len(bd) == 1:
                target = bd[0]
        if target is None:
            for k in range(big.ndim - 1, -1, -1):
                if k not in used and big.shape[k] == small.shape[d]:
                    target = k
                    break
        if target is None:
            raise ValueError("cubes cannot be broadcast together")
        used.add(target)
        dims.append(target)
    shape = [1] * big.ndim
    order = np.argsort(dims, kind="stable")
    arr = small.data.transpose([int(i) for i in order])
    for d, n in zip(sorted(dims), arr.shape):
        shape[d] = n
    arr = arr.reshape(shape)
    return (big, arr, big.data) if swap else (big, big.data, arr)


def _operate(cube, other, func, new_units, in_place, keep_name=False):
    from iris.cube import Cube

    if isinstance(other, Cube):
        template, a, b = _broadcast(cube, other)
        for c in cube.dim_coords:
            if other.coords(c.name()):
                o = other.coord(c.name())
                if o.shape == c.shape and c.shape != (1,) and not np.allclose(
                        c.points, o.points):
                    raise ValueError("Coordinate %r has different points for the LHS and RHS"
                                     % c.name())
        res = func(a, b)
        if in_place:
            cube._data = np.asanyarray(res)
            new = cube
        else:
            new = template.copy(data=np.asanyarray(res))
        other_c = other if template is cube else cube
        if not in_place:
            for c in list(new.coords()):
                if new.coord_dims(c):
                    continue
                if other_c.coords(c.name()):
                    if other_c.coord(c.name()) != c:
                        new.remove_coord(c)
                    continue
            have = {c.name() for c in new.coords()}
            for c in other_c.coords():
                if not other_c.coord_dims(c) and c.name() not in {
                        k.name() for k in template.coords()} and c.name() not in have:
                    new.add_aux_coord(c.copy())
        from iris._base import _value_equal

        # lenient combination: keep unless the two sides conflict
        attrs = {k: v for k, v in cube.attributes.items()
                 if k not in other.attributes or _value_equal(v, other.attributes[k])}
        attrs.update({k: v for k, v in other.attributes.items() if k not in cube.attributes})
        if not in_place:
            same = cube.name() == other.name() and keep_name
            new.attributes = attrs
            new.cell_methods = cube.cell_methods if cube.cell_methods == other.cell_methods \
                else ()
            if not same:
                new.standard_name = None
                new.long_name = None
                new.var_name = None
    else:
        if isinstance(other, iris.coords.Coord):
            c = other
            dims = cube.coord_dims(cube.coord(c))
            from iris._base import broadcast_to_shape

            val = c.points if c.shape == (1,) else broadcast_to_shape(c.points, cube.shape, dims)
            if c.shape == (1,):
                val = val[0]
        else:
            val = other
            if isinstance(val, (int, float)) and not isinstance(val, bool):
                pass
        if in_place:
            cube._data = np.asanyarray(func(cube.data, val))
            new = cube
        else:
            new = cube.copy(data=np.asanyarray(func(cube.data, val)))
            if not keep_name:
                new.standard_name = None
                new.long_name = None
                new.var_name = None
                new.cell_methods = ()
    new.units = new_units
    return new


def _dtype(func):
    return func


def add(cube, other, dim=None, in_place=False):
    u = cube.units
    _check_units(cube, other)
    return _operate(cube, other, np.ma.add if _masked(cube, other) else np.add, u, in_place,
                    keep_name=in_place)


def subtract(cube, other, dim=None, in_place=False):
    _check_units(cube, other)
    return _operate(cube, other, np.ma.subtract if _masked(cube, other) else np.subtract,
                    cube.units, in_place, keep_name=in_place)


def multiply(cube, other, dim=None, in_place=False):
    from iris.cube import Cube

    ou = other.units if hasattr(other, "units") else None
    u = cube.units if ou is None else cube.units * ou
    return _operate(cube, other, np.ma.multiply if _masked(cube, other) else np.multiply, u,
                    in_place, keep_name=in_place)


def divide(cube, other, dim=None, in_place=False):
    ou = other.units if hasattr(other, "units") else None
    u = cube.units if ou is None else cube.units / ou
    return _operate(cube, other, np.ma.divide if _masked(cube, other) else np.divide, u,
                    in_place, keep_name=in_place)


def exponentiate(cube, exponent, in_place=False):
    return _operate(cube, exponent, lambda a, b: a ** b, cube.units ** exponent, in_place)


def _masked(*items):
    return any(np.ma.isMaskedArray(getattr(i, "data", i)) for i in items)


def _check_units(cube, other):
    if hasattr(other, "units") and cube.units != other.units:
        raise iris.exceptions.NotYetImplementedError(
            "Differing units (%s & %s) for %r & %r" % (cube.units, other.units, cube.name(),
                                                       other.name()))


def apply_ufunc(ufunc, cube, other=None, new_unit=None, new_name=None, in_place=False):
    data = ufunc(cube.data) if other is None else ufunc(cube.data, other.data)
    new = cube.copy(data=data)
    if new_unit:
        new.units = new_unit
    new.rename(new_name)
    return new
