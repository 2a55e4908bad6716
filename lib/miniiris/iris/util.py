"""Stand-in for iris.util."""
import numpy as np

import iris.exceptions
from iris._base import array_equal, broadcast_to_shape, is_lazy  # noqa: F401


def monotonic(array, strict=False, return_direction=False):
    array = np.asanyarray(array)
    if array.ndim != 1 or len(array) <= 1:
        if array.ndim != 1:
            raise ValueError("The array to check must be 1 dimensional and have more than 1 element.")
        return (True, 1) if return_direction else True
    d = np.diff(array)
    if array.dtype.kind == "u":
        d = np.diff(array.astype(np.int64))
    sign = np.sign(d)
    if strict:
        mono = bool((sign == sign[0]).all() and sign[0] != 0)
        direction = sign[0]
    else:
        nz = sign[sign != 0]
        mono = bool(nz.size == 0 or (nz == nz[0]).all())
        direction = nz[0] if nz.size else 1
    return (mono, int(direction)) if return_direction else mono


def guess_coord_axis(coord):
    axis = None
    if coord.standard_name in ("longitude", "grid_longitude", "projection_x_coordinate"):
        axis = "X"
    elif coord.standard_name in ("latitude", "grid_latitude", "projection_y_coordinate"):
        axis = "Y"
    elif coord.units.is_convertible("hPa") or coord.attributes.get("positive") in ("up", "down"):
        axis = "Z"
    elif coord.units.is_time_reference():
        axis = "T"
    return axis


def _build_full_slice_given_keys(keys, ndim):
    if not isinstance(keys, tuple):
        keys = (keys,)
    if len(keys) > ndim and ndim != 0 and isinstance(keys[-1], slice) \
            and keys[-1] == slice(None) and not any(k is Ellipsis for k in keys):
        keys = keys[:-1]
    if len(keys) > ndim:
        if not (len(keys) == ndim + 1 and any(k is Ellipsis for k in keys)):
            raise IndexError("More slices requested than dimensions. Requested %r, but there "
                             "were only %s dimensions." % (keys, ndim))
    full = []
    keys = list(keys)
    n_ell = sum(1 for k in keys if k is Ellipsis)
    seen = False
    for k in keys:
        if k is Ellipsis and not seen:
            full.extend([slice(None)] * (ndim - len(keys) + 1))
            seen = True
        elif k is Ellipsis:
            full.append(slice(None))
        else:
            full.append(k)
    full.extend([slice(None)] * (ndim - len(full)))
    return tuple(full[:ndim])


def squeeze(cube):
    idx = tuple(0 if n == 1 else slice(None) for n in cube.shape)
    if all(isinstance(i, slice) for i in idx):
        return cube[tuple(slice(None) for _ in idx)] if idx else cube.copy()
    if cube.shape == (1,) * cube.ndim and cube.ndim > 0:
        return cube[idx]
    return cube[idx]


def new_axis(src_cube, scalar_coord=None, expand_extras=()):
    if scalar_coord is not None:
        scalar_coord = src_cube.coord(scalar_coord)
        if not src_cube.coord_dims(scalar_coord) == ():
            raise ValueError(f"{scalar_coord.name()} is not a scalar coordinate.")
    from iris.cube import Cube

    data = src_cube.core_data()
    data = data[None]
    new = Cube(data)
    new.metadata = src_cube.metadata
    for coord in src_cube.aux_coords:
        if scalar_coord is not None and scalar_coord is coord:
            from iris.coords import DimCoord

            new.add_dim_coord(DimCoord.from_coord(coord), 0)
        else:
            dims = tuple(d + 1 for d in src_cube.coord_dims(coord))
            new.add_aux_coord(coord.copy(), dims)
    for coord in src_cube.dim_coords:
        new.add_dim_coord(coord.copy(), src_cube.coord_dims(coord)[0] + 1)
    for av, dims in src_cube._ancillary:
        new.add_ancillary_variable(av.copy(), tuple(d + 1 for d in dims))
    for av, dims in src_cube._measures:
        new.add_cell_measure(av.copy(), tuple(d + 1 for d in dims))
    return new


def promote_aux_coord_to_dim_coord(cube, name_or_coord):
    from iris.coords import Coord, DimCoord

    aux = name_or_coord if isinstance(name_or_coord, Coord) else cube.coord(name_or_coord)
    aux = cube.coord(aux)
    if aux in cube.dim_coords:
        return
    dims = cube.coord_dims(aux)
    if len(dims) != 1:
        raise ValueError("Attempt to promote an AuxCoord (%s) which is associated with %d "
                         "dimensions" % (aux.name(), len(dims)))
    try:
        dim_coord = DimCoord.from_coord(aux)
    except ValueError:
        raise ValueError("Attempt to promote an AuxCoord (%s) fails when attempting to create a "
                         "DimCoord from the AuxCoord." % aux.name())
    old = cube.coords(dimensions=dims, dim_coords=True)
    if old:
        demote_dim_coord_to_aux_coord(cube, old[0])
    cube.remove_coord(aux)
    cube.add_dim_coord(dim_coord, dims[0])


def demote_dim_coord_to_aux_coord(cube, name_or_coord):
    coord = cube.coord(name_or_coord)
    if not any(c is coord for c in cube.dim_coords):
        return
    dims = cube.coord_dims(coord)
    cube.remove_coord(coord)
    cube.add_aux_coord(coord, dims)


def equalise_attributes(cubes):
    from iris._base import _value_equal

    removed = []
    common = set(cubes[0].attributes)
    for cube in cubes[1:]:
        common &= {k for k in cube.attributes
                   if k in cubes[0].attributes
                   and _value_equal(cube.attributes[k], cubes[0].attributes[k])}
    for cube in cubes:
        gone = {}
        for k in list(cube.attributes):
            if k not in common:
                gone[k] = cube.attributes.pop(k)
        removed.append(gone)
    return removed


def unify_time_units(cubes):
    epochs = {}
    for cube in cubes:
        for coord in cube.coords():
            if coord.units.is_time_reference():
                epoch = epochs.setdefault(coord.units.calendar, coord.units.origin)
                import cf_units

                coord.convert_units(cf_units.Unit(epoch, coord.units.calendar))


def reverse(cube_or_array, coords_or_dims):
    arr = cube_or_array
    if isinstance(arr, np.ndarray):
        dims = np.atleast_1d(coords_or_dims)
        idx = [slice(None)] * arr.ndim
        for d in dims:
            idx[d] = slice(None, None, -1)
        return arr[tuple(idx)]
    cube = arr
    items = coords_or_dims if isinstance(coords_or_dims, (list, tuple)) else [coords_or_dims]
    idx = [slice(None)] * cube.ndim
    for it in items:
        if isinstance(it, (int, np.integer)):
            idx[it] = slice(None, None, -1)
        else:
            for d in cube.coord_dims(it):
                idx[d] = slice(None, None, -1)
    return cube[tuple(idx)]


def describe_diff(cube_a, cube_b, output_file=None):
    lines = []
    if cube_a.metadata != cube_b.metadata:
        lines.append("metadata differs: %r / %r" % (cube_a.metadata, cube_b.metadata))
    if cube_a.shape != cube_b.shape:
        lines.append("shape differs")
    text = "\n".join(lines)
    if output_file is None:
        print(text)
    else:
        output_file.write(text)


def rolling_window(a, window=1, step=1, axis=-1):
    axis = axis % a.ndim
    n = (a.shape[axis] - window + step) // step
    idx = np.arange(n)[:, None] * step + np.arange(window)[None, :]
    data = np.take(np.ma.getdata(a), idx, axis=axis)
    data = np.moveaxis(data, axis + 1, -1)
    if np.ma.isMaskedArray(a):
        mask = np.moveaxis(np.take(np.ma.getmaskarray(a), idx, axis=axis), axis + 1, -1)
        return np.ma.array(data, mask=mask)
    return data


def is_regular(coord):
    try:
        regular_step(coord)
    except (iris.exceptions.CoordinateNotRegularError, iris.exceptions.CoordinateMultiDimError,
            TypeError):
        return False
    return True


def regular_step(coord):
    if coord.ndim != 1:
        raise iris.exceptions.CoordinateMultiDimError("Expected 1D coord")
    if coord.shape[0] < 2:
        raise ValueError("Expected a non-scalar coord")
    diffs = np.diff(coord.points)
    avg = np.mean(diffs)
    if not np.allclose(diffs, avg, rtol=0.001):
        raise iris.exceptions.CoordinateNotRegularError("Coord %s is not regular" % coord.name())
    return avg.astype(coord.points.dtype)
