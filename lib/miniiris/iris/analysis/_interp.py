"""Rectilinear interpolation and regridding."""
import numpy as np

import iris.coords


def _locate(src, pts, method, extrap):
    """Return (i0, i1, w, outside) for 1-D sample points against sorted src."""
    src = np.asarray(src, dtype=np.float64)
    pts = np.asarray(pts, dtype=np.float64)
    n = src.size
    outside = (pts < src.min()) | (pts > src.max())
    if n == 1:
        z = np.zeros(pts.shape, dtype=int)
        return z, z, np.zeros(pts.shape), outside
    rev = src[0] > src[-1]
    s = src[::-1] if rev else src
    i0 = np.clip(np.searchsorted(s, pts, side="right") - 1, 0, n - 2)
    i1 = i0 + 1
    w = (pts - s[i0]) / (s[i1] - s[i0])
    if method == "nearest":
        w = np.where(w > 0.5, 1.0, 0.0)
    if rev:
        i0, i1 = n - 1 - i0, n - 1 - i1
    return i0, i1, w, outside


def _apply_1d(data, axis, src, pts, method, extrap):
    i0, i1, w, outside = _locate(src, pts, method, extrap)
    if extrap == "error" and outside.any():
        raise ValueError("One of the requested xi is out of bounds")
    masked = np.ma.isMaskedArray(data)
    d = np.ma.getdata(data)
    shape = [1] * d.ndim
    shape[axis] = len(np.atleast_1d(w))
    ww = w.reshape(shape)
    a, b = np.take(d, i0, axis=axis), np.take(d, i1, axis=axis)
    if method == "nearest":
        out = np.where(ww > 0.5, b, a)
    else:
        out = (1 - ww) * a + ww * b
        out = np.where(ww == 0, a, np.where(ww == 1, b, out))
        if d.dtype.kind in "iu":
            out = np.asarray(out, dtype=np.float64)
    mask = None
    if masked:
        m = np.ma.getmaskarray(data)
        ma_, mb_ = np.take(m, i0, axis=axis), np.take(m, i1, axis=axis)
        if method == "nearest":
            mask = np.where(ww > 0.5, mb_, ma_)
        else:
            mask = (ma_ & (ww != 1)) | (mb_ & (ww != 0))
    if outside.any() and extrap in ("nan", "mask", "nanmask"):
        o = np.broadcast_to(outside.reshape(shape), out.shape)
        if extrap == "nan" or (extrap == "nanmask" and not masked):
            out = np.where(o, np.nan, out)
        else:
            mask = o.copy() if mask is None else (mask | o)
    if mask is not None:
        out = np.ma.array(out, mask=mask)
    return out


class RectilinearInterpolator:
    def __init__(self, cube, coords, method, extrapolation_mode):
        self.cube = cube
        self.coords = [cube.coord(c) for c in coords]
        self.method = method
        self.mode = extrapolation_mode
        if self.mode is None:
            self.mode = "linear" if method == "linear" else "extrapolate"

    def _points(self, coord, values):
        import datetime

        vals = values if isinstance(values, (list, tuple, np.ndarray)) else [values]
        scalar = not isinstance(values, (list, tuple, np.ndarray)) or np.ndim(values) == 0
        out = []
        for v in np.ravel(np.array(vals, dtype=object)):
            if hasattr(v, "timetuple"):
                v = coord.units.date2num(v)
            out.append(v)
        return np.array(out), scalar

    def __call__(self, sample_points, collapse_scalar=True):
        from iris.cube import Cube

        cube = self.cube
        data = cube.data
        dims = []
        specs = {}
        scalar_dims = []
        for coord, values in zip(self.coords, sample_points):
            pts, scalar = self._points(coord, values)
            cd = cube.coord_dims(coord)
            if len(cd) != 1:
                raise ValueError("Interpolation coords must be 1-d for rectilinear interpolation.")
            d = cd[0]
            specs[d] = (coord, pts)
            dims.append(d)
            if scalar:
                scalar_dims.append(d)
            data = _apply_1d(data, d, coord.points, pts, self.method, self.mode)
        if cube.dtype.kind == "f":
            data = data.astype(cube.dtype)
        elif self.method == "nearest":
            data = data.astype(cube.dtype)
        new = Cube(data)
        new.metadata = cube.metadata
        for c in cube.dim_coords + cube.aux_coords:
            cd = cube.coord_dims(c)
            is_dim = any(c is x for x in cube.dim_coords)
            if not set(cd) & set(specs):
                nc = c.copy()
            else:
                d = [k for k in cd if k in specs][0]
                base, pts = specs[d]
                if c is base:
                    p = pts
                    if hasattr(p, "astype"):
                        p = np.asarray(p, dtype=c.dtype if c.dtype.kind == "f" else
                                       np.asarray(p.tolist()).dtype)
                    b = None
                else:
                    if c.dtype.kind not in "iuf":
                        continue
                    p = c.points
                    for k in cd:
                        if k in specs:
                            p = _apply_1d(p, cd.index(k), specs[k][0].points, specs[k][1],
                                          self.method, self.mode)
                    p = np.asarray(p).astype(c.dtype) if c.dtype.kind == "f" or \
                        self.method == "nearest" else np.asarray(p)
                    b = None
                if c.has_bounds() and c is not base:
                    b = None
                kw = dict(standard_name=c.standard_name, long_name=c.long_name,
                          var_name=c.var_name, units=c.units, attributes=c.attributes,
                          coord_system=c.coord_system)
                try:
                    nc = iris.coords.DimCoord(p, bounds=b, **kw) if is_dim or isinstance(
                        c, iris.coords.DimCoord) else iris.coords.AuxCoord(p, bounds=b, **kw)
                except ValueError:
                    nc = iris.coords.AuxCoord(p, bounds=b, **kw)
            if is_dim and isinstance(nc, iris.coords.DimCoord):
                new.add_dim_coord(nc, cd[0])
            else:
                new._add_unique_aux_coord(nc, cd)
        if collapse_scalar and scalar_dims:
            idx = tuple(0 if d in scalar_dims else slice(None) for d in range(new.ndim))
            new = new[idx]
        return new


class RectilinearRegridder:
    def __init__(self, src, target, method, extrapolation_mode):
        self.src = src
        self.target = target
        self.method = method
        self.mode = extrapolation_mode
        if self.mode is None:
            self.mode = "linear" if method == "linear" else "extrapolate"

    def __call__(self, src):
        from iris.cube import Cube

        tx, ty = self.target.coord(axis="x", dim_coords=True), self.target.coord(
            axis="y", dim_coords=True)
        sx, sy = src.coord(axis="x", dim_coords=True), src.coord(axis="y", dim_coords=True)
        scs, tcs = sx.coord_system, tx.coord_system
        (xd,), (yd,) = src.coord_dims(sx), src.coord_dims(sy)
        data = src.data
        if scs == tcs or scs is None or tcs is None:
            px, py = tx.points, ty.points
            if sx.circular or (sx.units.modulus and False):
                pass
            if sx.units.modulus is not None and self.mode != "error":
                pass
            data = self._axes(data, xd, yd, sx, sy, px, py)
        else:
            gx, gy = np.meshgrid(tx.points, ty.points)
            pts = scs.as_cartopy_projection().transform_points(
                tcs.as_cartopy_projection(), gx, gy)
            qx, qy = pts[..., 0], pts[..., 1]
            moved = np.moveaxis(data, (yd, xd), (-2, -1))
            moved = _bilinear_points(moved, sx.points, sy.points, qx, qy, self.method, self.mode)
            data = np.moveaxis(moved, (-2, -1), (yd, xd))
        if src.dtype.kind == "f" or self.method == "nearest":
            data = data.astype(src.dtype)
        new = Cube(data)
        new.metadata = src.metadata
        for c in src.dim_coords:
            (d,) = src.coord_dims(c)
            if d == xd:
                new.add_dim_coord(tx.copy(), d)
            elif d == yd:
                new.add_dim_coord(ty.copy(), d)
            else:
                new.add_dim_coord(c.copy(), d)
        for c in src.aux_coords:
            cd = src.coord_dims(c)
            if set(cd) & {xd, yd}:
                continue
            new._add_unique_aux_coord(c.copy(), cd)
        return new

    def _axes(self, data, xd, yd, sx, sy, px, py):
        if sx.circular:
            modulus = sx.units.modulus or 360
            px = (px - sx.points.min()) % modulus + sx.points.min()
            srcx = np.append(sx.points, sx.points[0] + modulus)
            data = np.ma.concatenate if False else data
            first = np.take(data, [0], axis=xd)
            cat = np.ma.concatenate if np.ma.isMaskedArray(data) else np.concatenate
            data = cat([data, first], axis=xd)
        else:
            srcx = sx.points
        data = _apply_1d(data, xd, srcx, px, self.method, self.mode)
        return _apply_1d(data, yd, sy.points, py, self.method, self.mode)


def _bilinear_points(data, sx, sy, qx, qy, method, mode):
    ix0, ix1, wx, ox = _locate(sx, qx, method, mode)
    iy0, iy1, wy, oy = _locate(sy, qy, method, mode)
    d = np.ma.getdata(data)
    out = (
        d[..., iy0, ix0] * (1 - wx) * (1 - wy) + d[..., iy0, ix1] * wx * (1 - wy)
        + d[..., iy1, ix0] * (1 - wx) * wy + d[..., iy1, ix1] * wx * wy
    )
    o = ox | oy
    if np.ma.isMaskedArray(data):
        m = np.ma.getmaskarray(data).astype(float)
        mm = (
            m[..., iy0, ix0] * (1 - wx) * (1 - wy) + m[..., iy0, ix1] * wx * (1 - wy)
            + m[..., iy1, ix0] * (1 - wx) * wy + m[..., iy1, ix1] * wx * wy
        ) > 0
        if mode in ("mask", "nanmask"):
            mm = mm | o
        return np.ma.array(out, mask=mm)
    if mode == "error" and o.any():
        raise ValueError("One of the requested xi is out of bounds")
    if mode in ("nan", "nanmask") and o.any():
        out = np.where(o, np.nan, out)
    if mode == "mask" and o.any():
        return np.ma.array(out, mask=np.broadcast_to(o, out.shape))
    return out
