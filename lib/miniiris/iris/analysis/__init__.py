"""Stand-in for iris.analysis."""
import numpy as np
import numpy.ma as ma

import iris.coords
import iris.exceptions


class _Aggregator:
    def __init__(self, cell_method, call_func, units_func=None, lazy_func=None, **kwargs):
        self.cell_method = cell_method
        self.call_func = call_func
        self.units_func = units_func
        self.lazy_func = lazy_func
        self._kwargs = kwargs

    def name(self):
        return (self.cell_method or "").replace(" ", "_")

    def aggregate(self, data, axis, **kwargs):
        kwargs = dict(list(self._kwargs.items()) + list(kwargs.items()))
        mdtol = kwargs.pop("mdtol", None)
        result = self.call_func(data, axis=axis, **kwargs)
        if mdtol is not None and ma.isMaskedArray(data) and result is not ma.masked:
            fraction = np.mean(ma.getmaskarray(data), axis=axis)
            mask = fraction > mdtol
            if ma.isMaskedArray(result):
                result = ma.array(ma.getdata(result), mask=mask)
            elif np.any(mask):
                result = ma.array(result, mask=mask)
        return result

    def update_metadata(self, cube, coords, **kwargs):
        if self.units_func is not None:
            cube.units = self.units_func(cube.units)
        kw = dict(list(self._kwargs.items()) + list(kwargs.items()))
        if not isinstance(coords, (list, tuple)):
            coords = [coords]
        names = [c.name() for c in coords]
        method = self.cell_method
        if method is not None:
            cube.add_cell_method(iris.coords.CellMethod(method.format(**kw), names))

    def post_process(self, cube, data_result, coords, **kwargs):
        if data_result is ma.masked:
            data_result = ma.array(0.0, mask=True, dtype=cube.dtype)
        data_result = np.asanyarray(data_result)
        cube._data = data_result
        return cube

    def aggregate_shape(self, **kwargs):
        return ()

    def uses_weighting(self, **kwargs):
        return False

    def __repr__(self):
        return "<%s %r>" % (type(self).__name__, self.cell_method)

    def __call__(self, *args, **kwargs):
        raise TypeError("aggregator is not callable")


class Aggregator(_Aggregator):
    pass


class WeightedAggregator(Aggregator):
    def uses_weighting(self, **kwargs):
        return kwargs.get("weights") is not None

    def post_process(self, cube, data_result, coords, **kwargs):
        if kwargs.get("returned", False):
            data, weights = data_result
            return super().post_process(cube, data, coords), weights
        return super().post_process(cube, data_result, coords, **kwargs)


class PercentileAggregator(_Aggregator):
    def __init__(self, units_func=None, **kwargs):
        super().__init__(None, _percentile, units_func=units_func, **kwargs)
        self._name = "percentile"
        self._args = ["percent"]

    def name(self):
        return self._name

    def aggregate(self, data, axis, **kwargs):
        if kwargs.get("percent") is None:
            raise ValueError("percentile aggregator requires the mandatory keyword argument "
                             "'percent'.")
        return super().aggregate(data, axis, **kwargs)

    def post_process(self, cube, data_result, coords, **kwargs):
        from iris.cube import CubeList

        points = kwargs["percent"]
        scalar = not isinstance(points, (list, tuple, np.ndarray))
        pts = [points] if scalar else list(points)
        names = [c.name() for c in coords]
        coord_name = "percentile_over_" + "_".join(names)
        data = np.asanyarray(data_result)
        if scalar or len(pts) == 1:
            if not scalar:
                data = data[..., 0] if data.ndim > cube.ndim else data
            cube._data = data
            cube.add_aux_coord(iris.coords.AuxCoord(pts, long_name=coord_name, units="percent"))
            return cube
        slices = CubeList()
        for i, p in enumerate(pts):
            c = cube.copy(data=np.asanyarray(data[..., i]).reshape(cube.shape)) if True else None
            c.add_aux_coord(iris.coords.AuxCoord(np.asarray(p), long_name=coord_name,
                                                 units="percent"))
            slices.append(c)
        order = np.argsort(pts, kind="stable")
        from iris.coords import AuxCoord, DimCoord
        from iris.cube import Cube

        stack = np.ma.stack if any(np.ma.isMaskedArray(s.data) for s in slices) else np.stack
        new = Cube(stack([s.data for s in slices]))
        new.metadata = cube.metadata
        for c in cube.dim_coords:
            new.add_dim_coord(c.copy(), cube.coord_dims(c)[0] + 1)
        for c in cube.aux_coords:
            new._add_unique_aux_coord(c.copy(), tuple(d + 1 for d in cube.coord_dims(c)))
        try:
            new.add_dim_coord(DimCoord(np.array(pts), long_name=coord_name, units="percent"), 0)
        except ValueError:
            new.add_aux_coord(AuxCoord(np.array(pts), long_name=coord_name, units="percent"), 0)
        return new

    def update_metadata(self, cube, coords, **kwargs):
        pass


def _percentile(data, axis, percent, fast_percentile_method=False, **kwargs):
    data = np.moveaxis(data, axis, -1)
    shape = data.shape[:-1]
    scalar = not isinstance(percent, (list, tuple, np.ndarray))
    pts = [percent] if scalar else list(percent)
    flat = data.reshape((int(np.prod(shape)) if shape else 1, data.shape[-1]))
    if fast_percentile_method:
        if ma.is_masked(flat):
            raise TypeError("Cannot use fast np.percentile method with masked array.")
        result = np.percentile(np.ma.getdata(flat), pts, axis=-1).T
    else:
        import scipy.stats.mstats

        quantiles = np.array(pts) / 100.0
        kw = {"alphap": 1, "betap": 1}
        kw.update(kwargs)
        result = scipy.stats.mstats.mquantiles(flat, quantiles, axis=-1, **kw)
        if not ma.isMaskedArray(data) and not ma.is_masked(result):
            result = np.asarray(result)
        else:
            result = ma.MaskedArray(result)
    result = result.reshape(shape + (len(pts),))
    if len(pts) == 1:
        result = result[..., 0]
    return result


def _mean(data, axis, weights=None, returned=False):
    if weights is None:
        return ma.mean(data, axis=axis) if ma.isMaskedArray(data) else np.mean(data, axis=axis)
    if not ma.isMaskedArray(data):
        return np.ma.getdata(_average(data, axis, weights, returned)) if not returned else \
            _average(data, axis, weights, returned)
    return _average(data, axis, weights, returned)


def _average(data, axis, weights, returned):
    return ma.average(data, axis=axis, weights=weights, returned=returned)


def _sum(data, axis, weights=None, returned=False):
    if weights is not None:
        data = data * weights
    r = ma.sum(data, axis=axis) if ma.isMaskedArray(data) else np.sum(data, axis=axis)
    if returned:
        return r, np.sum(weights if weights is not None else np.ones_like(data), axis=axis)
    return r


def _m(name):
    def f(data, axis, **kwargs):
        mod = ma if ma.isMaskedArray(data) else np
        return getattr(mod, name)(data, axis=axis, **kwargs)

    return f


def _count(array, axis, function=None, **kwargs):
    return ma.sum(function(array), axis=axis, **kwargs)


def _proportion(array, axis, function=None, **kwargs):
    n = array.count(axis) if ma.isMaskedArray(array) else array.shape[axis]
    return _count(array, axis, function) / n


def _rms(array, axis, weights=None):
    return np.sqrt(_mean(np.square(array), axis, weights))


COUNT = Aggregator("count", _count, units_func=lambda u: 1)
MAX = Aggregator("maximum", _m("max"))
MIN = Aggregator("minimum", _m("min"))
MEAN = WeightedAggregator("mean", _mean)
MEDIAN = Aggregator("median", _m("median"))
SUM = WeightedAggregator("sum", _sum)
STD_DEV = Aggregator("standard_deviation", lambda d, axis, **k: ma.std(d, axis=axis, **k),
                     ddof=1)
VARIANCE = Aggregator("variance", lambda d, axis, **k: ma.var(d, axis=axis, **k), units_func=lambda u: u * u, ddof=1)
PROPORTION = Aggregator("proportion", _proportion, units_func=lambda u: 1)
RMS = WeightedAggregator("root mean square", _rms)
PERCENTILE = PercentileAggregator(alphap=1, betap=1)


# --------------------------------------------------------------- interpolation
EXTRAPOLATION_MODES = ("linear", "error", "nan", "mask", "nanmask", "extrapolate", None)


class Linear:
    method = "linear"

    def __init__(self, extrapolation_mode="linear"):
        if extrapolation_mode not in EXTRAPOLATION_MODES:
            raise ValueError("Extrapolation mode %r not supported." % (extrapolation_mode,))
        self.extrapolation_mode = extrapolation_mode

    def __repr__(self):
        return "%s(%r)" % (type(self).__name__, self.extrapolation_mode)

    def interpolator(self, cube, coords):
        from iris.analysis._interp import RectilinearInterpolator

        return RectilinearInterpolator(cube, coords, self.method, self.extrapolation_mode)

    def regridder(self, src, target):
        from iris.analysis._interp import RectilinearRegridder

        return RectilinearRegridder(src, target, self.method, self.extrapolation_mode)


class Nearest(Linear):
    method = "nearest"

    def __init__(self, extrapolation_mode=None):
        super().__init__(extrapolation_mode)


class AreaWeighted:
    def __init__(self, mdtol=1):
        self.mdtol = mdtol

    def regridder(self, src, target):
        raise NotImplementedError("AreaWeighted regridding is not part of miniiris")


def clear_phenomenon_identity(cube):
    cube.rename(None)


import iris.analysis.cartography  # noqa: E402
import iris.analysis.maths  # noqa: E402
