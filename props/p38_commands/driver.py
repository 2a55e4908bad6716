"""Commands as they are typed, against the processing they document."""
import datetime
import importlib
import inspect
import json
import os
import pkgutil
import warnings

import iris
import numpy as np
from iris.cube import CubeList
from vkit import cubes as C
from vkit.main import Failed

from improver import cli

ATTRS = {**C.ATTRS, "mosg__model_configuration": "uk_ens"}
HOUR = 3600


def out(r):
    return "error" if isinstance(r, Failed) else "ok"


def listed(r):
    return [r] if isinstance(r, iris.cube.Cube) else list(r)


def same(a, b):
    a, b = listed(a), listed(b)
    return len(a) == len(b) and all(
        x.metadata == y.metadata and x.coords() == y.coords() and x.shape == y.shape and x.dtype == y.dtype
        and all(x.coord_dims(p) == y.coord_dims(q) for p, q in zip(x.coords(), y.coords()))
        and np.array_equal(np.ma.getmaskarray(x.data), np.ma.getmaskarray(y.data))
        and np.allclose(np.ma.filled(x.data, 0).astype(float), np.ma.filled(y.data, 0).astype(float), rtol=1e-6, atol=1e-7, equal_nan=True) for x, y in zip(a, b))


def height(z):
    c = C.DimCoord(np.array(z, dtype=np.float32), "height", units="m")
    c.attributes["positive"] = "up"
    return c


class Make:
    def __init__(self, ctx):
        self.ctx, self.rng = ctx, ctx.rng

    def g(self, name="air_temperature", units="K", lo=270.0, hi=295.0, lead=(), n=(5, 6), attrs=None, digits=3, **kw):
        shape = tuple(len(c.points) for c in lead) + n
        return C.grid(np.round(lo + (hi - lo) * self.rng.rand(*shape), digits), name, units, lead=lead, attrs=dict(ATTRS if attrs is None else attrs), **kw)

    def p(self, ts, name, units, n=(5, 6), lead=(), **kw):
        d = np.sort(self.rng.randint(0, 21, (len(ts),) + tuple(len(c.points) for c in lead) + n) / 20, axis=0)[::-1]
        return C.prob(d, ts, name, units, lead=lead, attrs=dict(ATTRS), **kw)

    def mask(self, name="land_binary_mask", n=(5, 6), **kw):
        return C.grid((self.rng.rand(*n) < 0.5).astype(np.int8), name, "1", t=None, attrs={}, dtype=np.int8, **kw)

    def oro(self, n=(5, 6), **kw):
        return C.grid(np.round(self.rng.rand(*n) * 300), "surface_altitude", "m", t=None, attrs={}, **kw)

    def extra(self, n, most=3):
        return C.realization(int(self.rng.randint(2, most + 1)))


def num(v):
    return None if v == "none" else float(v)


def text(v):
    return None if v == "none" else v


def nums(v):
    return None if v == "none" else [float(x) for x in v.split(",")]


def true(v):
    return {"true": True, "false": False}[v]


def names(v):
    return None if v == "none" else v.split(",")


JSON = {
    "weights": {"uk_ens": {"forecast_period": [0, 24], "weights": [1, 0], "units": "hours"}, "uk_det": {"forecast_period": [0, 24], "weights": [0.25, 1], "units": "hours"}},
    "attributes": {"title": "A title", "history": "remove"},
    "ranges": [[100, 200], [200, 1000]],
    "finer": [[0.1, 0.2], [0.2, 1.0]],
    "table": {"data": {"0": {"270": 1, "280": 2, "290": 3}, "10": {"270": 4, "280": 5, "290": 6}}, "metadata": {"units": "1"}},
    "coords": {"height": 2.0},
    "thresholds": {"275.0": [274.5, 275.5], "285.0": "None"},
}


def whole(v):
    return None if v == "none" else int(float(v))


def obj(v):
    return None if v == "none" else json.loads(json.dumps(JSON[v[5:]]))


def when(v):
    return datetime.datetime.strptime(v, "%Y%m%dT%H%MZ")


# each: (inputs, the documented processing as a function of copies of them)
def apply_height_adjustment(k, m):
    from improver.spotdata.height_adjustment import SpotHeightAdjustment
    nc = neighbours(k, True)
    v = C.grid(np.round(k.rng.rand(4) * 3000), "cloud_base_altitude" if k.rng.rand() < 0.2 else "height_AGL_of_something", "m", space="spot", alt=nc.coord("altitude").points, lat=nc.coord("latitude").points,
               lon=nc.coord("longitude").points, ids=nc.coord("wmo_id").points, attrs=ATTRS)
    how = "nearest" + "_land" * true(m["land-constraint"]) + "_minimum_dz" * true(m["similar-altitude"])
    return [v, nc], lambda v, nc: SpotHeightAdjustment(how)(v, nc)


def apply_lapse_rate(k, m):
    from improver.lapse_rate import ApplyGriddedLapseRate
    ins = [k.g(), k.g("air_temperature_lapse_rate", "K m-1", -0.01, 0.02, digits=5), k.oro(), k.oro()]
    return ins, lambda *a: ApplyGriddedLapseRate()(*a)


def apply_mask(k, m):
    def ref(a, b):
        hide = b.data.astype(bool)
        a.data = np.ma.masked_array(a.data, ~hide if true(m["invert-mask"]) else hide)
        return a
    a, b = k.g(), k.mask()
    return ([a, b] if k.rng.rand() < 0.5 else [b, a]), lambda x, y: ref(*((x, y) if x.name() == "air_temperature" else (y, x)))


def between_thresholds(k, m):
    from improver.between_thresholds import OccurrenceBetweenThresholds
    km = k.rng.rand() < 0.3
    c = k.p([0.1, 0.2, 1.0] if km else [100, 200, 1000], "visibility_in_air", "km" if km else "m")
    units = ("km" if km else "m") if m["threshold-units"] == "none" else m["threshold-units"]
    return [c], lambda c: OccurrenceBetweenThresholds(obj(m["threshold-ranges"]), units)(c)


def blend_adjacent_points(k, m):
    from improver.blending.blend_across_adjacent_points import TriangularWeightedBlendAcrossAdjacentPoints
    from improver.utilities.cube_manipulation import MergeCubes
    frt = C.T0 - 4 * HOUR
    cs = [k.g(t=frt + q * HOUR, frt=frt) for q in (4, 5, 6)]
    if m["coordinate"] == "forecast_period" and (k.rng.rand() < 0.5 or true(m["blend-time-using-forecast-period"])):      # periods alike or one of them longer
        longer = k.rng.randint(5)
        cs = [k.g(t=frt + q * HOUR, frt=frt, tb=[frt + (q - 1 - (n == longer)) * HOUR, frt + q * HOUR]) for n, q in enumerate((4, 5, 6))]
    if m["coordinate"] == "realization" and k.rng.rand() < 0.8:
        cs = [k.g() for q in (3, 4, 5)]
        for q, c in enumerate(cs):
            c.add_aux_coord(C.AuxCoord(np.int32(q + 3), "realization", units="1"))
    flag = true(m["blend-time-using-forecast-period"])
    return cs, lambda *c: TriangularWeightedBlendAcrossAdjacentPoints(m["coordinate"], num(m["central-point"]), text(m["units"]), num(m["width"]))(
        MergeCubes()(CubeList(c), check_time_bounds_ranges=True) if flag else MergeCubes()(CubeList(c)))


def blend_cycles_and_realizations(k, m):
    from improver.blending.calculate_weights_and_blend import WeightAndBlend

    def mean(c):
        from improver.utilities.cube_manipulation import collapse_realizations
        return collapse_realizations(c)
    cs = [k.g(lead=[k.extra(3)], frt=C.T0 - q * HOUR) for q in (4, 6)]
    return cs, lambda *c: WeightAndBlend("forecast_reference_time", "linear", y0val=0.5, ynval=0.5)(CubeList([mean(x) for x in c]), cycletime=text(m["cycletime"]))


def blend_inputs(k, m):
    if m["coordinate"] == "model_id":
        cs = [k.g(attrs={**ATTRS, "mosg__model_configuration": w}, frt=C.T0 - 4 * HOUR) for w in ("uk_ens", "uk_det")]
    elif m["coordinate"] == "realization":
        cs = [k.g(lead=[C.realization(3)])]
    else:
        cs = [k.g(frt=C.T0 - q * HOUR) for q in (4, 6, 9)]
    if m["record-run-attr"] != "none":
        for c in cs:
            c.attributes["model_runs"] = "%s:%s:1.000" % (c.attributes["mosg__model_configuration"], "20171110T0000Z")
    if m["spatial-weights-from-mask"] == "true":
        for c in cs:
            c.data = np.ma.masked_array(c.data, np.zeros(c.shape, dtype=bool))
        cs[-1].data.mask[..., :2] = True
    return cs


def blended(m, cs):
    from improver.blending.calculate_weights_and_blend import WeightAndBlend
    return WeightAndBlend(m["coordinate"], m["weighting-method"], weighting_coord=m["weighting-coord"], wts_dict=obj(m["weighting-config"]), y0val=num(m["y0val"]), ynval=num(m["ynval"]), cval=num(m["cval"]))(
        CubeList(cs), cycletime=text(m["cycletime"]), model_id_attr=text(m["model-id-attr"]), record_run_attr=text(m["record-run-attr"]), spatial_weights=true(m["spatial-weights-from-mask"]),
        fuzzy_length=num(m["fuzzy-length"]), attributes_dict=obj(m["attributes-config"]))


def weighted_blending(k, m):
    return blend_inputs(k, m), lambda *c: blended(m, c)


def blend_with_vicinity_and_rename(k, m):
    def ref(*c):
        r = blended(m, c)
        if m["vicinity-radius"] != "none":
            from improver.utilities.spatial import update_name_and_vicinity_coord
            update_name_and_vicinity_coord(r, text(m["new-name"]), num(m["vicinity-radius"]))
        else:
            r.rename(m["new-name"])
        return r
    return blend_inputs(k, m), ref


def clip(k, m):
    def ref(c):
        d = c.data
        if m["min-value"] != "none":
            d = np.maximum(d, np.float32(m["min-value"]))
        if m["max-value"] != "none":
            d = np.minimum(d, np.float32(m["max-value"]))
        return c.copy(data=d)
    c = k.g(lead=[k.extra(3)] if k.rng.rand() < 0.5 else ())
    if k.rng.rand() < 0.3:
        c.data = np.ma.masked_array(c.data, k.rng.rand(*c.shape) < 0.3)
    return [c], ref


def cloud_condensation_level(k, m):
    from improver.psychrometric_calculations.cloud_condensation_level import MetaCloudCondensationLevel
    ins = [k.g("air_temperature", "K", 275, 300), k.g("surface_air_pressure", "Pa", 95000, 102000), k.g("relative_humidity", "1", 0.3, 0.9)]
    return ins, lambda *a: MetaCloudCondensationLevel(model_id_attr=text(m["model-id-attr"]))(*a)


def cloud_top_temperature(k, m):
    from improver.psychrometric_calculations.cloud_top_temperature import CloudTopTemperature
    pc = C.DimCoord(np.array([90000, 70000, 50000, 30000], dtype=np.float32), long_name="pressure", units="Pa")
    t = k.g(lead=[pc], lo=0, hi=4)
    t.data = t.data + np.array([285, 270, 250, 225], dtype=np.float32)[:, None, None]
    cs = CubeList([k.g("air_temperature_at_condensation_level", "K", 278, 288), k.g("air_pressure_at_condensation_level", "Pa", 88000, 98000)])
    return [cs, t], lambda c, t: CloudTopTemperature(model_id_attr=text(m["model-id-attr"]))(*c, t)


def collapse_realizations(k, m):
    how = m["method"]

    def ref(c):
        from improver.utilities.cube_manipulation import collapse_realizations
        r = collapse_realizations(c, method=how)
        r.data = np.asarray({"mean": np.mean, "max": np.max, "min": np.min, "median": np.median, "sum": np.sum}[how](c.data.astype(np.float64 if how in ("mean", "sum") else np.float32), axis=0), dtype=np.float32)
        if m["new-name"] != "none":
            r.rename(m["new-name"])
        return r
    c = k.g(lead=[k.extra(4)])
    return [c], ref


def combine(k, m):
    from improver.cube_combiner import Combine
    w = k.rng.rand() < 0.5
    a = k.g(lead=[C.realization(3)], t=C.T0, tb=[C.T0 - HOUR, C.T0])
    b = k.g(lead=() if m["broadcast"] != "none" else [C.realization(3)], t=C.T0 + HOUR * w, tb=[C.T0 - HOUR + HOUR * w, C.T0 + HOUR * w])
    return [a, b], lambda *c: Combine(m["operation"], broadcast=text(m["broadcast"]), minimum_realizations=text(m["minimum-realizations"]), new_name=text(m["new-name"]),
                                      cell_method_coordinate=text(m["cell-method-coordinate"]), expand_bound=true(m["expand-bound"]))(*c)


def copy_attributes(k, m):
    def ref(a, b):
        for n in names(m["attributes"]):
            a.attributes[n] = b.attributes[n]
        if "title" in a.attributes and a.attributes["title"] != "unknown":
            pass
        return a
    return [k.g(), k.g("wind_speed", "m s-1", attrs={"title": "Another", "source": "Elsewhere", "institution": "Nobody"})], ref


def create_grid_with_halo(k, m):
    from improver.utilities.pad_spatial import create_cube_with_halo
    return [k.g()], lambda c: create_cube_with_halo(c, num(m["halo-radius"]))


def expected_value(k, m):
    from improver.expected_value import ExpectedValue
    c = k.g(lead=[k.extra(4)]) if k.rng.rand() < 0.5 else k.p([270, 280, 290], "air_temperature", "K")
    return [c], lambda c: ExpectedValue()(c)


def extract(k, m):
    from improver.utilities.cube_extraction import ExtractSubCube
    units = names(m["units"])
    return [k.g(lead=[C.realization(4)])], lambda c: ExtractSubCube([m["constraints"]], units=units, ignore_failure=true(m["ignore-failure"])).process(c)


def extract_from_table(k, m):
    from improver.utilities.extract_from_table import ExtractValueFromTable
    a, b = k.g(lo=265, hi=300), k.g("wind_speed", "m s-1", 0, 20)
    ins = [a, b] if k.rng.rand() < 0.5 else [b, a]
    return ins, lambda *c: ExtractValueFromTable(row_name=m["row-name"], new_name=text(m["new-name"]))(CubeList(c), table=obj(m["table"]))


def feels_like_temp(k, m):
    from improver.feels_like_temperature import calculate_feels_like_temperature
    ins = [k.g(lo=270, hi=305), k.g("wind_speed", "m s-1", 0, 15), k.g("relative_humidity", "1", 0.2, 1), k.g("surface_air_pressure", "Pa", 95000, 103000)]
    return ins, lambda *a: calculate_feels_like_temperature(*a, model_id_attr=text(m["model-id-attr"]))


def field_texture(k, m):
    from improver.utilities.textural import FieldTexture
    ts = [0.25, 0.5, 0.8125]
    c = C.prob((k.rng.rand(3, 2, 24, 24) < 0.5).astype(float), ts, "cloud_area_fraction", "1", lead=[C.realization(2)], attrs=dict(ATTRS))
    c.transpose([1, 0, 2, 3])
    return [c], lambda c: FieldTexture(num(m["nbhood-radius"]), num(m["textural-threshold"]), num(m["diagnostic-threshold"]), model_id_attr=text(m["model-id-attr"]))(c)


def height_of_max_vertical_velocity(k, m):
    from improver.utilities.cube_manipulation import height_of_maximum
    c = k.g("upward_air_velocity", "m s-1", 0, 3, lead=[height([50, 100, 200])], digits=0)
    top = c[0].copy(data=c.data.max(axis=0))
    top.remove_coord("height")
    return [c, top], lambda a, b: height_of_maximum(a, b, true(m["find-lowest"]), m["new-name"])


def integrate_time_bounds(k, m):
    from improver.utilities.temporal import integrate_time
    c = k.g("rainfall_rate", "m s-1", 0, 1, tb=[C.T0 - HOUR, C.T0])
    return [c], lambda c: integrate_time(c, new_name=text(m["new-name"]))


def interpolate_using_difference(k, m):
    from improver.utilities.interpolation import InterpolateUsingDifference
    a, b = k.g("snow_level", "m", 0, 500), k.g("surface_altitude", "m", 0, 900)
    a.data = np.ma.masked_array(a.data, k.rng.rand(*a.shape) < 0.3)
    a.data.mask[0, 0] = a.data.mask[-1, -1] = a.data.mask[0, -1] = False
    ins = [a, b] + ([k.g("surface_altitude", "m", 0, 900)] if k.rng.rand() < 0.7 else [])
    return ins, lambda a, b, c=None: InterpolateUsingDifference(limit_as_maximum=true(m["limit-as-maximum"]))(a, reference_cube=b, limit=c)


def max_in_time_window(k, m):
    from improver.cube_combiner import MaxInTimeWindow
    lead = [C.realization(2)]
    cs = [k.g("wind_speed", "m s-1", 0, 20, lead=lead, t=C.T0 + q * HOUR, tb=[C.T0 + (q - 1) * HOUR, C.T0 + q * HOUR] if q else [C.T0 - HOUR, C.T0]) for q in range(2)]
    for c in cs:
        c.add_cell_method(C.CellMethod("maximum", coords="time"))
    return cs, lambda *c: MaxInTimeWindow(minimum_realizations=whole(m["minimum-realizations"]))(CubeList(c))


def max_in_height(k, m):
    from improver.utilities.cube_manipulation import maximum_in_height
    c = k.g("wind_speed", "m s-1", 0, 20, lead=[height([0, 75, 100, 200])])
    return [c], lambda c: maximum_in_height(c, lower_height_bound=num(m["lower-height-bound"]), upper_height_bound=num(m["upper-height-bound"]), new_name=text(m["new-name"]))


def merge(k, m):
    from improver.utilities.cube_manipulation import MergeCubes
    cs = [k.g(t=C.T0 + q * HOUR) for q in k.rng.permutation(3)]
    return cs, lambda *c: MergeCubes()(CubeList(c))


def radii(m):
    r = nums(m["radii"])
    return (r[0], None) if m["lead-times"] == "none" else (r, [int(x) for x in m["lead-times"].split(",")])


def nbhood(k, m):
    from improver.nbhood.nbhood import GeneratePercentilesFromANeighbourhood, NeighbourhoodProcessing
    from improver.constants import DEFAULT_PERCENTILES
    from improver.nbhood.nbhood import MetaNeighbourhood
    n = (15, 16)
    c = k.g("wind_from_direction", "degrees", 0, 359, n=n) if m["degrees-as-complex"] == "true" and k.rng.rand() < 0.7 else \
        k.p([5, 10], "rainfall_rate", "mm h-1", n=n) if m["neighbourhood-output"] == "probabilities" else k.g(n=n, lead=[C.realization(2)])
    plain = m["degrees-as-complex"] == "false" and m["halo-radius"] == "none"

    def ref(c, mask=None):
        r, lt = radii(m)
        if plain and m["neighbourhood-output"] == "probabilities":
            return NeighbourhoodProcessing(m["neighbourhood-shape"], r, lead_times=lt, weighted_mode=true(m["weighted-mode"]), sum_only=true(m["area-sum"]), re_mask=True)(c, mask_cube=mask) \
                if not (m["weighted-mode"] == "true" and m["neighbourhood-shape"] != "circular") else MetaNeighbourhood(**full)(c, mask=mask)
        if plain and m["neighbourhood-output"] == "percentiles" and mask is None and m["weighted-mode"] == "false" and m["area-sum"] == "false":
            return GeneratePercentilesFromANeighbourhood(r, lead_times=lt, percentiles=list(DEFAULT_PERCENTILES) if m["percentiles"] == "standard" else nums(m["percentiles"]))(c)
        return MetaNeighbourhood(**full)(c, mask=mask)
    full = dict(neighbourhood_output=m["neighbourhood-output"], neighbourhood_shape=m["neighbourhood-shape"], radii=m["radii"].split(","), lead_times=None if m["lead-times"] == "none" else m["lead-times"].split(","),
                degrees_as_complex=true(m["degrees-as-complex"]), weighted_mode=true(m["weighted-mode"]), area_sum=true(m["area-sum"]), halo_radius=num(m["halo-radius"]))
    if m["percentiles"] != "standard":
        full["percentiles"] = m["percentiles"].split(",")
    ins = [c] + ([k.mask(n=n)] if k.rng.rand() < 0.3 and m["neighbourhood-output"] == "probabilities" else [])
    return ins, ref


def nbhood_iterate_with_mask(k, m):
    from improver.nbhood.use_nbhood import ApplyNeighbourhoodProcessingWithAMask
    n = (9, 10)
    zone = C.DimCoord(np.array([50, 150, 300], dtype=np.float32), long_name="topographic_zone", units="m", bounds=np.array([[0, 100], [100, 200], [200, 400]], dtype=np.float32))
    which = k.rng.randint(0, 3, n)
    mask = C.grid(np.array([which == q for q in range(3)]).astype(np.int32), "topographic_zones", "1", lead=[zone], t=None, attrs={}, dtype=np.int32)
    w = k.rng.rand(3, *n)
    weights = C.grid(w / w.sum(axis=0), "topographic_zone_weights", "1", lead=[zone], t=None, attrs={})
    ins = [k.p([5, 10], "rainfall_rate", "mm h-1", n=n), mask] + ([weights] if k.rng.rand() < 0.5 else [])

    def ref(c, mask, weights=None):
        r, lt = radii(m)
        return ApplyNeighbourhoodProcessingWithAMask(m["coord-for-masking"], m["neighbourhood-shape"], r, lead_times=lt, collapse_weights=weights, sum_only=true(m["area-sum"]))(c, mask)
    return ins, ref


SITES = [{"altitude": 12.0, "latitude": 54.9, "longitude": -2.5, "wmo_id": 1, "local_id": 11}, {"altitude": 130.0, "latitude": 54.93, "longitude": -2.47, "wmo_id": 2, "local_id": 12},
         {"altitude": 60.0, "latitude": 54.87, "longitude": -2.53, "wmo_id": 3, "local_id": 13}, {"altitude": 210.0, "latitude": 54.91, "longitude": -2.55, "wmo_id": 4, "local_id": 14}]


def found(oro, land, sites, everything, **kw):
    from improver.spotdata.neighbour_finding import NeighbourSelection
    from improver.utilities.cube_manipulation import MergeCubes, enforce_coordinate_ordering
    if not everything:
        r = NeighbourSelection(**kw)(sites, oro, land)
    else:
        rs = CubeList()
        for q, (a, b) in enumerate(((False, False), (True, False), (False, True), (True, True))):
            x = NeighbourSelection(**{**kw, "land_constraint": a, "minimum_dz": b})(sites, oro, land)
            x.coord("neighbour_selection_method").points = np.int32(q)
            rs.append(iris.util.squeeze(x))
        r = MergeCubes()(rs)
    enforce_coordinate_ordering(r, ["neighbour_selection_method", "grid_attributes", "spot_index"])
    return r


def neighbours(k, everything):
    """All ways of choosing a neighbour, on a latitude longitude grid."""
    n = (9, 10)
    kw = dict(space="xy", n=n, bounds=True)
    k.ll = kw
    k.oro_ll, k.land_ll = k.oro(**kw), k.mask(**kw)
    return found(k.oro_ll.copy(), k.land_ll.copy(), SITES, everything)


def neighbour_finding(k, m):
    kw = {}
    for a, b, f in (("land-constraint", "land_constraint", true), ("similar-altitude", "minimum_dz", true), ("search-radius", "search_radius", num), ("node-limit", "node_limit", whole), ("unique-site-id-key", "unique_site_id_key", text)):
        if f(m[a]) is not None:
            kw[b] = f(m[a])
    neighbours(k, False)
    path = os.path.join(k.ctx.scratch, "sites.json")
    with open(path, "w") as f:
        json.dump(SITES, f)
    return [k.oro_ll, k.land_ll, path], lambda o, l, s: found(o, l, json.loads(json.dumps(SITES)), true(m["all-methods"]), **kw)


def spot_extract(k, m):
    from improver.spotdata.spot_manipulation import SpotManipulation
    nc = neighbours(k, True)
    style = k.rng.randint(4)
    lead = [[C.realization(3)], [C.percentiles([20, 50, 80])], [], [C.realization(3)]][style]
    c = k.g(lead=lead, **k.ll)
    if style == 1:
        c.data = np.sort(c.data, axis=0)
    if style == 3:
        c = k.p([275, 280, 285], "air_temperature", "K", lead=[C.realization(2)] if k.rng.rand() < 0.5 else (), **k.ll)
    c.add_aux_coord(C.AuxCoord(np.array([1.5], dtype=np.float32), "height", units="m"))
    ins = [c]
    if m["apply-lapse-rate-correction"] == "true" and m["fixed-lapse-rate"] == "none":
        lr = k.g("air_temperature_lapse_rate", "K m-1", -0.01, 0.01, digits=5, **k.ll)
        lr.add_aux_coord(C.AuxCoord(np.array([1.5], dtype=np.float32), "height", units="m"))
        ins.append(lr)
    ins.append(nc)
    return ins, lambda *a: SpotManipulation(
        apply_lapse_rate_correction=true(m["apply-lapse-rate-correction"]), fixed_lapse_rate=num(m["fixed-lapse-rate"]), land_constraint=true(m["land-constraint"]), similar_altitude=true(m["similar-altitude"]),
        extract_percentiles=nums(m["extract-percentiles"]), ignore_ecc_bounds_exceedance=true(m["ignore-ecc-bounds-exceedance"]), skip_ecc_bounds=true(m["skip-ecc-bounds"]), new_title=text(m["new-title"]),
        suppress_warnings=true(m["suppress-warnings"]), realization_collapse=true(m["realization-collapse"]), subset_coord=text(m["subset-coord"]))(CubeList(a))


def orographic_enhancement(k, m):
    from improver.orographic_enhancement import OrographicEnhancement
    from improver.wind_calculations.wind_components import ResolveWindComponents
    lev = [height([500, 750, 1000])]
    n = (12, 12)
    ins = [k.g(lead=lev, n=n), k.g("relative_humidity", "1", 0.6, 1, lead=lev, n=n), k.g("air_pressure", "Pa", 88000, 95000, lead=lev, n=n), k.g("wind_speed", "m s-1", 3, 20, lead=lev, n=n),
           k.g("wind_from_direction", "degrees", 0, 360, lead=lev, n=n), k.oro(n=n)]
    z = num(m["boundary-height"]) * (1000 if m["boundary-height-units"] == "km" else 1)

    def ref(*a):
        if z not in (500, 750, 1000):
            raise ValueError("no such height")
        q = [x[[500, 750, 1000].index(z)] for x in a[:5]]
        for x in q:
            x.coord("height").convert_units(m["boundary-height-units"])
            x.coord("height").convert_units("m")
        u, v = ResolveWindComponents()(q[3], q[4])
        return OrographicEnhancement()(q[0], q[1], q[2], u, v, a[5])
    return ins, ref


def recursive_filter(k, m):
    from improver.nbhood.recursive_filter import RecursiveFilter
    n = (6, 7)
    c = k.g(n=n)
    cs = CubeList()
    for ax, name, shape in (("x", "smoothing_coefficient_x", (6, 6)), ("y", "smoothing_coefficient_y", (5, 7))):
        q = C.grid(np.round(0.5 * k.rng.rand(*shape), 2), name, "1", t=None, attrs={})
        for a2 in "xy":
            p = c.coord(axis=a2).points
            q.coord(axis=a2).points = 0.5 * (p[1:] + p[:-1]) if a2 == ax else p
        cs.append(q)
    return [c, cs], lambda c, s: RecursiveFilter(iterations=int(m["iterations"]))(c, smoothing_coefficients=s)


def regrid(k, m):
    from improver.regrid.landsea import RegridLandSea
    masked = "with-mask" in m["regrid-mode"]
    if m["regrid-mode"] in ("bilinear", "nearest", "nearest-with-mask") and (m["regrid-mode"] == "nearest-with-mask" or k.rng.rand() < 0.5):
        src, tg = dict(n=(9, 10)), dict(n=(6, 7), dy=2500.0, dx=1500.0)
    else:
        src = dict(space="ll", n=(9, 10), y=[54.75 + 0.0625 * q for q in range(9)], x=[-2.5 + 0.0625 * q for q in range(10)])
        tg = dict(space="ll", n=(6, 7), y=[54.78125 + 0.0625 * q for q in range(6)], x=[-2.4375 + 0.0625 * q for q in range(7)])
    if k.rng.rand() < 0.4:          # some of the target lies outside
        if "y" in tg:
            tg = dict(tg, x=[q + 0.25 for q in tg["x"]], y=[q - 0.125 for q in tg["y"]])
        else:
            tg = dict(tg, dx=4000.0)
    c, t = k.g(attrs={**ATTRS, "mosg__grid_domain": "uk"}, **src), k.mask(**tg)
    ins = [c, t]
    if masked or k.rng.rand() < 0.15:
        ins.append(k.mask(**src))

    def ref(c, t, mask=None):
        if mask is not None and not masked:
            raise ValueError("a mask is of no use")
        return RegridLandSea(regrid_mode=m["regrid-mode"], extrapolation_mode=m["extrapolation-mode"], landmask=mask, landmask_vicinity=num(m["land-sea-mask-vicinity"]))(c, t, regridded_title=text(m["regridded-title"]))
    return ins, ref


def relabel_to_period(k, m):
    from improver.utilities.temporal import relabel_to_period
    c = k.g(tb=[C.T0 - HOUR, C.T0] if k.rng.rand() < 0.5 else None)
    return [c], lambda c: relabel_to_period(c, whole(m["period"]))


def resolve_wind_components(k, m):
    from improver.wind_calculations.wind_components import ResolveWindComponents
    return [k.g("wind_speed", "m s-1", 0, 20), k.g("wind_from_direction", "degrees", 0, 360)], lambda a, b: CubeList(ResolveWindComponents()(a, b))


def standardise(k, m):
    from improver.standardise import StandardiseMetadata
    c = k.g(attrs={**ATTRS, "history": "long"}, lead=[C.realization(1)] if k.rng.rand() < 0.5 else ())
    if k.rng.rand() < 0.7:
        c.add_aux_coord(C.AuxCoord(np.array([1.5], dtype=np.float32), "height", units="m"))
    if k.rng.rand() < 0.3:
        c.data = c.data.astype(np.float64)
    return [c], lambda c: StandardiseMetadata(new_name=text(m["new-name"]), new_units=text(m["new-units"]), coords_to_remove=names(m["coords-to-remove"]), coord_modification=obj(m["coord-modification"]),
                                              attributes_dict=obj(m["attributes-config"]))(c)


def temp_lapse_rate(k, m):
    from improver.lapse_rate import LapseRate
    ins = [k.g(lead=[C.realization(2)] if k.rng.rand() < 0.3 else ()), k.oro(), k.mask()]
    dry = true(m["dry-adiabatic"])
    if k.rng.rand() < (0.5 if dry else 0.1):
        ins = ins[:1]

    def ref(t, o=None, l=None):
        if dry:
            mid = text(m["model-id-attr"])
            r = t.copy(data=np.full(t.shape, -0.0098, dtype=np.float32))
            r.rename("air_temperature_lapse_rate")
            r.units = "K m-1"
            r.attributes = {a: v for a, v in t.attributes.items() if a in C.ATTRS or a == mid}
            r.attributes["title"] = t.attributes["title"] if True else ""
            return r
        if o is None:
            raise ValueError("no orography")
        return LapseRate(max_height_diff=num(m["max-height-diff"]), nbhood_radius=int(m["nbhood-radius"]), max_lapse_rate=num(m["max-lapse-rate"]), min_lapse_rate=num(m["min-lapse-rate"]))(t, o, l, model_id_attr=text(m["model-id-attr"]))
    return ins, ref


def temporal_interpolate(k, m):
    from improver.utilities.cube_manipulation import MergeCubes
    from improver.utilities.temporal_interpolation import TemporalInterpolation
    period = "true" in (m["accumulation"], m["max"], m["min"])
    a, b = [k.g("lwe_thickness_of_precipitation_amount" if period else "air_temperature", "m" if period else "K", t=C.T0 + q * 3 * HOUR, frt=C.T0, tb=[C.T0 + (q - 1) * 3 * HOUR, C.T0 + q * 3 * HOUR] if period else None) for q in (0, 1)]
    back = k.rng.rand() < 0.4

    def ref(x, y):
        if back:
            x, y = y, x
        return MergeCubes()(TemporalInterpolation(interval_in_minutes=whole(m["interval-in-mins"]), times=None if m["times"] == "none" else [when(t) for t in m["times"].split(",")], interpolation_method=m["interpolation-method"],
                                                  accumulation=true(m["accumulation"]), max=true(m["max"]), min=true(m["min"]))(x, y))
    return ([b, a] if back else [a, b]), ref


def threshold(k, m):
    from improver.threshold import Threshold
    c = k.g(lead=[C.realization(3)], n=(7, 8))
    if m["fill-masked"] != "none" or k.rng.rand() < 0.2:
        c.data = np.ma.masked_array(c.data, k.rng.rand(*c.shape) < 0.2)
    ins = [c] + ([k.mask(n=(7, 8))] if m["vicinity"] != "none" and k.rng.rand() < 0.5 else [])
    return ins, lambda c, mask=None: Threshold(threshold_values=nums(m["threshold-values"]), threshold_config=obj(m["threshold-config"]), threshold_units=text(m["threshold-units"]), comparison_operator=m["comparison-operator"],
                                               fuzzy_factor=num(m["fuzzy-factor"]), collapse_coord=text(m["collapse-coord"]), vicinity=nums(m["vicinity"]), fill_masked=num(m["fill-masked"]))(c, mask)


def time_lagged_ensembles(k, m):
    from improver.utilities.time_lagging import GenerateTimeLaggedEnsemble
    n = int(k.rng.randint(1, 4))
    late = k.rng.rand() < 0.2
    cs = [k.g(lead=[C.realization(2)], frt=C.T0 - (4 + q) * HOUR, t=C.T0 + HOUR * (late and q == 1)) for q in range(n)]

    def ref(*c):
        if len(c) == 1:
            return c[0]
        if late:
            raise ValueError("not for the same time")
        return GenerateTimeLaggedEnsemble()(CubeList(c))
    return cs, ref


def uv_index(k, m):
    from improver.uv_index import calculate_uv_index
    return [k.g("surface_downwelling_ultraviolet_flux_in_air", "W m-2", 0, 0.5)], lambda c: calculate_uv_index(c, model_id_attr=text(m["model-id-attr"]))


def vertical_updraught(k, m):
    from improver.wind_calculations.vertical_updraught import VerticalUpdraught
    cape, rain = k.g("atmosphere_convective_available_potential_energy", "J kg-1", 0, 900), k.g("lwe_convective_precipitation_rate" if k.rng.rand() < 0.1 else "lwe_precipitation_rate", "mm h-1", 0, 30, t=C.T0 + HOUR, tb=[C.T0, C.T0 + HOUR])
    rain.rename("lwe_precipitation_rate_max")
    rain.convert_units("m s-1")
    return [cape, rain], lambda *c: VerticalUpdraught(model_id_attr=text(m["model-id-attr"]))(*c)


def vicinity(k, m):
    from improver.utilities.spatial import OccurrenceWithinVicinity
    return [k.p([5, 10], "rainfall_rate", "mm h-1", n=(9, 10))], lambda c: OccurrenceWithinVicinity(radii=nums(m["vicinity"])).process(c)


def column(k, name="wet_bulb_temperature"):
    c = k.g(name, "K", -1, 1, lead=[height([5, 50, 100, 200, 400, 800])])
    c.data = c.data + np.linspace(278, 268, 6).astype(np.float32)[:, None, None]
    return c


def wet_bulb_freezing_level(k, m):
    from improver.psychrometric_calculations.wet_bulb_temperature import MetaWetBulbFreezingLevel
    return [column(k)], lambda c: MetaWetBulbFreezingLevel()(c)


def wet_bulb_temperature_integral(k, m):
    from improver.psychrometric_calculations.wet_bulb_temperature import WetBulbTemperatureIntegral
    return [column(k)], lambda c: WetBulbTemperatureIntegral(model_id_attr=text(m["model-id-attr"]))(c)


def wet_bulb_temperature(k, m):
    from improver.psychrometric_calculations.wet_bulb_temperature import WetBulbTemperature
    ins = [k.g(lo=270, hi=300), k.g("relative_humidity", "1", 0.2, 1), k.g("air_pressure", "Pa", 90000, 102000)]
    return ins, lambda *c: WetBulbTemperature(precision=num(m["convergence-condition"]), model_id_attr=text(m["model-id-attr"]))(*c)


def wind_direction(k, m):
    from improver.wind_calculations.wind_direction import WindDirection
    return [k.g("wind_from_direction", "degrees", 0, 359, lead=[C.realization(3)], n=(9, 9))], lambda c: WindDirection(backup_method=m["backup-method"])(c)


def wind_gust_diagnostic(k, m):
    from improver.wind_calculations.wind_gust_diagnostic import WindGustDiagnostic
    lead = [C.percentiles([20, 50, 80, 90, 95])]
    g, w = k.g("wind_speed_of_gust", "m s-1", 10, 30, lead=lead, tb=[C.T0 - HOUR, C.T0]), k.g("wind_speed", "m s-1", 0, 20, lead=lead, t=C.T0)
    a = num(m["wind-gust-percentile"]), num(m["wind-speed-percentile"])
    return [g, w], lambda g, w: WindGustDiagnostic(*a)(g, w)


def given_as(ctx, v):
    if not v.startswith("json:"):
        return v
    if ctx.rng.rand() < 0.5:
        return cli.ObjectAsStr(obj(v))
    path = os.path.join(ctx.scratch, v[5:] + ".json")
    with open(path, "w") as f:
        json.dump(JSON[v[5:]], f)
    return path


FLAGS = {"land-constraint", "similar-altitude", "blend-time-using-forecast-period", "spatial-weights-from-mask", "ignore-failure", "degrees-as-complex", "weighted-mode", "area-sum", "all-methods", "apply-lapse-rate-correction",
         "ignore-ecc-bounds-exceedance", "skip-ecc-bounds", "suppress-warnings", "realization-collapse", "dry-adiabatic", "accumulation", "max", "min"}


def copied(x):
    if isinstance(x, CubeList):
        return CubeList(c.copy() for c in x)
    return x.copy() if isinstance(x, iris.cube.Cube) else x


def command(ctx, s, k, c):
    name, given = c["cmd"], c["given"]
    ins, ref = globals()[name.replace("-", "_")](k, dict((a, b) for a, b in c["meaning"]))
    line = [cli.ObjectAsStr(copied(x)) if isinstance(x, CubeList) else copied(x) for x in ins]
    opts = []
    for a, v in given:
        if name == "vicinity" and a == "vicinity":
            line.append(v)
        elif a in FLAGS:
            opts.append(["--" + a])
        elif ctx.rng.rand() < 0.5 and not v.startswith("json:"):
            opts.append(["--%s=%s" % (a, v)])
        else:
            opts.append(["--" + a, given_as(ctx, v)])
    opts = [q for o in opts for q in o]
    line = line + opts if ctx.rng.rand() < 0.6 else opts + line
    got = ctx.call(lambda: cli.main("improver", name, *line))
    want = ctx.call(lambda: ref(*[copied(x) for x in ins]))
    rec = dict(cmd=name, given=given, meaning=c["meaning"])
    ok = not isinstance(got, Failed) and not isinstance(want, Failed)
    if ok and (got is None or want is None):
        eq = got is None and want is None
    else:
        eq = ok and same(got, want)
    s.event("command", out=out(got), ref=out(want), same=bool(eq), why=[x.text[:160] for x in (got, want) if isinstance(x, Failed)], **rec)
    return ok


NEEDS = {"feels-like-temp", "resolve-wind-components", "wind-gust-diagnostic", "cloud-condensation-level", "uv-index", "orographic-enhancement", "height-of-max-vertical-velocity", "wet-bulb-temperature", "wet-bulb-temperature-integral",
         "vertical-updraught", "apply-height-adjustment", "neighbour-finding", "apply-lapse-rate", "temp-lapse-rate"}


def short(ctx, s, k, c):
    """One of the inputs is left out."""
    ins, _ = globals()[c["cmd"].replace("-", "_")](k, dict((a, b) for a, b in c["meaning"]))
    opts = [q for a, v in c["given"] for q in (["--" + a] if a in FLAGS else ["--" + a, given_as(ctx, v)])]
    for j in range(len(ins)):
        line = [cli.ObjectAsStr(copied(x)) if isinstance(x, CubeList) else copied(x) for x in ins[:j] + ins[j + 1:]]
        s.event("wrong", cmd=c["cmd"], what="input %d of %d left out" % (j + 1, len(ins)), out=out(ctx.call(lambda: cli.main("improver", c["cmd"], *line, *opts))))


def said(v):
    if v is None or isinstance(v, bool):
        return str(v).lower()
    if isinstance(v, (list, tuple)):
        return ",".join(said(q) for q in v)
    if isinstance(v, (int, float)):
        return repr(float(v))[:-2] if repr(float(v)).endswith(".0") else repr(float(v))
    return str(v)


def declared(ctx, s):
    """What every command makes of options left out."""
    for mod in sorted(q.name for q in pkgutil.iter_modules(cli.__path__)):
        fn = getattr(importlib.import_module("improver.cli." + mod), "process", None)
        if mod.startswith("_") or fn is None:
            continue
        ps = inspect.signature(inspect.unwrap(fn)).parameters.values()
        s.event("declared", cmd=mod, options=[[p.name.replace("_", "-"), "needed" if p.default is p.empty else said(p.default)] for p in ps if p.kind == p.KEYWORD_ONLY or p.default is not p.empty])


def drive(ctx):
    warnings.simplefilter("ignore")
    k = Make(ctx)
    by = {}
    for c in ctx.cases:
        by.setdefault(c["cmd"], []).append(c)
    for name in sorted(by):
        n = {"spot-extract": 24, "weighted-blending": 24, "blend-with-vicinity-and-rename": 24, "nbhood": 24, "threshold": 24}.get(name, 12) * (6 if ctx.thorough else 1)
        lacking = [c for c in by[name] if c["lacks"]]
        senseless = [c for c in by[name] if c["no"] and not c["lacks"]]
        rest = [c for c in by[name] if not c["no"]]
        least = min([len(c["given"]) for c in rest])
        few = [c for c in rest if len(c["given"]) <= least + 1]
        some = ctx.pick(lacking, 2) + ctx.pick(senseless, 4) + [few[ctx.rng.randint(len(few))] for _ in range(n // 2)]
        some += ctx.pick([c for c in rest if len(c["given"]) > least + 1] or few, n - n // 3)
        with ctx.session(name) as s:
            good = {}
            for c in some:
                if command(ctx, s, k, c):
                    for g in c["given"]:
                        good[tuple(g)] = good.get(tuple(g), 0) + 1
            # every value of every option works twice, if it ever does
            for pair in sorted({tuple(g) for c in rest for g in c["given"]}):
                can = [c for c in rest if list(pair) in c["given"]]
                for _ in range(8):
                    if good.get(pair, 0) >= 2:
                        break
                    c = can[ctx.rng.randint(len(can))]
                    if command(ctx, s, k, c):
                        for g in c["given"]:
                            good[tuple(g)] = good.get(tuple(g), 0) + 1
            if name in NEEDS:
                short(ctx, s, k, few[ctx.rng.randint(len(few))])
    with ctx.session("declared") as s:
        declared(ctx, s)
    with ctx.session("one_realization") as s:
        for _ in range(3):
            c = k.g(lead=[C.realization(1)])[0]
            s.event("wrong", cmd="collapse-realizations", what="realization is not a dimension", out=out(ctx.call(lambda: cli.main("improver", "collapse-realizations", c.copy()))))
