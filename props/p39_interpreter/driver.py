"""Files described and found at fault by the metadata interpreter, and its command."""
import contextlib
import io
import pathlib

import iris
import numpy as np
from iris.cube import CubeList
from vkit import cubes as C
from vkit.main import Failed

from improver import cli
from improver.developer_tools.metadata_interpreter import MOMetadataInterpreter, display_interpretation

PROB = {"above", "below", "between", "vicinity", "prob_accumulation"}
STANDARD = PROB | {"percentile", "members", "accumulation"}
ACC = "lwe_thickness_of_precipitation_amount"
NAMES = {"ancillary": "surface_altitude", "weather": "weather_code", "direction": "wind_from_direction", "intermediate": "grid_neighbours", "accumulation": ACC, "prob_accumulation": ACC}
UNITS = {"ancillary": "m", "weather": "1", "direction": "degrees", "intermediate": "1", "accumulation": "m", "prob_accumulation": "m"}
MODELS = {"uk_ens": "MOGREPS-UK Model Forecast", "uk_det": "UKV Model Forecast", "none": "Forecast"}


def without(c, name):
    c.remove_coord(name)


def build(rng, d):
    """The cube described by d, its faults included."""
    kind, spot, faults = d["kind"], d["place"] == "spot", set(d["faults"])
    name, units = NAMES.get(kind, "air_temperature"), UNITS.get(kind, "K")
    period = d["top"] or kind in ("accumulation", "prob_accumulation")
    lead = []
    if kind in ("members", "accumulation"):
        n = int(rng.choice([1, 3])) if d["source"] != "uk_det" else 1
        if "member_count" in faults:
            n = int(rng.choice([2, 3]))
        if n > 1 or rng.rand() < 0.5:
            lead = [C.realization(n)]
    elif kind == "percentile":
        lead = [C.percentiles([10, 50, 90][: rng.randint(1, 4)])]
    elif kind in PROB:
        rel = {"below": str(rng.choice(["less_than", "less_than_or_equal_to"])), "between": "between_thresholds"}.get(kind, str(rng.choice(["greater_than"])))
        if kind == "below":
            rel = "less_than_or_equal_to"
        lead = [C.thresholds([0.5, 1.0, 2.0], name, units, rel)]
        if rng.rand() < 0.3:
            lead.append(C.realization(2))
    shape = tuple(len(c.points) for c in lead) + ((4,) if spot else (3, 4))
    label = name
    if kind in PROB:
        label = "probability_of_%s%s_%s_threshold" % (name, "_in_vicinity" if kind == "vicinity" else "", {"below": "below", "between": "between"}.get(kind, "above"))
        if kind == "between":
            label += "s"
    bounds = [C.T0 - 3600, C.T0] if period or (kind == "weather" and rng.rand() < 0.5) else None
    c = C.grid(np.round(rng.rand(*shape), 3), label, "1" if kind in PROB else units, lead=lead, space="spot" if spot else "xy", t=None if kind == "ancillary" else C.T0,
               tb=bounds, attrs={}, dtype=np.int32 if kind == "weather" else np.float32)
    if spot and rng.rand() < 0.3:
        c.coord("wmo_id").points = np.array(["%05d" % k for k in rng.permutation(4)])
    # attributes
    a = {} if kind == "ancillary" and rng.rand() < 0.5 else {"source": str(rng.choice(["IMPROVER", "Met Office Unified Model"])), "institution": "Met Office"}
    if a:
        t = ("Post-Processed " if d["post"] else "") + MODELS.get(d["source"], "")
        if d["source"] == "blend":
            t = "IMPROVER Post-Processed Multi-Model Blend"
            a["mosg__model_configuration"] = "uk_det uk_ens"
            a["mosg__model_run"] = "uk_det:20171110T0000Z:0.500\nuk_ens:20171109T1800Z:" + str(rng.choice(["", "0.500"]))
            if rng.rand() < 0.3:
                a["mosg__model_run"] = "\n".join(a["mosg__model_run"].split("\n")[::-1])
        elif d["source"] != "none":
            a["mosg__model_configuration"] = d["source"]
            if rng.rand() < 0.3:
                a["mosg__model_run"] = d["source"] + ":20171110T0000Z:1.000"
        a["title"] = t + str(rng.choice(["", " on UK 2 km Standard Grid"])) if not spot else t + " UK Spot Values"
    if kind == "weather":
        a["weather_code"], a["weather_code_meaning"] = np.arange(3), "clear sunny cloudy"
    if rng.rand() < 0.2:
        a["Conventions"] = "CF-1.7"
    if d["warn"] == "attribute":
        a[str(rng.choice(["history", "wind_gust_diagnostic", "colour"]))] = "something"
    if kind == "direction":
        if "direction_method" in faults:
            for m in [[C.CellMethod("mean", "time")], [C.CellMethod("mean", "realization"), C.CellMethod("mean", "time")], [C.CellMethod("maximum", "realization")]][rng.randint(3)]:
                c.add_cell_method(m)
        elif rng.rand() < 0.5:
            c.add_cell_method(C.CellMethod("mean", "realization"))
    # cell methods
    note = ("of " + name if rng.rand() < 0.6 else "of %s over 1 hour within time window" % name) if kind in PROB else None
    if "no_comment" in faults:
        note = None
    elif "wrong_comment" in faults:
        note = str(rng.choice(["of wind_speed", name, "the maximum of " + name]))
    methods = []
    if kind in ("accumulation", "prob_accumulation"):
        if "no_sum" not in faults:
            methods.append(C.CellMethod("sum", "realization" if "sum_elsewhere" in faults else "time", comments=note))
        elif rng.rand() < 0.5 and kind == "accumulation":
            methods.append(C.CellMethod("maximum", "time"))
    if d["top"]:
        methods.append(C.CellMethod("maximum", "time", comments=note))
    if d["warn"] == "method":
        methods.insert(rng.randint(len(methods) + 1), C.CellMethod(str(rng.choice(["variance", "mean"])), "height" if rng.rand() < 0.5 else "time"))
    if "point_method" in faults:
        methods.insert(rng.randint(len(methods) + 1), C.CellMethod("point", "time"))
    if "weighted_method" in faults:
        methods.insert(rng.randint(len(methods) + 1), C.CellMethod("weighted_mean", "time"))
    if "member_mean" in faults:
        methods.insert(rng.randint(len(methods) + 1), C.CellMethod("mean", str(rng.choice(["realization", "forecast_reference_time", "model_id", "model_configuration"]))))
    if kind == "weather" and d["warn"] == "mode":
        methods.append(C.CellMethod("mode", "time", intervals="1 hour"))
    if "mode_hours" in faults:
        methods.append(C.CellMethod("mode", "time", intervals=str(rng.choice(["2 hour", "6 hour"]))) if rng.rand() < 0.7 else C.CellMethod("maximum", "time"))
    if "ancillary_method" in faults:
        methods.append(C.CellMethod(str(rng.choice(["mean", "sum", "maximum"])), "time"))
    for m in methods:
        c.add_cell_method(m)
    c.attributes = a
    if d["source"] == "blend":
        c.add_aux_coord(C.AuxCoord(np.array([C.T0 - 14400], dtype=np.int64), long_name="blend_time", units=C.TUNITS))
        without(c, "forecast_period")
        without(c, "forecast_reference_time")
    for f in sorted(faults):
        spoil(rng, d, c, f, name)
    return c


def spoil(rng, d, c, f, name):
    a = c.attributes
    limit = c.coord(name) if d["kind"] in PROB and c.coords(name) else None
    if limit is None and d["kind"] in PROB:
        limit = c.coord(var_name="threshold") if c.coords(var_name="threshold") else c.coord("renamed")
    if f == "prob_units":
        c.units = str(rng.choice(["%", "K"]))
    elif f == "threshold_renamed":
        v = limit.var_name
        limit.rename("renamed")
        limit.var_name = v
    elif f == "threshold_not_marked":
        limit.var_name = None
    elif f == "no_relative":
        del limit.attributes["spp__relative_to_threshold"]
    elif f == "relative_unknown":
        limit.attributes["spp__relative_to_threshold"] = "near"
    elif f == "relative_conflict":
        limit.attributes["spp__relative_to_threshold"] = str(rng.choice([x for x, k in (("greater_than", "above"), ("less_than", "below"), ("less_than_or_equal_to", "below"), ("between_thresholds", "between")) if k not in c.name()]))
    elif f == "percentile_units":
        (c.coords("percentile") or c.coords("percentile_of_members"))[0].units = "1"
    elif f == "percentile_renamed":
        c.coord("percentile").rename("percentile_of_members")
    elif f == "no_bounds":
        for n in ("time", "forecast_period"):
            if c.coords(n):
                c.coord(n).bounds = None
    elif f == "forbidden_attribute":
        a[str(rng.choice(["mosg__grid_type", "mosg__grid_domain", "mosg__grid_version", "mosg__forecast_run_duration", "grid_id", "source_realizations", "um_version"]))] = "x"
    elif f == "data_type":
        c.data = c.data.astype(np.float64)
    elif f in ("no_title", "no_source", "no_institution"):
        del a[f[3:]]
    elif f == "blend_no_model":
        del a["mosg__model_configuration"]
    elif f == "blend_no_runs":
        del a["mosg__model_run"]
    elif f == "blend_unknown":
        a["mosg__model_configuration"] = str(rng.choice(["uk_det xx_det", "uk_detuk_ens", "UKV uk_ens"]))
    elif f == "blend_run_missing":
        a["mosg__model_run"] = str(rng.choice(a["mosg__model_run"].split("\n")))
    elif f == "unknown_model":
        a["mosg__model_configuration"] = str(rng.choice(["uk_det uk_ens", "xx_det", "UKV"]))
        if "title" in a:
            a["title"] = a["title"].replace("UKV Model", "Model").replace("MOGREPS-UK Model", "Model")
    elif f == "title_conflict":
        a["title"] = a["title"].replace(*(("UKV", "MOGREPS-UK") if "UKV" in a["title"] else ("MOGREPS-UK", str(rng.choice(["UKV", "Nowcast", "Global", "MOGREPS-G"])))))
    elif f == "no_time":
        without(c, "time")
    elif f == "no_reference":
        without(c, "forecast_reference_time")
    elif f == "no_period":
        without(c, "forecast_period")
    elif f == "no_blend_time":
        without(c, "blend_time")
    elif f in ("time_not_at_end", "period_not_at_end"):
        x = c.coord("time" if f[0] == "t" else "forecast_period")
        x.points = x.points - np.array(900 * rng.randint(1, 5), dtype=x.dtype)
    elif f == "time_type":
        x = c.coord("time")
        b, t = x.bounds, np.int32 if rng.rand() < 0.5 else np.float64
        x.points = x.points.astype(t)
        if b is not None:
            x.bounds = b.astype(t)
    elif f == "spot_title":
        a["title"] = a.get("title", "Forecast").replace("Spot Values", "Sites")
    elif f == "no_wmo_id":
        without(c, "wmo_id")
    elif f == "no_altitude":
        without(c, "altitude")
    elif f == "altitude_scalar":
        without(c, "altitude")
        c.add_aux_coord(C.AuxCoord(np.array([10], dtype=np.float32), "altitude", units="m"))
    elif f == "no_meaning":
        del a["weather_code_meaning" if rng.rand() < 0.5 else "weather_code"]


def run(c, verbose):
    i = MOMetadataInterpreter()
    try:
        i.run(c)
    except ValueError as e:
        return "refused", [], False, str(e)
    except Exception as e:
        return "crash", [], False, repr(e)
    said = display_interpretation(i, verbose=verbose).rstrip("\n").split("\n")
    warned = "WARNINGS:" in said
    return "ok", said[: said.index("WARNINGS:")] if warned else said, warned, ""


def files(ctx, cases):
    rng = ctx.rng
    some = [cases[k] for k in rng.permutation(len(cases))]
    clean = [d for d in some if not d["faults"]]
    some = ([clean[k] for k in range(min(len(clean), rng.randint(0, 4)))] + some[: rng.randint(0, 3)]) or some[:1]
    some = [some[k] for k in rng.permutation(len(some))]
    given, held, k = [], {}, 0
    while k < len(some):
        path = "/data/file%d.nc" % len(held)
        take = some[k: k + int(rng.choice([1, 1, 2]))]
        cubes = []
        for d in take:
            c = build(rng, d)
            how, said, _, _ = run(c.copy(), False)
            if how == "crash":
                return
            given.append({"file": path, "bad": how == "refused", "first": said[0] if said else ""})
            cubes.append(c)
        held[path] = CubeList(cubes)
        k += len(take)
    only = bool(rng.rand() < 0.5)
    typed = list(held) + (["--failures-only"] if only else [])
    before, text = iris.load, io.StringIO()
    iris.load = lambda p, *a, **k: held[p]
    try:
        with contextlib.redirect_stdout(text):
            r = ctx.call(lambda: cli.main("improver", "interpret-metadata", *typed))
    finally:
        iris.load = before
    lines, printed = text.getvalue().split("\n"), []
    for k, x in enumerate(lines):
        if x.startswith("file : "):
            printed.append([x[7:], lines[k + 2]])
    with ctx.session("files") as s:
        s.event("files", given=given, failures_only=only, printed=printed, out="refused" if isinstance(r, Failed) else "ok", note=str(getattr(r, "text", ""))[:300])


def drive(ctx):
    cases = ctx.cases
    chosen = ctx.pick(cases, 12000 if ctx.thorough else 1500)
    for d in chosen:
        c = build(ctx.rng, d)
        with ctx.session("interpret") as s:
            for v in (False, True):
                how, said, warned, why = run(c.copy(), v)
                s.event("interpret", kind=d["kind"], place=d["place"], source=d["source"], post=d["post"], top=d["top"], warn=d["warn"], faults=sorted(d["faults"]), verbose=v, out=how, said=said, warned=warned, note=why[:300])
    for _ in range(600 if ctx.thorough else 80):
        files(ctx, cases)
