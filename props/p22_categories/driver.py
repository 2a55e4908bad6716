import copy
import datetime
import itertools

import numpy as np
from iris.cube import CubeList
from vkit import fx
from vkit import cubes as C
from vkit.main import Failed

from improver.categorical.decision_tree import ApplyDecisionTree
from improver.categorical.modal_code import ModalCategory
from improver.categorical.utilities import check_tree
from improver.cli import categorical as ccli
from improver.cli import categorical_modes as mcli


def unwrap(fn):
    fn = getattr(fn, "__wrapped__", fn)
    return getattr(fn, "__wrapped__", fn)


def out(r):
    return "error" if isinstance(r, Failed) else "ok"


# diagnostics: name, thresholds in the tree's units, tree units, cube units, condition, period
DIAGS = {
    "rain": ("rainfall_rate", [0.1, 1.0, 3.0], "mm hr-1", "m s-1", "above", None, False),
    "snow": ("lwe_snowfall_rate", [0.1, 1.0], "mm hr-1", "m s-1", "above", None, False),
    "cloud": ("cloud_area_fraction", [0.25, 0.5, 0.8125], "1", "1", "above", None, False),
    "vis": ("visibility_in_air", [1.0, 5.0], "km", "m", "below", None, False),
    "flash": ("number_of_lightning_flashes_per_unit_area", [0.0], "m-2", "m-2", "above", None, True),
    "acc": ("lwe_thickness_of_precipitation_amount", [0.1, 2.0], "mm", "m", "above", 3600, False),
    "heat": ("air_temperature", None, None, "K", None, None, False),
}


def pname(d):
    n, _, _, _, cond, _, vic = DIAGS[d]
    return n if cond is None else "probability_of_%s%s_%s_threshold" % (n, "_in_vicinity" if vic else "", cond)


def random_test(rng, det):
    if det:
        return dict(terms=[dict(s=1, field="heat0", mul=1, div=1)], p=int(rng.randint(0, 9)))
    k = int(rng.choice([1, 1, 2, 3]))
    terms = []
    for i in range(k):
        d = str(rng.choice([x for x in DIAGS if x != "heat"]))
        f = d + str(rng.randint(len(DIAGS[d][1])))
        terms.append(dict(s=1 if i == 0 or rng.rand() < 0.5 else -1, field=f, mul=int(rng.choice([1, 1, 2, 3])) if k > 1 else 1, div=int(rng.choice([1, 1, 2, 4])) if k > 1 else 1))
    return dict(terms=terms, p=int(rng.randint(0 if k == 1 else -6, 9)))


def random_node(rng, t, f, miss=None):
    det = rng.rand() < 0.12
    nt = 1 if det or rng.rand() < 0.6 else 2
    tests = [random_test(rng, det) for _ in range(nt)]
    if nt == 2:  # fields nested alike
        one = [len(x["terms"]) == 1 for x in tests]
        if one[0] != one[1]:
            tests[1] = tests[0] if rng.rand() < 0.2 else dict(terms=[dict(x) for x in tests[0]["terms"]], p=int(rng.randint(0, 9)))
    needs = sorted({x["field"][:-1] for y in tests for x in y["terms"]})
    return dict(kind="node", t=t, f=f, miss=str(rng.choice(["", "t", "f"])) if miss is None else miss, cmp=str(rng.choice(["<", ">", "<=", ">="])),
                comb="" if nt == 1 else str(rng.choice(["AND", "OR"])), tests=tests, needs=needs)


def render(rng, tree, start, groups=None):
    """The dictionary a user would write."""
    names = [start] + [str(x) for x in rng.permutation([n for n in tree if n != start])]
    d = {}
    at = int(rng.choice([0, len(names) // 2 + 1]))
    for i, n in enumerate(names):
        if i == at:
            d["meta"] = {"name": "weather_code"}
        nd = tree[n]
        if nd["kind"] == "leaf":
            e = {"leaf": nd["code"]}
            if nd["night"] != nd["code"]:
                e["if_night"] = [k for k, x in tree.items() if x["kind"] == "leaf" and x["code"] == nd["night"]][0]
            if nd.get("unreachable"):
                e["is_unreachable"] = True
            if nd.get("group"):
                e["group"] = nd["group"]
            d[n] = e
            continue
        det = nd["needs"] == ["heat"]
        e = {"if_true": nd["t"], "if_false": nd["f"], "threshold_condition": nd["cmp"], "condition_combination": nd["comb"]}
        if nd["miss"]:
            e["if_diagnostic_missing"] = {"t": "if_true", "f": "if_false"}[nd["miss"]]
        if det:
            e["deterministic"] = True
            e["thresholds"] = [273.0 + t["p"] / 8 for t in nd["tests"]]
            e["diagnostic_fields"] = ["air_temperature"]
        else:
            e["probability_thresholds"] = [t["p"] / 8 for t in nd["tests"]]
            fields, ths, conds = [], [], []
            for t in nd["tests"]:
                toks, th, cond = [], [], []
                for j, x in enumerate(t["terms"]):
                    dg, k = x["field"][:-1], int(x["field"][-1])
                    _, vals, tu, _, cd, per, _ = DIAGS[dg]
                    if j:
                        toks.append("+" if x["s"] > 0 else "-")
                    m, q = x["mul"], x["div"]
                    if m != 1 and rng.rand() < 0.5:
                        toks += [m, "*", pname(dg)]
                    else:
                        toks.append(pname(dg))
                        if m != 1:
                            toks += ["*", m]
                    if q != 1:
                        toks += ["/", q]
                    th.append([vals[k], tu] + ([per] if per else []))
                    cond.append(cd)
                single = len(toks) == 1
                fields.append(toks[0] if single else toks)
                ths.append(th[0] if single else th)
                conds.append(cond[0] if single else cond)
            e["diagnostic_fields"], e["diagnostic_thresholds"], e["diagnostic_conditions"] = fields, ths, conds
        d[n] = e
    if at >= len(names):
        d["meta"] = {"name": "weather_code"}
    d.setdefault("meta", {"name": "weather_code"})
    return d


def random_tree(rng, n):
    nl = int(rng.randint(2, 6))
    leaves = ["Leaf_%d" % i for i in range(nl)]
    tree = {}
    for i in range(n):
        to = ["n%d" % j for j in range(i + 1, n)] * 2 + leaves
        t, f = [str(x) for x in rng.choice(to, 2)]
        if i + 1 < n and rng.rand() < 0.7:
            t, f = ("n%d" % (i + 1), f) if rng.rand() < 0.5 else (t, "n%d" % (i + 1))
        tree["n%d" % i] = random_node(rng, t, f)
    for i in range(1, n):  # every node can be reached
        if not any(nd["t"] == "n%d" % i or nd["f"] == "n%d" % i for nd in tree.values() if nd["kind"] == "node"):
            tree["n%d" % (i - 1)]["f" if rng.rand() < 0.5 else "t"] = "n%d" % i
    for i in range(1, n):
        if not any(nd["t"] == "n%d" % i or nd["f"] == "n%d" % i for nd in tree.values()):
            tree["n%d" % (i - 1)]["t"] = tree["n%d" % (i - 1)]["f"] = "n%d" % i
    return add_leaves(rng, tree, leaves), "n0"


def add_leaves(rng, tree, leaves):
    codes = [int(c) for c in rng.permutation(30)[:2 * len(leaves)]]
    if rng.rand() < 0.4 and 0 in codes:
        k = codes.index(0)
        codes[0], codes[k] = codes[k], codes[0]
    targets = {x for nd in tree.values() for x in (nd["t"], nd["f"])}
    for i, lf in enumerate(leaves):
        nd = dict(kind="leaf", code=codes[i], night=codes[i])
        if rng.rand() < 0.5:
            nd["night"] = codes[len(leaves) + i]
            tree[lf + "_Night"] = dict(kind="leaf", code=nd["night"], night=nd["night"])
        elif lf not in targets:
            nd["unreachable"] = True
        if lf not in targets:
            nd["unreachable"] = True
        tree[lf] = nd
    return tree


def from_case(rng, case):
    tree = {}
    for i, nd in enumerate(case["nodes"]):
        tree["n%d" % (i + 1)] = random_node(rng, nd["t"], nd["f"], nd["miss"])
    return add_leaves(rng, tree, ["L1", "L2", "L3"]), "n1"


def place(rng):
    """A grid or sites and a time with the sun clearly up or down everywhere."""
    period = int(rng.choice([0, 3600, 1800, 3 * 3600, 12 * 3600]))
    end = C.T0 // 86400 * 86400 + 3600 * int(rng.randint(24))
    mid = (end - period // 2)
    hour = (mid % 86400) / 3600
    kind = ["ll", "xy", "spot"][int(rng.randint(3))]
    if kind == "xy":
        shift = -(hour - (12 if rng.rand() < 0.5 else 0)) * 3600
        end = int(end + shift)
        day = abs(((end - period / 2) % 86400) / 3600 - 12) < 1
        if period > 3 * 3600:
            period = 3 * 3600
            end = end - 4 * 3600 - 1800
        return kind, period, end, ([bool(day)] * 4, [bool(day)] * 4), {}
    while True:
        lons = sorted(int(x) for x in rng.choice(np.arange(-175, 176, 5), 2, replace=False))
        ang = [[((h - 12) * 15 + x + 180) % 360 - 180 for x in lons] for h in (hour, end % 86400 / 3600)]
        if all(abs(a) < 60 or abs(a) > 120 for b in ang for a in b):
            break
    d = [[bool(abs(a) < 60) for a in b] * 2 for b in ang]
    if kind == "ll":
        return kind, period, end, d, dict(y=[-8.0, 8.0], x=[float(v) for v in lons])
    return kind, period, end, d, dict(lat=[-8.0, -8.0, 8.0, 8.0], lon=[float(v) for v in lons] * 2)


def field_cube(rng, d, v, kind, kw, period, end, target, frt, attrs, masked):
    """A cube of one diagnostic; v maps field names to the values of four points (eighths)."""
    n, ths, tu, cu, cond, per, vic = DIAGS[d]
    shape = (2, 2) if kind != "spot" else (4,)
    tb = (end - period, end) if period and (per or rng.rand() < 0.4 or d == "flash") else None
    base = dict(space=kind, t=end, frt=frt, tb=list(tb) if tb else None, attrs=attrs, **kw)
    if cond is None:
        a = np.array([273.0 + (x if x < 10 ** 6 else 5) / 8 for x in v["heat0"]]).reshape(shape)
        if masked:
            a = np.ma.masked_array(a, np.array([x > 10 ** 6 for x in v["heat0"]]).reshape(shape))
        return C.grid(a, name="air_temperature", units="K", **base)
    pts, data = [], []
    scale = target / per if per else 1
    for k, th in enumerate(ths):
        pts.append(th * scale)
        data.append([x if x < 10 ** 6 else 5 for x in v[d + str(k)]])
    mask = [[x > 10 ** 6 for x in v[d + str(k)]] for k in range(len(ths))]
    extra = pts[-1] * 2 + 1
    pts, data, mask = pts + [extra], data + [[int(x) for x in rng.randint(0, 9, 4)]], mask + [[False] * 4]
    arr = np.array(data).reshape((-1,) + shape) / 8
    if masked:
        arr = np.ma.masked_array(arr, np.array(mask).reshape(arr.shape))
    c = C.prob(arr, pts, n, tu, relative="greater_than" if cond == "above" else "less_than", vicinity=vic, **base)
    tc = c.coord(var_name="threshold")
    if rng.rand() < 0.7:
        tc.convert_units(cu)
    if len(pts) > 1 and rng.rand() < 0.15:
        pass
    return c


def tree_session(ctx, case):
    rng = ctx.rng
    tree, start = from_case(rng, case) if case is not None else random_tree(rng, int(rng.randint(1, 6)))
    spec = {n: {k: x for k, x in nd.items() if k not in ("unreachable", "group")} for n, nd in tree.items()}
    used = sorted({d for nd in tree.values() if nd["kind"] == "node" for d in nd["needs"]})
    definition = render(rng, tree, start)
    needs_period = "acc" in used
    kind, period, end, days, kw = place(rng)
    target = period if period and (needs_period or rng.rand() < 0.5) else None
    if needs_period and not target:
        period = target = 3600
        kind, kw = "xy", {}
        end = C.T0 // 86400 * 86400 + (12 * 3600 + 1800 if rng.rand() < 0.5 else 1800)
        days = [[bool((end - 1800) % 86400 == 12 * 3600)] * 4] * 2
    title = "Symbols" if rng.rand() < 0.2 else None
    mid_attr = "mosg__model_configuration" if rng.rand() < 0.4 else None
    run = RUN if mid_attr and rng.rand() < 0.6 else None
    original = copy.deepcopy(definition)
    make = lambda: ApplyDecisionTree(definition, model_id_attr=mid_attr, record_run_attr=run, target_period=target, title=title)
    plugin = ctx.call(make)
    with ctx.session("tree") as s:
        if isinstance(plugin, Failed):
            s.event("categorise", out="error", err=plugin.text, tree=spec, start=start, absent=[], v=[], day=[])
            return
        optional = sorted({d for nd in tree.values() if nd["kind"] == "node" and nd["miss"] for d in nd["needs"]} | (set(rng.choice(used, 1)) if rng.rand() < 0.1 else set()))
        for go in range(int(rng.randint(1, 4))):
            if go and rng.rand() < 0.3:
                p2 = ctx.call(make)
                if isinstance(p2, Failed):
                    s.event("categorise", out="error", err=p2.text, tree=spec, start=start, absent=[], v=[], day=[])
                    return
                plugin = p2
            v = {}
            masked = rng.rand() < 0.3
            for d in used:
                for k in range(len(DIAGS[d][1] or [0])):
                    v[d + str(k)] = [MASKED if masked and rng.rand() < 0.15 else int(rng.randint(0, 9)) for _ in range(4)]
            absent = [d for d in optional if rng.rand() < 0.4] if rng.rand() < 0.6 else []
            if case is not None and go == 0:
                bad = {"n%s" % x[1:] for x in case["absent"]}
                absent = sorted({d for n in bad for d in tree[n]["needs"]})
            frts = {d: end - 3600 * int(rng.randint(3, 9)) for d in used}
            titles = "Model Forecast" if rng.rand() < 0.7 else None
            models = {d: str(rng.choice(["uk_det", "uk_ens", "uk_det uk_ens"])) for d in used}
            cs, recs = {}, {}
            for d in used:
                attrs = dict(C.ATTRS, title=titles or "Forecast of %s" % d)
                if mid_attr:
                    attrs[mid_attr] = models[d]
                if run:
                    recs[d] = lines(rng, models[d], frts[d], attrs)
                cs[d] = field_cube(rng, d, v, kind, kw, period, end, target, frts[d], attrs, masked)
            ins = [cs[d] for d in used if d not in absent]
            if not ins:
                continue
            rng.shuffle(ins)
            if rng.rand() < 0.2:
                ins = [CubeList(ins)]
            flat = list(ins[0]) if isinstance(ins[0], CubeList) else list(ins)
            keep = [c.copy() for c in flat]
            if rng.rand() < 0.2 and go == 0:
                fn = unwrap(ccli.process)
                r = ctx.call(lambda: fn(*ins, decision_tree=copy.deepcopy(original), model_id_attr=mid_attr, record_run_attr=run, target_period=target, title=title))
            else:
                r = ctx.call(lambda: plugin(*ins))
            day = days[0] if any(c.coord("time").has_bounds() for c in flat) else days[1]
            vals = [{f: x[i] for f, x in v.items()} for i in range(4)]
            base = dict(tree=spec, start=start, absent=absent, v=vals, day=day, go=go)
            if isinstance(r, Failed):
                s.event("categorise", out="error", err=r.text, **base)
                continue
            codes = sorted((nd["code"], n) for n, nd in tree.items() if nd["kind"] == "leaf")
            bounded = [c for c in flat if c.coord("time").has_bounds()]
            tmp = bounded[-1] if bounded else flat[0]
            have = [d for d in used if d not in absent]
            want = {"weather_code": None, "weather_code_meaning": " ".join(n for _, n in codes), "title": title or ("Model Forecast" if titles or len(have) == 1 else "unknown"),
                    "source": "IMPROVER", "institution": "Met Office"}
            if not titles and len(have) == 1 and not title:
                want["title"] = "Forecast of %s" % have[0]
            if mid_attr:
                want[mid_attr] = " ".join(sorted({m for d in have for m in models[d].split()}))
            got = {k: x for k, x in r.attributes.items() if k != RUN or not run}
            if run:
                runs_event(s, [recs[d] for d in have], r)
            meta = r.name() == "weather_code" and str(r.units) == "1" and r.dtype == np.int32 and [int(x) for x in got.get("weather_code", [])] == [c for c, _ in codes] and \
                {k: x for k, x in got.items() if k != "weather_code"} == {k: x for k, x in want.items() if k != "weather_code"} and \
                r.coord("time") == tmp.coord("time") and int(r.coord("forecast_reference_time").points[0]) == max(frts[d] for d in have) and \
                int(r.coord("forecast_period").points[0]) == end - max(frts[d] for d in have) and \
                [c.name() for c in r.coords(dim_coords=True)] == [c.name() for c in keep[0].coords(dim_coords=True)][-r.ndim:] and not r.coords(var_name="threshold")
            s.event("categorise", out="ok", got=fx(r.data), meta=bool(meta), same=all(alike(a, b) for a, b in zip(flat, keep)), **base)
        refusals(ctx, s, original, used, tree, kind, kw, period, end, target)
        checks(ctx, s, original, tree, start, target)


RUN = "mosg__model_run"


def lines(rng, model, frt, attrs):
    """The runs one input stands for, written on it or to be read from its model and cycle."""
    stamp = lambda t: datetime.datetime.utcfromtimestamp(t).strftime("%Y%m%dT%H%MZ")  # noqa
    if rng.rand() < 0.4:
        return ["%s:%s" % (model, stamp(frt))]
    ls = sorted({"%s:%s" % (rng.choice(["uk_det", "uk_ens", "nc_det"]), stamp(C.T0 - 3600 * int(rng.randint(1, 4)))) for _ in range(int(rng.randint(1, 4)))})
    attrs[RUN] = "\n".join("%s:%.3f" % (x, rng.randint(1, 1000) / 1000) for x in ls)
    return ls


def runs_event(s, ins, r):
    """What the result says it was made from, as ranks in the order of the texts."""
    text = r.attributes.get(RUN)
    got = text.split("\n") if text else []
    plain = all(x.endswith(":") for x in got)
    got = [x[:-1] for x in got]
    rank = {x: i + 1 for i, x in enumerate(sorted(set(got) | {x for y in ins for x in y}))}
    s.event("runs", ins=[[rank[x] for x in y] for y in ins], got=[rank[x] for x in got], plain=bool(plain), left=bool(r.coords("blend_record")))


def alike(a, b):
    return a.metadata == b.metadata and np.array_equal(np.ma.filled(a.data, 9), np.ma.filled(b.data, 9)) and [str(c) for c in a.coords()] == [str(c) for c in b.coords()]


def refusals(ctx, s, original, used, tree, kind, kw, period, end, target):
    rng = ctx.rng
    v = {d + str(k): [1, 2, 3, 4] for d in used for k in range(len(DIAGS[d][1] or [0]))}
    cs = [field_cube(rng, d, v, kind, kw, period, end, target, end - 7200, C.ATTRS, False) for d in used]
    run = lambda cubes: out(ctx.call(lambda: ApplyDecisionTree(copy.deepcopy(original), target_period=target)(*cubes)))
    i = int(rng.randint(len(cs)))
    if len(cs) > 1:
        late = [c.copy() for c in cs]
        late[i].coord("time").bounds = None
        late[i].coord("time").points = late[i].coord("time").points + 3600
        s.event("rejected", why="another_time", out=run(late))
        per = [c.copy() for c in cs]
        j = (i + 1) % len(cs)
        for k, w in ((i, 3600), (j, 7200)):
            per[k].coord("time").bounds = [[end - w, end]]
        s.event("rejected", why="another_period", out=run(per))
    if target:
        per = [c.copy() for c in cs]
        for c in per:
            c.coord("time").bounds = None
        per[i].coord("time").bounds = [[end - target - 3600, end]]
        s.event("rejected", why="not_the_target_period", out=run(per))
    probs = [k for k, d in enumerate(used) if d != "heat"]
    if probs:
        k = int(rng.choice(probs))
        d = used[k]
        asked = sorted({int(x["field"][-1]) for nd in tree.values() if nd["kind"] == "node" for t in nd["tests"] for x in t["terms"] if x["field"][:-1] == d})
        th = int(rng.choice(asked))
        less = [c.copy() for c in cs]
        rest = [q for q in range(less[k].shape[0]) if q != th]
        less[k] = less[k][rest]
        s.event("rejected", why="threshold_absent", out=run(less))
        other = [c.copy() for c in cs]
        tc = other[k].coord(var_name="threshold")
        tc.attributes["spp__relative_to_threshold"] = "less_than" if "greater" in tc.attributes["spp__relative_to_threshold"] else "greater_than"
        s.event("rejected", why="other_condition", out=run(other))
    if "acc" in used:
        s.event("rejected", why="no_target_period", out=out(ctx.call(lambda: ApplyDecisionTree(copy.deepcopy(original)))))


def listing(text):
    got = []
    for line in text.splitlines()[2:]:
        line = line.replace("\u26C5", "").strip()
        if line:
            got.append(line)
    return got


def rounded(line):
    """A requirement with its thresholds to six figures."""
    head, _, vals = line.partition("): ")
    return line if not vals else head + "): " + ", ".join("%.6g" % float(x) for x in vals.split(","))


def checks(ctx, s, original, tree, start, target):
    rng = ctx.rng
    scale = target / 3600 if target else 1
    need = {}
    for nd in tree.values():
        if nd["kind"] == "node":
            for t in nd["tests"]:
                for x in t["terms"]:
                    need.setdefault(x["field"][:-1], set()).add(int(x["field"][-1]))
    want = sorted("%s (deterministic)" % pname(d) if d == "heat" else
                  "%s (%s): %s" % (pname(d), DIAGS[d][2], ", ".join(str(DIAGS[d][1][k] * (scale if DIAGS[d][5] else 1)) for k in sorted(ks))) for d, ks in need.items())
    twice = sum(1 for nd in tree.values() if nd["kind"] == "node" and nd["needs"] == ["heat"])
    r = ctx.call(lambda: check_tree(copy.deepcopy(original), target))
    ok = not isinstance(r, Failed)
    listed = sorted(set(listing(r))) if ok else []
    listed, want = [[rounded(x) for x in y] for y in (listed, want)]
    reached = {x for nd in tree.values() if nd["kind"] == "node" for x in (nd["t"], nd["f"])} | {start}
    sound = all(k in reached for k, nd in tree.items() if nd["kind"] == "node")
    s.event("check", sound=sound, mentions=ok and "nreachable node" in r, why="" if sound else "unreachable_node", out=out(r), fine=ok and r.startswith("Decision tree OK"), needs=want, listed=listed, twice=twice, text=str(r)[:300])
    nodes = [n for n, nd in tree.items() if nd["kind"] == "node"]
    leaves = [n for n, nd in tree.items() if nd["kind"] == "leaf"]
    n, lf = str(rng.choice(nodes)), str(rng.choice(leaves))
    prob = [k for k in nodes if tree[k]["needs"] != ["heat"]]

    def broken(why, change, mention):
        d = copy.deepcopy(original)
        change(d)
        r = ctx.call(lambda: check_tree(d, target))
        ok = not isinstance(r, Failed)
        s.event("check", sound=False, why=why, out=out(r), fine=ok and "Decision tree OK" in r, mentions=ok and mention in r, needs=[], listed=[])

    def setter(node, key, val):
        return lambda d: d[node].__setitem__(key, val)

    targets = {x for nd in tree.values() if nd["kind"] == "node" for x in (nd["t"], nd["f"])}
    ways = [
        ("no_meta", lambda d: d.pop("meta"), "meta"),
        ("meta_without_name", lambda d: d["meta"].pop("name"), "name"),
        ("meta_with_more", lambda d: d["meta"].__setitem__("colour", 1), "colour"),
        ("unknown_node_key", setter(n, "colour", 1), n),
        ("unknown_leaf_key", setter(lf, "colour", 1), lf),
        ("nowhere", setter(n, str(rng.choice(["if_true", "if_false"])), "nowhere"), "nowhere"),
        ("bare_category", setter(n, "if_false", 3), n),
        ("bad_missing_direction", setter(n, "if_diagnostic_missing", "nowhere"), n),
        ("bad_comparison", setter(n, "threshold_condition", "=="), n),
        ("bad_combination", setter(n, "condition_combination", "XOR" if tree[n]["comb"] else "AND"), n),
        ("leaf_not_whole", setter(lf, "leaf", "x"), lf),
        ("unreachable_leaf", lambda d: d.__setitem__("Extra", {"leaf": 77}), "Extra"),
        ("unreachable_node", lambda d: d.__setitem__("extra", dict(d[n])), "extra"),
        ("code_used_twice", lambda d: d.__setitem__("Extra", {"leaf": d[lf]["leaf"], "is_unreachable": True}), str(tree[lf]["code"])),
        ("night_nowhere", setter(lf, "if_night", "nowhere"), lf),
        ("night_not_a_leaf", setter(lf, "if_night", n), lf),
        ("group_of_one", setter(lf, "group", "lonely"), lf),
        ("flagged_but_reached", lambda d: d[str(rng.choice(sorted(targets & set(leaves))))].__setitem__("is_unreachable", True), "is_unreachable"),
    ]
    if prob:
        p = str(rng.choice(prob))
        ways += [("non_numeric_threshold", lambda d: d[p]["probability_thresholds"].__setitem__(0, "0.5x"), p),
                 ("more_thresholds", lambda d: d[p]["probability_thresholds"].append(0.5), p),
                 ("bad_condition", lambda d: d[p].__setitem__("diagnostic_conditions", ["beside" for _ in d[p]["diagnostic_conditions"]] if not isinstance(d[p]["diagnostic_conditions"][0], list)
                                                              else [["beside" for _ in x] for x in d[p]["diagnostic_conditions"]]), p),
                 ("nesting", lambda d: d[p].__setitem__("diagnostic_conditions", d[p]["diagnostic_conditions"] + d[p]["diagnostic_conditions"]), p)]
    nights = [k for k, nd in tree.items() if nd["kind"] == "leaf" and nd["night"] != nd["code"]]
    if len(nights) > 1:
        ways.append(("night_with_a_night", setter(nights[0], "if_night", nights[1]), nights[1]))
    for i in rng.permutation(len(ways))[:5]:
        broken(*ways[i])
    s.event("rejected", why="not_a_tree", out=out(ctx.call(lambda: check_tree([original]))))


def modal_session(ctx, case):
    rng = ctx.rng
    nights = [[1, 0]]
    groups = [[5, 6]]
    if case is None and rng.rand() < 0.6:
        nights = [[1, 0], [3, 2], [10, 9]]
        groups = [[5, 6], [10, 12, 14]] if rng.rand() < 0.5 else [[14, 12, 10], [5, 6], [3, 4]]
    pool = sorted({0, 1, 5, 6, 9} | {c for p in nights for c in p} | {c for g in groups for c in g} | {20, 21})
    n = len(case["s"]) if case is not None else int(rng.choice([1, 2, 3, 4, 5, 7, 10, 11, 12, 13, 20]))
    shape, kind = [((2, 2), "xy"), ((1, 2), "xy"), ((2, 1), "xy"), ((1, 1), "xy"), ((3,), "spot"), ((1,), "spot"), ((2, 3), "xy")][int(rng.randint(7))]
    k = int(np.prod(shape))
    data = np.array([[int(rng.choice(pool)) for _ in range(n)] for _ in range(k)])
    if rng.rand() < 0.5:  # few alike
        for i in range(k):
            q = rng.permutation(pool)
            data[i] = [int(q[j % len(q)]) for j in range(n)]
    if case is not None:
        data[int(rng.randint(k))] = case["s"]
    names = {c: "Code_%d" % c for c in pool}
    tree = {"meta": {"name": "weather_code"}}
    for c in pool:
        e = {"leaf": c}
        for d, nt in nights:
            if d == c:
                e["if_night"] = names[nt]
        for i, g in enumerate(groups):
            if c in g:
                e["group"] = "g%d" % i
        tree[names[c]] = e
    # members of groups in the order they are written
    gs = [[c for c in pool if c in g] for g in groups]
    step = 3600 * int(rng.choice([1, 1, 3]))
    blend = rng.rand() < 0.4
    vary = rng.rand() < 0.5
    ids = rng.rand() < 0.5
    run = RUN if ids and rng.rand() < 0.6 else None
    cs, frts, models, recs = [], [], [], []
    for j in range(n):
        t = C.T0 + step * j
        frt = C.T0 - 7200 - (3600 * (n - 1 - j) if vary else 0)
        frts.append(frt)
        attrs = dict(C.ATTRS, weather_code_meaning="x")
        if ids:
            models.append(str(rng.choice(["uk_det", "uk_ens", "uk_det uk_ens", "nc_det"])))
            attrs["mosg__model_configuration"] = models[-1]
            if run:
                recs.append(lines(rng, models[-1], frt, attrs))
        c = C.grid(data[:, j].reshape(shape), name="weather_code", units="1", dtype=np.int32, space=kind, t=t, frt=frt, tb=[t - step, t], attrs=attrs)
        if blend:
            b = c.coord("forecast_reference_time").copy()
            b.rename("blend_time")
            c.add_aux_coord(b)
        cs.append(c)
    order = rng.permutation(n) if rng.rand() < 0.5 else range(n)
    cs = CubeList([cs[i] for i in order])
    keep = [c.copy() for c in cs]
    mid = "mosg__model_configuration" if ids else None
    if rng.rand() < 0.3:
        r = ctx.call(lambda: unwrap(mcli.process)(*cs, decision_tree=tree, model_id_attr=mid, record_run_attr=run))
    else:
        r = ctx.call(lambda: ModalCategory(tree, model_id_attr=mid, record_run_attr=run)(cs))
    with ctx.session("modal") as s:
        base = dict(s=data.tolist(), nights=nights, groups=gs)
        if isinstance(r, Failed):
            s.event("period", out="error", err=r.text, **base)
        else:
            end = C.T0 + step * (n - 1)
            if run:
                runs_event(s, recs, r)
            meta = r.name() == "weather_code" and r.shape == shape and r.coord("time").points.tolist() == [end] and r.coord("time").bounds.tolist() == [[C.T0 - step, end]] and \
                r.coord("forecast_reference_time").points.tolist() == [max(frts)] and not r.coord("forecast_reference_time").has_bounds() and \
                r.coord("forecast_period").points.tolist() == [end - max(frts)] and \
                (not blend or (r.coord("blend_time").points.tolist() == [max(frts)] and not r.coord("blend_time").has_bounds())) and \
                [(m.method, m.coord_names, m.intervals) for m in r.cell_methods] == [("mode", ("time",), ("%d hour" % (step // 3600),))] and \
                (not ids or r.attributes["mosg__model_configuration"] == " ".join(sorted({m for x in models for m in x.split()})))
            s.event("period", out="ok", got=fx(r.data), meta=bool(meta), same=all(alike(a, b) for a, b in zip(cs, keep)), **base)
        if n > 1:
            bad = CubeList([c.copy() for c in keep])
            b = bad[0].coord("time").bounds.copy()
            b[0][0] += 1800
            bad[0].coord("time").bounds = b
            s.event("rejected", why="uneven_periods", out=out(ctx.call(lambda: ModalCategory(tree)(bad))))
        s.event("rejected", why="no_input", out=out(ctx.call(lambda: unwrap(mcli.process)(decision_tree=tree))))


MASKED = fx(np.ma.masked_array([1.0], [True]))[0]


def drive(ctx):
    n = 700 if ctx.thorough else 36
    for case in ctx.pick([c for c in ctx.cases if "nodes" in c], n):
        tree_session(ctx, case)
    for case in ctx.pick([c for c in ctx.cases if "s" in c], n):
        modal_session(ctx, case)
    for _ in range(n):
        tree_session(ctx, None)
        modal_session(ctx, None)
