import contextlib
import copy
import io
import json
import os

import netCDF4
import numpy as np
from vkit.main import Failed

from improver import cli
from improver.utilities import compare as cmp_mod

NAN = 2000000001
NP = {"f4": np.float32, "f8": np.float64, "i4": np.int32, "i8": np.int64}


def val(v, ty):
    if ty in ("i4", "i8"):
        return v // 1000
    return float("nan") if v == NAN else v / 1000.0


def put_attrs(obj, attrs):
    for k, a in (attrs or {}).items():
        if a["ty"] == "str":
            obj.setncattr(k, a["val"])
        else:
            # attribute values are recorded as they stand
            arr = np.array([float("nan") if v == NAN else v for v in a["val"]])
            arr = arr.astype(NP[a["ty"]])
            obj.setncattr(k, arr if len(arr) > 1 else arr[0])


def put(ds, F):
    put_attrs(ds, F["attrs"])
    for d, n in (F["dims"] or {}).items():
        ds.createDimension(d, n)
    for v, r in (F["vars"] or {}).items():
        if r["ty"] == "str":
            var = ds.createVariable(v, str, tuple(r["dims"]))
            var[:] = np.array(r["data"], dtype=object)
        else:
            var = ds.createVariable(v, NP[r["ty"]], tuple(r["dims"]))
            data = np.array([val(x, r["ty"]) for x in r["data"]], dtype=NP[r["ty"]])
            var[:] = data.reshape(var.shape) if r["dims"] else data[0]
        put_attrs(var, r["attrs"])
    for g, sub in (F.get("groups") or {}).items():
        put(ds.createGroup(g), sub)


def names(F):
    out = set(F["attrs"] or {}) | set(F["dims"] or {}) | set(F["vars"] or {})
    for v in (F["vars"] or {}).values():
        out |= set(v["attrs"] or {})
    for g, sub in (F.get("groups") or {}).items():
        out |= {g} | names(sub)
    return out


FILES = {}


def written(ctx, X):
    key = json.dumps(X, sort_keys=True)
    if key not in FILES:
        path = os.path.join(ctx.scratch, "f%d.nc" % len(FILES))
        with netCDF4.Dataset(path, "w") as ds:
            put(ds, X)
        FILES[key] = path
    return FILES[key]


def one(ctx, s, F, G, o):
    """G is the file taken as good."""
    pf, pg = written(ctx, F), written(ctx, G)
    reports = []
    kw = dict(rtol=o["rtol"] / 1000.0, atol=o["atol"] / 1000.0,
              exclude_vars=list(o["excl"]) or None, ignored_attributes=list(o["ignored"]) or None)
    r = ctx.call(cmp_mod.compare_netcdfs, pf, pg, reporter=reports.append, **kw)
    r2 = ctx.call(cmp_mod.compare_netcdfs, pf, pg, **kw)
    text = "\n".join(reports)
    s.event("compare", f=F, g=G, rtol=o["rtol"], atol=o["atol"], ignored=sorted(o["ignored"]),
            excl=sorted(o["excl"]), out="error" if isinstance(r, Failed) else "ok",
            err=r.text if isinstance(r, Failed) else "", nreports=len(reports),
            said=sorted(n for n in names(F) | names(G) if n in text),
            raises=r2.name if isinstance(r2, Failed) else "none", via="function")
    if not o["excl"] and ctx.rng.rand() < 0.3:
        typed = [str(pf), str(pg)] + [repr(kw["rtol"]), repr(kw["atol"])]
        if o["ignored"]:
            typed += ["--ignored-attributes", ",".join(o["ignored"])]
        text = io.StringIO()
        with contextlib.redirect_stdout(text):
            r = ctx.call(cli.main, "improver", "compare", *typed)
        text = text.getvalue()
        s.event("compare", f=F, g=G, rtol=o["rtol"], atol=o["atol"], ignored=sorted(o["ignored"]), excl=[], out="error" if isinstance(r, Failed) else "ok", err=r.text if isinstance(r, Failed) else "",
                nreports=len(text.split("\n")) - 1, said=sorted(n for n in names(F) | names(G) if n in text), raises="reported", via="command")


def attr(rng):
    t = ["str", "f4", "f8", "i4"][rng.randint(4)]
    if t == "str":
        return {"ty": t, "val": ["p", "q", "r"][rng.randint(3)]}
    n = 1 + rng.randint(2)
    return {"ty": t, "val": [int(x) for x in rng.randint(0, 4, n)]}


def var(rng, dims, alld, tag):
    ty = ["f4", "f8", "i4", "i8", "str"][rng.randint(5)]
    n = int(np.prod([alld[d] for d in dims])) if dims else 1
    if ty == "str":
        data = [["a", "bb", "c"][rng.randint(3)] for _ in range(n)]
        dims = dims[:1]
        data = data[: (alld[dims[0]] if dims else 1)]
    elif ty[0] == "i":
        data = [int(x) * 1000 for x in rng.randint(-20, 21, n)]
    else:
        data = [int(x) for x in rng.randint(-20000, 20001, n)]
        if rng.rand() < 0.3:
            data[rng.randint(n)] = NAN
    return {"ty": ty, "dims": list(dims), "data": data, "attrs": {tag + "_at%d" % k: attr(rng) for k in range(rng.randint(3))}}


def group(rng, tag, deep):
    dims = {tag + "_dim%d" % i: int(rng.randint(1, 4)) for i in range(1 + rng.randint(2))}
    vs = {}
    for i in range(1 + rng.randint(3)):
        nd = rng.randint(len(dims) + 1)
        vs["%s_var%d" % (tag, i)] = var(rng, list(dims)[:nd], dims, "%s_v%d" % (tag, i))
    for d in dims:
        if rng.rand() < 0.5:
            vs[d] = {"ty": "f4", "dims": [d], "data": [int(k) * 1000 for k in range(dims[d])],
                     "attrs": {}}
    F = {"attrs": {tag + "_gat%d" % k: attr(rng) for k in range(rng.randint(3))}, "dims": dims,
         "vars": vs}
    if rng.rand() < 0.3:
        F["attrs"]["history"] = {"ty": "str", "val": "t0"}
    if deep:
        F["groups"] = {tag + "_sub%d" % k: group(rng, tag + "s%d" % k, False) for k in range(rng.randint(3))}
    return F


def edit(rng, G):
    tgt = G
    if G.get("groups") and rng.rand() < 0.4:
        if rng.rand() < 0.2:
            if rng.rand() < 0.5:
                G["groups"].pop(sorted(G["groups"])[0])
            else:
                G["groups"]["newgroup"] = group(rng, "ng", False)
            return
        ks = sorted(G["groups"])
        tgt = G["groups"][ks[rng.randint(len(ks))]]
    ks = sorted(tgt["vars"])
    k = rng.randint(10)
    v = tgt["vars"][ks[rng.randint(len(ks))]]
    if k <= 3:
        i = rng.randint(len(v["data"]))
        if v["ty"] == "str":
            v["data"][i] += "x"
        elif v["ty"][0] == "i":
            v["data"][i] += [1000, -2000][rng.randint(2)]
        elif v["data"][i] == NAN or rng.rand() < 0.2:
            v["data"][i] = 1234
        else:
            v["data"][i] += [1, 3, 12, 100, 700, -2500][rng.randint(6)]
    elif k == 4:
        # the same variable on other dimensions
        if v["dims"] and len(set(map(str, v["data"]))) == 1:
            v["dims"] = []
            v["data"] = v["data"][:1]
        elif v["ty"] == "f4":
            v["ty"] = "f8"
    elif k == 5 and len(ks) > 1:
        nm = ks[rng.randint(len(ks))]
        tgt["vars"].pop(nm)
    elif k == 6:
        v["attrs"]["fresh_at"] = attr(rng)
    elif k == 7 and v["attrs"]:
        a = sorted(v["attrs"])[0]
        v["attrs"][a] = attr(rng)
    elif k == 8:
        tgt["attrs"]["history"] = {"ty": "str", "val": "t%d" % rng.randint(3)}
    else:
        tgt["dims"]["lonely_dim"] = 2


def drive(ctx):
    for c in ctx.pick(ctx.cases, 110 if not ctx.thorough else 4000):
        with ctx.session("spec") as s:
            one(ctx, s, c["f"], c["g"], c["o"])
        with ctx.session("spec_swapped") as s:
            one(ctx, s, c["g"], c["f"], c["o"])
    rng = ctx.rng
    for i in range(150 if not ctx.thorough else 5000):
        F = group(rng, "r", True)
        G = copy.deepcopy(F)
        for _ in range(rng.randint(3)):
            edit(rng, G)
        nm = sorted(F["vars"])
        o = {"rtol": [0, 10, 100][rng.randint(3)], "atol": [0, 10, 200][rng.randint(3)],
             "ignored": ["history", "fresh_at"] if rng.rand() < 0.4 else [],
             "excl": [nm[rng.randint(len(nm))]] if rng.rand() < 0.2 else []}
        with ctx.session("random") as s:
            one(ctx, s, F, G, o)
        if ctx.late():
            break
    # a scalar against the same value along a dimension
    for ty in ("f4", "i4"):
        A = {"attrs": {}, "dims": {"dim_a": 3}, "groups": {},
             "vars": {"one_var": {"ty": ty, "dims": [], "data": [5000], "attrs": {}}}}
        B = copy.deepcopy(A)
        B["vars"]["one_var"].update(dims=["dim_a"], data=[5000] * 3)
        for x, y in ((A, B), (B, A), (A, A), (B, B)):
            with ctx.session("scalar") as s:
                one(ctx, s, x, y, {"rtol": 10, "atol": 10, "ignored": [], "excl": []})
