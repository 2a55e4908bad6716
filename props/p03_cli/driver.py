import os
import pathlib
import re

import iris
import numpy as np
from vkit import cubes as C
from vkit.main import Failed

from improver import cli


def flat(tree):
    out = []
    for t in tree:
        if isinstance(t, list):
            out += ["["] + flat(t) + ["]"]
        else:
            out.append(str(t))
    return out


class Obj:
    def __init__(self, n):
        self.n = n


def run(ctx, s, toks, tree, dry):
    calls = []
    prog = []

    def dispatcher(prog_name, *args):
        prog.append(prog_name)
        calls.append(["r:%d" % a.original_object.n if hasattr(a, "original_object")
                      else "s:" + a for a in args])
        return Obj(len(calls))

    r = ctx.call(cli.execute_command, dispatcher, "prog", *tree, dry_run=dry)
    bad = isinstance(r, Failed)
    s.event("run", toks=toks, dry=dry, out="error" if bad else "ok", err=r.text if bad else "",
            calls=calls, result=getattr(r, "n", 0), prog_ok=all(x == "prog" for x in prog))


def parse(toks):
    """Trees for the replay: only used on balanced command lines."""
    stack, cur = [], []
    for t in toks:
        if t == "[":
            stack.append(cur)
            cur = []
        elif t == "]":
            stack[-1].append(cur)
            cur = stack.pop()
        else:
            cur.append(t)
    return cur


def read(ctx, s, toks):
    r = ctx.call(cli.unbracket, list(toks))
    if isinstance(r, Failed):
        m = re.search(r"(\d+)", r.text)
        s.event("read", toks=toks, out="error" if r.name == "ValueError" else r.name,
                errpos=int(m.group(1)) if m else -2)
        return False
    s.event("read", toks=toks, out="ok", tree=flat(r), depth_ok=list(r) == parse(toks))
    return True


def cube(rng, n=4):
    return C.grid(rng.randint(270, 290, (n, 3, 4)), "air_temperature", "K",
                  lead=[C.realization(n)])


UNARY = [
    ["collapse-realizations", "<", "--method", "mean"],
    ["collapse-realizations", "<", "--method", "std_dev"],
    ["generate-percentiles", "<", "--coordinates", "realization", "--percentiles", "20,50,80"],
    ["threshold", "<", "--threshold-values", "275,280", "--collapse-coord", "realization"],
    ["threshold", "<", "--threshold-values", "279.0", "--comparison-operator", "le",
     "--collapse-coord", "realization"],
    ["extract", "<", "--constraints", "realization=1"],
    ["standardise", "<"],
]
UNARY2 = [["standardise", "<"], ["extract", "<", "--constraints", "projection_x_coordinate=-1000:1000",
                                 "--ignore-failure"],
          ["nbhood", "<", "--neighbourhood-output=probabilities", "--neighbourhood-shape=square",
           "--radii=2000"]]


def gen(rng, depth, src):
    """A random pipeline as a tree of commands; leaves are files."""
    if depth == 0:
        return src[rng.randint(len(src))]
    if depth > 1 and rng.rand() < 0.35:
        op = ["+", "-", "max", "min", "mean"][rng.randint(5)]
        k = 2 if op == "-" else 2 + rng.randint(2)
        kid = gen(rng, depth - 1, src)
        # the same shape of data for every operand
        return ["combine", "--operation", op] + [kid] * k
    cmd = list(UNARY[[0, 1, 5, 6][rng.randint(4)] if depth > 1 else rng.randint(len(UNARY))])
    kid = gen(rng, 0 if cmd[0] in ("collapse-realizations", "generate-percentiles", "threshold",
                                   "extract") else depth - 1, src)
    return [kid if a == "<" else a for a in cmd]


def bracket(tree, top=True):
    out = []
    for a in tree:
        out += ["["] + bracket(a, False) + ["]"] if isinstance(a, list) else [a]
    return out


def by_files(d, tree, n):
    args = []
    for a in tree:
        if isinstance(a, list):
            a = by_files(d, a, n)
        args.append(a)
    n[0] += 1
    out = os.path.join(d, "step%d.nc" % n[0])
    cli.main("improver", *args, "--output", out)
    return out


def load(path):
    return sorted(iris.load(path), key=lambda c: c.name())


def same(a, b):
    return len(a) == len(b) and all(
        x.name() == y.name() and x.shape == y.shape and x.units == y.units
        and np.array_equal(np.ma.filled(x.data, -999), np.ma.filled(y.data, -999))
        and [c.name() for c in x.coords()] == [c.name() for c in y.coords()] for x, y in zip(a, b))


def drive(ctx):
    rng = ctx.rng
    for c in ctx.cases:
        ctx.cases_replayed += 1
        toks = c["toks"]
        with ctx.session("spec") as s:
            if read(ctx, s, toks) and toks.count("[") == toks.count("]"):
                run(ctx, s, toks, parse(toks), False)
                if len(toks) % 3 == 0:
                    run(ctx, s, toks, parse(toks), True)
    words = ["a", "bb", "[x", "x]", "[]", "--k", "7", "", "[ ["]
    for _ in range(150 if not ctx.thorough else 3000):
        toks = []
        depth = 0
        for _ in range(rng.randint(1, 25)):
            k = rng.rand()
            if k < 0.25:
                toks.append("[")
                depth += 1
            elif k < 0.5 and (depth > 0 or rng.rand() < 0.03):
                toks.append("]")
                depth -= 1
            else:
                toks.append(words[rng.randint(len(words))])
        if rng.rand() < 0.8:
            toks += ["]"] * max(0, depth)
        with ctx.session("random") as s:
            ok = read(ctx, s, toks)
            if ok and toks.count("[") == toks.count("]"):
                run(ctx, s, toks, parse(toks), bool(rng.randint(2)))
    convert(ctx)
    files(ctx)


def convert(ctx):
    rng = ctx.rng
    conv = {"comma_separated_list": cli.comma_separated_list,
            "comma_separated_list_of_float": cli.comma_separated_list_of_float,
            "inputpath": cli.inputpath, "inputdatetime": cli.inputdatetime}
    for i in range(20):
        n = rng.randint(1, 5)
        parts = [str(x) for x in rng.randint(-50, 50, n)]
        obj = Obj(1)
        for name, f in conv.items():
            with ctx.session("convert") as s:
                wrapped = cli.ObjectAsStr(obj)
                passed = ctx.call(f, wrapped) is obj and ctx.call(f, obj) is obj
                if name == "comma_separated_list":
                    got, want = ctx.call(f, ",".join(parts)), parts
                elif name == "comma_separated_list_of_float":
                    got = [round(v) for v in ctx.call(f, ",".join(parts))]
                    want = [int(p) for p in parts]
                elif name == "inputpath":
                    got, want = ctx.call(f, "/x/" + parts[0]), "/x/" + parts[0]
                    got = str(got) if isinstance(got, pathlib.Path) else "not a path"
                else:
                    mi, h, d, mo = (int(rng.randint(a, b)) for a, b in ((0, 60), (0, 24), (1, 28),
                                                                      (1, 13)))
                    v = ctx.call(f, "2017%02d%02dT%02d%02dZ" % (mo, d, h, mi))
                    got, want = [v.year, v.month, v.day, v.hour, v.minute], [2017, mo, d, h, mi]
                s.event("convert", kind=name, got=got, want=want, passed=passed)


def files(ctx):
    rng = ctx.rng
    d = os.path.join(ctx.scratch, "pipe")
    os.makedirs(d)
    from improver.utilities.save import save_netcdf
    src = []
    for i in range(2):
        p = os.path.join(d, "in%d.nc" % i)
        save_netcdf(cube(rng), p)
        src.append(p)
    for i in range(14 if not ctx.thorough else 150):
        tree = gen(rng, 1 + rng.randint(3), src)
        with ctx.session("pipeline") as s:
            out = os.path.join(d, "bracketed.nc")
            if os.path.exists(out):
                os.remove(out)
            toks = bracket(tree) + ["--output", out]
            r = ctx.call(lambda: cli.main("improver", *toks))
            ref = ctx.call(by_files, d, tree, [0])
            if isinstance(ref, Failed) and isinstance(r, Failed):
                continue   # refused either way
            bad = isinstance(r, Failed) or isinstance(ref, Failed)
            s.event("pipeline", toks=[t.replace(d, "") for t in toks], out="error" if bad else "ok",
                    err=[x.text for x in (r, ref) if isinstance(x, Failed)],
                    written=os.path.exists(out), same=not bad and os.path.exists(out)
                    and same(load(out), load(ref)),
                    leftovers=[f for f in os.listdir(d) if not f.endswith(".nc")])
    # the output decorator
    res = cube(rng, 2)
    for has_output in (False, True):
        for passthrough in (False, True):
            for empty in (False, True):
                with ctx.session("output") as s:
                    value = iris.cube.CubeList() if empty else res
                    out = os.path.join(d, "out.nc")
                    if os.path.exists(out):
                        os.remove(out)

                    @cli.with_output
                    def process(x):
                        return value

                    kw = {"output": out} if has_output else {}
                    r = ctx.call(process, "x", pass_through_output=passthrough, **kw)
                    bad = isinstance(r, Failed)
                    kind = "nothing" if r is None else "result" if r is value else \
                        "wrapped" if getattr(r, "original_object", None) is value else "other"
                    f = os.path.exists(out)
                    s.event("output", has_output=has_output, passthrough=passthrough, empty=empty,
                            out="error" if bad else "ok", returned=kind, file=f,
                            content_same=f and not empty and same(load(out), [res]))
