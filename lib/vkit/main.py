"""Runs one driver: python -m vkit.main driver.py --cases .. --out .. --tier .. --seed .."""
import argparse
import importlib.util
import json
import os
import sys
import time
import traceback
import warnings

import numpy as np

warnings.filterwarnings("ignore")


class Gap(Exception):
    """The code used a part of iris the stand-in does not have: no verdict for the session."""


class Failed:
    """The outcome of a call that raised."""

    def __init__(self, err):
        self.err = err
        self.name = type(err).__name__
        self.text = str(err)[:300]

    def __repr__(self):
        return "%s: %s" % (self.name, self.text)


def _is_gap(err):
    tb = err.__traceback__
    last = None
    while tb is not None:
        last = tb.tb_frame.f_code.co_filename
        tb = tb.tb_next
    text = str(err)
    if isinstance(err, NotImplementedError) and last and "miniiris" in last:
        return True
    if isinstance(err, ImportError) and ("iris" in text or "cartopy" in text):
        return True
    if isinstance(err, AttributeError) and any(
            "'%s'" % n in text for n in ("iris", "Cube", "CubeList", "DimCoord", "AuxCoord",
                                         "CellMethod", "Constraint", "Cell")):
        return True
    if isinstance(err, AttributeError) and text.startswith(("module 'iris", "module 'cartopy")):
        return True
    if isinstance(err, TypeError) and "unexpected keyword argument" in text and last \
            and "miniiris" in last:
        return True
    return False


class Session:
    def __init__(self, ctx, name):
        self.ctx = ctx
        self.name = name
        self.events = []

    def __enter__(self):
        return self

    def __exit__(self, et, ev, tb):
        if et is None:
            if self.events:
                self.ctx.flush(self)
            return False
        if not issubclass(et, Exception):
            return False
        if issubclass(et, Gap) or _is_gap(ev):
            self.ctx.skipped.append("%s: %s" % (self.name, ev))
            return True
        # The driver could not interpret what the code did (an output of the wrong kind,
        # an exception where none is possible): recorded, and counted as a violation.
        self.event("crash", error=repr(ev)[:300],
                   at="".join(traceback.format_exception(et, ev, tb)[-3:])[-900:])
        self.ctx.flush(self)
        return True

    def event(self, op, **kw):
        e = {"op": op}
        e.update(kw)
        self.events.append(e)
        return e


class Ctx:
    def __init__(self, out, tier, seed, cases, timeout):
        self.f = open(out, "w")
        self.tier = tier
        self.thorough = tier == "thorough"
        self.seed = seed
        self.cases = cases
        self.rng = np.random.RandomState(seed * 7919 + 13)
        self.n = 0
        self.nev = 0
        self.skipped = []
        self.assumptions = []
        self.cases_replayed = 0
        self.deadline = time.time() + timeout
        self.scratch = os.environ.get("VERIF_SCRATCH", "/tmp")

    def session(self, name=""):
        return Session(self, name)

    def flush(self, s):
        for i, e in enumerate(s.events):
            e = dict(e)
            e["sid"] = self.n
            e.setdefault("name", s.name)
            self.f.write(json.dumps(_plain(e)) + "\n")
            self.nev += 1
        self.n += 1

    def pick(self, cases, n):
        """At most n of the cases, chosen by the seed, in a stable order."""
        if len(cases) <= n:
            self.cases_replayed += len(cases)
            return list(cases)
        idx = sorted(self.rng.choice(len(cases), n, replace=False).tolist())
        self.cases_replayed += n
        return [cases[i] for i in idx]

    def late(self):
        return time.time() > self.deadline

    @staticmethod
    def call(func, *args, **kw):
        """Call the code under test; an exception becomes a Failed value."""
        try:
            return func(*args, **kw)
        except Gap:
            raise
        except Exception as err:  # noqa: BLE001
            if _is_gap(err):
                raise Gap("%s: %s" % (type(err).__name__, err))
            if os.environ.get("VERIF_DEBUG"):
                traceback.print_exc()
            return Failed(err)


def _plain(x):
    if isinstance(x, dict):
        return {str(k): _plain(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [_plain(v) for v in x]
    if isinstance(x, np.ndarray):
        return _plain(x.tolist())
    if isinstance(x, (bool, np.bool_)):
        return bool(x)
    if isinstance(x, (int, np.integer)):
        v = int(x)
        if abs(v) >= 2 ** 31:
            return "int:%d" % v
        return v
    if isinstance(x, (float, np.floating)):
        raise TypeError("floats must be encoded before they are recorded: %r" % x)
    if x is None:
        return "none"
    return str(x)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("driver")
    ap.add_argument("--cases")
    ap.add_argument("--out")
    ap.add_argument("--tier")
    ap.add_argument("--seed", type=int)
    ap.add_argument("--timeout", type=float, default=240)
    a = ap.parse_args()
    with open(a.cases) as f:
        cases = json.load(f)
    ctx = Ctx(a.out, a.tier, a.seed, cases, a.timeout)
    sys.path.insert(0, os.path.dirname(os.path.abspath(a.driver)))
    spec = importlib.util.spec_from_file_location("driver", a.driver)
    mod = importlib.util.module_from_spec(spec)
    reused = {}
    try:
        from vkit import reuse
        reused = reuse.install(a.seed)
    except Exception:  # noqa: BLE001  the driver's own import will tell
        pass
    try:
        spec.loader.exec_module(mod)
    except Exception as err:  # the code under test does not even import
        tb = err.__traceback__
        files = []
        while tb is not None:
            files.append(tb.tb_frame.f_code.co_filename)
            tb = tb.tb_next
        repo = os.environ.get("VERIF_REPO", "/repo")
        if any(f.startswith(repo + "/improver") for f in files) and not _is_gap(err):
            with ctx.session("import") as s:
                s.event("crash", error="import: " + repr(err)[:300])
        else:
            raise
    else:
        try:
            mod.drive(ctx)
        except Exception as err:  # noqa: BLE001
            traceback.print_exc()
            with ctx.session("driver") as s:
                raise
    ctx.f.close()
    with open(a.out + ".meta", "w") as f:
        json.dump({"skipped": ctx.skipped[:50], "assumptions": ctx.assumptions,
                   "cases_replayed": ctx.cases_replayed, "events": ctx.nev,
                   "plugins_reused": reused.get("reused", 0)}, f)


if __name__ == "__main__":
    # the classes drivers import must be the ones used here
    from vkit.main import main as _main
    _main()
