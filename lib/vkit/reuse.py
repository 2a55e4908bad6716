"""Reuse of plugin instances.

A plugin is a description of some processing: what it returns depends on how it was
set up and on what it is called with, not on what it was called with before.  Every
second call of a newly made plugin is therefore handed to an earlier instance of the
same class that was set up alike, which has been called before; what comes back is
judged as any other result.
"""
import random

SKIP = set()  # classes documented to change with use (none)


def _canon(x, depth=0):
    if x is None or isinstance(x, (bool, int, float, str, bytes, complex)):
        return (type(x).__name__, repr(x))
    if isinstance(x, type) or callable(x) and hasattr(x, "__qualname__") \
            and not getattr(x, "__closure__", None) and not hasattr(x, "__self__"):
        return ("callable", getattr(x, "__module__", ""), x.__qualname__) \
            if "<" not in x.__qualname__ else None
    if depth > 4:
        return None
    if isinstance(x, (list, tuple, set, frozenset)):
        xs = sorted(x, key=repr) if isinstance(x, (set, frozenset)) else x
        parts = [_canon(v, depth + 1) for v in xs]
        return None if None in parts else (type(x).__name__,) + tuple(parts)
    if isinstance(x, dict):
        parts = [(repr(k), _canon(v, depth + 1)) for k, v in x.items()]
        return None if any(p[1] is None for p in parts) else ("dict",) + tuple(parts)
    if type(x).__module__.startswith("numpy") and getattr(x, "size", 99) <= 64 \
            and not hasattr(x, "mask"):
        return ("np", str(x.dtype), repr(x.tolist()))
    if type(x).__module__ == "datetime":
        return ("datetime", repr(x))
    if type(x).__name__ == "Unit":
        return ("unit", repr(x))
    if type(x).__module__.startswith("improver"):
        inner = _canon(dict(vars(x)), depth + 1)
        return None if inner is None else ("obj", type(x).__qualname__, inner)
    return None


def install(seed):
    import improver

    rng = random.Random(seed * 31 + 7)
    pool = {}
    counts = {}
    base = improver.BasePlugin
    original = {c: c.__dict__["__call__"] for c in (base, improver.PostProcessingPlugin)}

    def patched(cls):
        inner = original[cls]

        def __call__(self, *args, **kwargs):
            used = self.__dict__.get("_verif_used")
            if used is None and type(self).__qualname__ not in SKIP:
                state = _canon(dict(vars(self)))
                self.__dict__["_verif_used"] = True
                if state is not None:
                    key = (type(self).__module__, type(self).__qualname__, state)
                    old = pool.get(key)
                    if old is None:
                        pool[key] = self
                    elif rng.random() < 0.5:
                        counts["reused"] = counts.get("reused", 0) + 1
                        out = inner(old, *args, **kwargs)
                        self.__dict__.update(old.__dict__)
                        return out
            return inner(self, *args, **kwargs)

        return __call__

    for cls in original:
        cls.__call__ = patched(cls)
    return counts
