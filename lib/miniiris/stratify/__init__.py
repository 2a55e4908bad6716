"""Stand-in for the parts of stratify that IMPROVER uses: linear interpolation at the first
crossing of a level along an axis, nearest value or NaN beyond."""
import numpy as np

EXTRAPOLATE_NAN = "nan"
EXTRAPOLATE_NEAREST = "nearest"
INTERPOLATE_LINEAR = "linear"


def _column(targets, z, f, sign, nearest):
    out = np.full(len(targets), np.nan)
    s = sign * z
    for i, target in enumerate(targets):
        t = sign * target
        if t < s[0]:
            if nearest:
                out[i] = f[0]
            continue
        for k in range(1, len(s)):
            if s[k - 1] <= t <= s[k]:
                if s[k] == s[k - 1]:
                    out[i] = f[k - 1]
                else:
                    w = (t - s[k - 1]) / (s[k] - s[k - 1])
                    out[i] = f[k - 1] + w * (f[k] - f[k - 1])
                break
        else:
            if len(s) == 1 and t == s[0]:
                out[i] = f[0]
            elif nearest:
                out[i] = f[-1]
    return out


def interpolate(z_target, z_src, fz_src, axis=-1, rising=None, interpolation="linear",
                extrapolation="nan"):
    if interpolation != "linear" or extrapolation not in ("nan", "nearest"):
        raise NotImplementedError("stratify stand-in")
    z_target = np.asarray(z_target, dtype=np.float64)
    if z_target.ndim != 1:
        raise NotImplementedError("stratify stand-in: one-dimensional targets only")
    z_src, fz_src = np.asarray(z_src), np.asarray(fz_src)
    z = np.moveaxis(z_src, axis, -1)
    f = np.moveaxis(fz_src, axis, -1)
    if z.shape != f.shape:
        raise ValueError("z_src and fz_src have different shapes")
    out = np.empty(z.shape[:-1] + (len(z_target),))
    for idx in np.ndindex(*z.shape[:-1]):
        zc, fc = z[idx].astype(np.float64), f[idx].astype(np.float64)
        up = rising if rising is not None else bool(zc[-1] >= zc[0])
        out[idx] = _column(z_target, zc, fc, 1 if up else -1, extrapolation == "nearest")
    return np.moveaxis(out, -1, axis)
