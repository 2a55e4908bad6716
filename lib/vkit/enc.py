"""Encoding of observations as 32-bit integers TLC can compare."""
import datetime
import math

import numpy as np

NAN, MASKED, PINF, NINF, OVER = 2000000001, 2000000002, 2000000003, 2000000004, 2000000005


def fx1(v, scale=1):
    """One number as fixed point with the sentinel values for NaN / masked / infinities."""
    if v is np.ma.masked:
        return MASKED
    v = float(v)
    if math.isnan(v):
        return NAN
    if math.isinf(v):
        return PINF if v > 0 else NINF
    r = round(v * scale)
    return int(r) if abs(r) < 2000000000 else OVER


def fx(arr, scale=1):
    """An array, flattened in C order."""
    data = np.ma.getdata(arr)
    mask = np.ma.getmaskarray(arr)
    return [MASKED if m else fx1(v, scale) for v, m in zip(data.ravel().tolist(),
                                                          mask.ravel().tolist())]


def rows(arr, scale=1):
    """A 2-D array as a list of rows; n-D arrays as nested lists."""
    if arr.ndim <= 1:
        return fx(arr, scale)
    return [rows(arr[i], scale) for i in range(arr.shape[0])]


def shape(x):
    return [int(n) for n in x.shape]


def exc(e):
    return type(e).__name__
