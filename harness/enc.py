"""Encoding of values for the TLA+ specification (see spec/Num.tla, Mat.tla).

Reals are rounded to 1e-6 and sent as integers; arrays as [s: shape, v: flat].
Values which are not finite or too large are sent as the codes below, which the
specification recognizes (WF in Num.tla).
"""
import numbers

import numpy as np
from scipy import sparse

SCALE = 10**6
NAN, PINF, NINF, BIGP, BIGN, CPLX = (
    2147483001, 2147483002, -2147483002, 2147483004, -2147483004, 2147483005)
LIMIT = 2000 * SCALE


def num(x):
    """A real number as fixed point."""
    if isinstance(x, (complex, np.complexfloating)):
        if abs(x.imag) > 1e-9:
            return CPLX
        x = x.real
    x = float(x)
    if x != x:
        return NAN
    if x == float("inf"):
        return PINF
    if x == float("-inf"):
        return NINF
    y = x * SCALE
    if y > LIMIT:
        return BIGP
    if y < -LIMIT:
        return BIGN
    return int(round(y))


def arr(x):
    """An array (any array-like, or sparse) as shape and flat entries."""
    try:
        if sparse.issparse(x):
            x = x.toarray()
        x = np.asarray(x)
        if x.dtype == object:
            x = np.asarray(x.tolist(), dtype=float)
        if x.dtype.kind not in "biufc":
            return {"s": [-1], "v": []}
    except Exception:
        return {"s": [-1], "v": []}
    flat = x.ravel(order="C")
    if flat.dtype.kind in "biu":
        if flat.size and (np.abs(flat.astype(float)).max() > 2000):
            return {"s": list(x.shape), "v": [num(v) for v in flat]}
        return {"s": list(x.shape), "v": [int(v) * SCALE for v in flat]}
    if flat.dtype.kind == "f" and flat.size:
        f = flat.astype(float)
        if np.isfinite(f).all() and np.abs(f).max() < 2000:
            return {"s": list(x.shape), "v": [int(v) for v in np.rint(f * SCALE)]}
    return {"s": list(x.shape), "v": [num(v) for v in flat]}


def idx(x):
    """An array of integers (indices, counts), sent unscaled."""
    try:
        x = np.asarray(x)
        if x.size == 0:
            return {"s": list(x.shape), "v": []}
        y = np.rint(x.astype(float))
        if not np.all(np.isfinite(y)) or np.any(np.abs(y - x.astype(float)) > 1e-9) \
           or np.any(np.abs(y) > 2e9):
            return {"s": [-1], "v": []}
        return {"s": list(x.shape), "v": [int(v) for v in y.ravel()]}
    except Exception:
        return {"s": [-1], "v": []}


def integer(x):
    """One integer, unscaled (a code if it isn't one)."""
    try:
        f = float(x)
        if f == int(f) and abs(f) < 2e9:
            return int(f)
    except Exception:
        pass
    return NAN


def flag(x):
    """A truth value, as a string so that anything else is visible."""
    if isinstance(x, (bool, np.bool_)):
        return "T" if x else "F"
    return "?"


def exact(x):
    """An array with its exact values, as strings."""
    try:
        if sparse.issparse(x):
            x = x.toarray()
        x = np.asarray(x)
        if x.dtype.kind not in "biuf":
            x = np.asarray(x.tolist(), dtype=float)
        return {"s": list(x.shape), "v": [float(v).hex() if float(v) != 0 else "0x0.0p+0" for v in x.ravel()]}
    except Exception:
        return {"s": [-1], "v": []}
