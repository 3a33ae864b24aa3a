"""Canonical, comparable, JSON-able form of anything the library returns."""
import math
import dataclasses
import numpy as np


def canon(v, depth=0):
    if depth > 12:
        return ["deep", type(v).__name__]
    if v is None or isinstance(v, (bool, str)):
        return v
    if isinstance(v, (np.bool_,)):
        return bool(v)
    if isinstance(v, (int, np.integer)):
        return int(v)
    if isinstance(v, (float, np.floating)):
        return ["f", _f(v)]
    if isinstance(v, (complex, np.complexfloating)):
        return ["c", _f(v.real), _f(v.imag)]
    if isinstance(v, np.ndarray):
        if v.dtype == object:
            return ["ao", list(v.shape), [canon(x, depth + 1) for x in v.reshape(-1).tolist()]]
        if v.dtype.kind == "c":
            return ["ac", list(v.shape), [_f(x) for x in v.real.reshape(-1).tolist()], [_f(x) for x in v.imag.reshape(-1).tolist()]]
        if v.dtype.kind == "f":
            return ["a", list(v.shape), [_f(x) for x in v.reshape(-1).tolist()]]
        return ["ai", list(v.shape), v.reshape(-1).tolist()]
    if isinstance(v, dict):
        return ["d", [[canon(k, depth + 1), canon(x, depth + 1)] for k, x in v.items()]]
    if isinstance(v, (list, tuple)):
        return ["l", [canon(x, depth + 1) for x in v]]
    if dataclasses.is_dataclass(v) and not isinstance(v, type):
        return ["o", type(v).__name__, [[f.name, canon(getattr(v, f.name), depth + 1)] for f in dataclasses.fields(v)]]
    tn = type(v).__module__ + "." + type(v).__name__
    if tn.startswith("pandas."):
        if hasattr(v, "columns"):
            return ["df", [str(c) for c in v.columns], canon(v.index.to_numpy(), depth + 1),
                    [canon(v[c].to_numpy(), depth + 1) for c in v.columns], [str(t) for t in v.dtypes]]
        if hasattr(v, "to_numpy"):
            return ["s", canon(v.to_numpy(), depth + 1)]
    if callable(v) or tn.startswith(("scipy.", "matplotlib.")):
        return ["x", type(v).__name__]
    if tn.startswith("pycircstat2."):
        if hasattr(v, "__dict__"):
            return ["obj", type(v).__name__,
                    [[k, canon(x, depth + 1)] for k, x in sorted(vars(v).items())
                     if not k.startswith("_")]]
    return ["x", type(v).__name__]


def _f(x):
    x = float(x)
    if math.isnan(x):
        return "nan"
    if math.isinf(x):
        return "inf" if x > 0 else "-inf"
    return x


def same(a, b, rtol=0.0, atol=0.0, path=""):
    """None when equal, otherwise a short description of the first difference."""
    ta, tb = isinstance(a, (float, int)) and not isinstance(a, bool), isinstance(b, (float, int)) and not isinstance(b, bool)
    if ta and tb:
        if a == b:
            return None
        if abs(a - b) <= atol + rtol * max(abs(a), abs(b)):
            return None
        return f"{path}: {a!r} != {b!r}"
    if isinstance(a, list) and isinstance(b, list):
        if len(a) != len(b):
            return f"{path}: length {len(a)} != {len(b)}"
        for i, (x, y) in enumerate(zip(a, b)):
            r = same(x, y, rtol, atol, f"{path}/{i}")
            if r:
                return r
        return None
    if type(a) is type(b) and a == b:
        return None
    return f"{path}: {short(a)} != {short(b)}"


def short(x, n=120):
    s = repr(x)
    return s if len(s) <= n else s[:n] + "..."
