"""Metadata objects seen from outside: every field by its dotted name, compared as plain values."""
import enum
import importlib
import json
from pathlib import Path

CATALOG = json.loads((Path(__file__).parent / "catalog.json").read_text()) if (Path(__file__).parent / "catalog.json").exists() else {}


def decode(v):
    import numpy as np

    if isinstance(v, dict):
        if "nd" in v:
            return np.array(v["nd"], dtype=float)
        if "cnd" in v:
            return np.array([complex(*x) for x in v["cnd"]])
        if "dict" in v:
            return dict(v["dict"])
    if isinstance(v, list):
        return list(v)
    return v


def canon(v):
    """plain hashable value of anything a field can hold; types that print alike but differ stay apart"""
    import numpy as np

    if v is None or isinstance(v, (bool, np.bool_)):
        return v if v is None else ("b", bool(v))
    if isinstance(v, enum.Enum):
        return canon(v.value)
    if isinstance(v, (int, np.integer)):
        return ("n", float(v))
    if isinstance(v, (float, np.floating)):
        return ("n", float(v)) if v == v else ("n", "nan")
    if isinstance(v, (complex, np.complexfloating)):
        return ("c", v.real, v.imag)
    if isinstance(v, str):
        return str(v)
    if isinstance(v, np.ndarray):
        return ("a", v.shape, tuple(canon(x) for x in v.ravel()))
    if isinstance(v, dict):
        return ("d", tuple(sorted((str(k), canon(x)) for k, x in v.items())))
    if isinstance(v, (list, tuple)):
        return ("l", tuple(canon(x) for x in v))
    if hasattr(v, "unicode_string"):
        return v.unicode_string()
    if hasattr(v, "time_stamp") and hasattr(v, "isoformat"):
        return str(v)
    if hasattr(v, "get_attribute_list"):
        return ("o", type(v).__name__, tuple(sorted(snapshot(v).items(), key=lambda x: x[0])))
    if hasattr(v, "values") and hasattr(v, "keys"):  # ListDict
        return ("m", tuple((str(k), canon(v[k])) for k in v.keys()))
    if hasattr(v, "items") and callable(v.items):
        return ("d", tuple(sorted((str(k), canon(x)) for k, x in v.items())))
    return str(v)


def read(o, name):
    for p in name.split("."):
        o = getattr(o, p)
    return o


def snapshot(o):
    return {n: canon(o.get_attr_from_name(n)) for n in o.get_attribute_list()}


def cls(path):
    m, n = path.split(":")
    return getattr(importlib.import_module(m), n)


def prepare(paths=None):
    """import everything before the worker processes are forked, and look datums up only once"""
    import functools

    import pyproj

    real = pyproj.CRS.from_user_input
    if not getattr(real, "cached", False):
        memo = functools.lru_cache(maxsize=None)(lambda v: real(v))

        def from_user_input(value, **kw):
            return real(value, **kw) if kw or not isinstance(value, (str, int)) else memo(value)

        from_user_input.cached = True
        pyproj.CRS.from_user_input = staticmethod(from_user_input)
    for p in CATALOG if paths is None else paths:
        cls(p)
