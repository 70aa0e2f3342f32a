"""Everything observable about an object, as plain data (by introspection)."""

import dataclasses
import enum

SKIP = {"replace", "make_random", "register", "cost_evaluator", "solve",
        "to_csv", "from_csv", "collect", "from_data", "from_file",
        "midpoint_penalties", "plot", "clear", "set", "reset"}  # fmt: skip


def observe(obj, depth=0):
    import numpy as np

    if obj is None or isinstance(obj, (bool, int, float, str, bytes)):
        return obj
    if isinstance(obj, enum.Enum):
        return f"{type(obj).__name__}.{obj.name}"
    if isinstance(obj, np.generic):
        return obj.item()
    if isinstance(obj, np.ndarray):
        return (obj.shape, obj.dtype.str, obj.tolist())
    if isinstance(obj, dict):
        return {str(observe(k)): observe(v, depth + 1) for k, v in obj.items()}
    if isinstance(obj, (list, tuple)):
        return [observe(x, depth + 1) for x in obj]
    if isinstance(obj, (set, frozenset)):
        return sorted(repr(observe(x, depth + 1)) for x in obj)
    if isinstance(obj, type):
        return obj.__name__
    if not type(obj).__module__.startswith(("pyvrp", "dst")):
        return f"<{type(obj).__name__}>"
    if type(obj).__module__ == "pyvrp._pyvrp" and "ActivityType" in repr(
        type(obj)
    ):
        return str(obj)
    out = {"": type(obj).__name__}
    if depth > 6:
        return out
    if dataclasses.is_dataclass(obj):
        for f in dataclasses.fields(obj):
            out[f.name] = observe(getattr(obj, f.name), depth + 1)
        return out
    for name in dir(type(obj)):
        if name.startswith("_") or name in SKIP:
            continue
        val = getattr(obj, name)
        if callable(val):
            try:
                val = val()
            except TypeError:
                continue
            except ValueError as e:
                val = repr(e)
        out[name + "()" * callable(getattr(type(obj), name))] = observe(
            val, depth + 1
        )
    for name, val in getattr(obj, "__dict__", {}).items():
        if name != "_clock":
            out[name] = observe(val, depth + 1)
    for extra in ("__len__", "__hash__", "__str__"):
        f = getattr(type(obj), extra, None)
        if f is None or f is getattr(object, extra, None):
            continue
        out[extra] = f(obj)
    return out
