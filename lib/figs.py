"""Comparing and reading plotly figures."""
import numpy as np

COLOR_KEYS = {"color", "fillcolor", "line_color"}


def plain(v):
    if isinstance(v, dict):
        if set(v) == {"dtype", "bdata"} or set(v) == {"dtype", "bdata", "shape"}:
            import base64
            return np.frombuffer(base64.b64decode(v["bdata"]), dtype=v["dtype"]).tolist()
        return {k: plain(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [plain(x) for x in v]
    if isinstance(v, np.ndarray):
        return [plain(x) for x in v.tolist()]
    if isinstance(v, np.generic):
        return v.item()
    return v


def same_numbers(a, b, tol=1e-9):
    if isinstance(a, (list, tuple)):
        return isinstance(b, (list, tuple)) and len(a) == len(b) and all(same_numbers(x, y, tol) for x, y in zip(a, b))
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        return abs(a - b) <= tol * max(1.0, abs(a), abs(b))
    return a == b


def dict_diff(a, b, path="", colors=True, tol=1e-7):
    """first difference of two plain structures, or None"""
    if isinstance(a, dict) and isinstance(b, dict):
        for k in sorted(set(a) | set(b)):
            if not colors and k in COLOR_KEYS:
                continue
            if k not in a or k not in b:
                return f"{path}.{k}: only in one of them ({a.get(k)!r} / {b.get(k)!r})"
            d = dict_diff(a[k], b[k], f"{path}.{k}", colors, tol)
            if d:
                return d
        return None
    if isinstance(a, list) and isinstance(b, list):
        if len(a) != len(b):
            return f"{path}: {len(a)} and {len(b)} items"
        for i, (x, y) in enumerate(zip(a, b)):
            d = dict_diff(x, y, f"{path}[{i}]", colors, tol)
            if d:
                return d
        return None
    if not same_numbers(a, b, tol):
        return f"{path}: {a!r} and {b!r}"
    return None


def as_dict(fig):
    d = plain(fig.to_dict())
    d.get("layout", {}).pop("template", None)
    return d


def diff(f, g, colors=True, unordered=True):
    a, b = as_dict(f), as_dict(g)
    d = dict_diff(a, b, "", colors)
    if d and unordered:
        # the order in which loads were set is also the order in which they are drawn
        for x in (a, b):
            for k in ("annotations", "shapes"):
                x.get("layout", {}).get(k, []).sort(key=lambda v: sort_key(v, colors))
        d = dict_diff(a, b, "", colors)
    return d


def sort_key(v, colors):
    if isinstance(v, dict):
        return str([(k, sort_key(x, colors)) for k, x in sorted(v.items()) if colors or k not in COLOR_KEYS])
    if isinstance(v, float):
        return "%.6f" % (v + 0.0)
    if isinstance(v, int) and not isinstance(v, bool):
        return "%.6f" % v
    return str(v)
