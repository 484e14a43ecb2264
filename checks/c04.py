"""C04: the automatic search against a reference enumeration of the entry-exit grid."""
import numpy as np
from core import Sub, Violation
from gen import *

PROPERTY = "C04"
RULE = (
    "A case is a slope with loads, limits, minimum distance and an iteration count.  The planes found by the code are "
    "matched with the reference enumeration of the grid: every reference circle with a robust factor of safety must be "
    "there, every plane must be a grid circle, and the critical factor of safety must be the reference minimum.  "
    "Non-trivial: at least 100 grid circles were matched."
)


def match(ref_c, got_c):
    """for every got circle the index of the reference circle it equals, or -1"""
    out = [-1] * len(got_c)
    if not len(ref_c) or not len(got_c):
        return out
    R = np.array(ref_c)
    order = np.argsort(R[:, 0], kind="stable")
    X = R[order, 0]
    for i, g in enumerate(got_c):
        tol = 1e-7 * max(10.0, g[2])
        a, b = np.searchsorted(X, g[0] - tol), np.searchsorted(X, g[0] + tol, side="right")
        idx = order[a:b]
        if len(idx):
            d = np.abs(R[idx] - np.array(g)).max(axis=1)
            k = int(np.argmin(d))
            if d[k] <= tol:
                out[i] = int(idx[k])
    return out


def run(case, rec):
    ref = Ref(case)
    s = build(case)
    s.analyse_slope()
    got = planes(s)
    want = ref.search()
    got_c = [(p["c_x"], p["c_y"], p["radius"]) for p in got]
    idx = match([w[:3] for w in want], got_c)
    for p, i in zip(got, idx):
        if i < 0:
            raise Violation(f"plane {p} is not on the entry-exit grid (grid of {len(want)} circles)")
    found = set(idx)
    # identical circles can be on the grid more than once
    same = set(want[i][:3] for i in found)
    lowest = None
    fos = {}
    for i, w in enumerate(want):
        if not w[5]:
            rec.cls("grid circle at a threshold")
            continue
        if i in found:
            continue
        if w[:3] in same:
            continue
        f = ref.fos(*w[:3])
        if f is None:
            rec.cls("grid circle without a factor of safety")
            continue
        if ref.robust_fos(*w[:3])[0] != "ok":
            rec.cls("grid circle sensitive to 2e-7 m")
            continue
        # equal circle within tolerance already matched to another index?
        if match([w[:3]], got_c) != [-1] * len(got_c):
            continue
        raise Violation(f"grid circle {w} (factor of safety {f}) is missing from the {len(got)} results")
    rec.cls("grid circles matched", len(found))
    if got:
        best = min(f for f in (p["FOS"] for p in got))
        if s.get_min_FOS() != best:
            raise Violation(f"critical factor of safety {s.get_min_FOS()}, minimum of the planes {best}")
        # the reference minimum over a sample cannot be lower
        for i in sorted(found)[:: max(1, len(found) // 40)]:
            state, f = ref.robust_fos(*want[i][:3])
            if state == "ok" and f is not None and f < best - 1e-6 * max(1, best):
                raise Violation(f"grid circle {want[i]} has a factor of safety of {f}, below the reported minimum {best}")
    if case.get("limits"):
        rec.cls("limits")
    if case["udls"] or case["lls"]:
        rec.cls("loads")
    rec.cls("iterations %d-" % (ref.iterations // 500 * 500))
    rec.nontrivial(len(found) >= 100)


@st.composite
def big(draw):
    spec = draw(search_slope(n_udl=2, n_ll=2))
    spec["opts"]["iterations"] = draw(st.integers(3000, 20000))
    spec["opts"]["slices"] = 10
    return spec


@st.composite
def many_loads(draw):
    """more loads than entry points"""
    spec = draw(search_slope(n_udl=0, n_ll=0))
    spec["lls"] = draw(st.lists(ll(spec["h"]), min_size=4, max_size=14))
    spec["udls"] = draw(st.lists(udl(spec["h"]), min_size=0, max_size=6))
    spec.pop("limits", None)
    return spec


SUBS = [
    Sub("grid", search_slope(), run, 400, 8000),
    Sub("many_loads", many_loads(), run, 80, 1500),
    Sub("fine_grid", big(), run, 16, 300),
]
