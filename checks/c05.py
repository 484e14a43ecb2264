"""C05: every plane of an automatic search respects the limits and the minimum distance."""
from math import hypot
from core import Sub, Violation
from gen import *

PROPERTY = "C05"
RULE = (
    "A case is a slope with loads, full or partial limits (on the crest, the face, the toe line, beyond the model) and "
    "a minimum failure distance.  Checked on every plane of the search: entry and exit inside the ranges (1e-5 m) and "
    "chord above the minimum.  Non-trivial: at least 20 planes, with limits or a minimum distance set."
)


def run(case, rec):
    ref = Ref(case)
    s = build(case)
    s.analyse_slope(**({"max_fos": case["max_fos"]} if case.get("max_fos") else {}))
    x1, x2, x3, x4 = ref.limits
    ps = planes(s)
    for p in ps:
        a, b = p["l_c"], p["r_c"]
        if not (x1 - 1e-5 <= a[0] <= x2 + 1e-5):
            raise Violation(f"plane enters at {a}, outside of the entry range {x1}..{x2}: {p}")
        if not (x3 - 1e-5 <= b[0] <= x4 + 1e-5):
            raise Violation(f"plane leaves at {b}, outside of the exit range {x3}..{x4}: {p}")
        d = hypot(a[0] - b[0], a[1] - b[1])
        if d < ref.min_dist - 1e-6:
            raise Violation(f"plane is {d} m long, minimum failure distance {ref.min_dist}: {p}")
    active = 0
    if case.get("limits") and any(v is not None for v in case["limits"]):
        rec.cls("limits")
        active = 1
        if any(x < ref.top[0] and (x < x1 or x > x2) for x in [x for x, _ in ref.lls] + [u[0] for u in ref.udls]):
            rec.cls("load outside the entry range")
        if ref.top[0] < x4 < ref.bot[0] or ref.top[0] < x3 < ref.bot[0]:
            rec.cls("exit limit on the face")
    if ref.min_dist > 0:
        rec.cls("minimum distance")
        active = 1
    rec.cls("planes", len(ps))
    rec.nontrivial(active and len(ps) >= 20)


@st.composite
def case(draw):
    spec = draw(search_slope(limits=False))
    ref = Ref(spec)
    if draw(st.integers(0, 5)):
        spec["limits"] = draw(limits_for(ref))
    k = draw(st.integers(0, 3))
    if k == 0:
        spec["opts"]["min_failure_dist"] = draw(num(0, 3).map(lambda v: v * spec["h"]))
    elif k == 1:
        spec["opts"]["min_failure_dist"] = draw(st.one_of(num(0, 60), st.integers(0, 5)))
    if draw(st.integers(0, 3)) == 0:
        spec["max_fos"] = draw(num(0.5, 5, 1))
    return spec


SUBS = [Sub("limits", case(), run, 800, 20000)]
