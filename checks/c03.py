"""C03: ranking, critical getters, filter, repeated analysis, re-analysis of the critical circle."""
from math import isfinite
from core import Sub, Violation
from gen import *

PROPERTY = "C03"
RULE = (
    "A case is a slope, searched automatically or with individual circles, and a choice of maximum factors of safety "
    "(equal to results, between, below, above).  Checked: order, minimum, getters, filtered analyses, repetition, "
    "analysing result circles alone.  Non-trivial: at least 10 planes, at least two different factors of safety and a "
    "filter that splits them (search), or at least two planes with different factors of safety (individual)."
)


def key(p):
    return (p["FOS"], p["c_x"], p["c_y"], p["radius"], tuple(p["l_c"]), tuple(p["r_c"]))


def check_ranked(s, ps, what):
    for a, b in zip(ps, ps[1:]):
        if a["FOS"] > b["FOS"]:
            raise Violation(f"{what}: results are not ordered: {a['FOS']} before {b['FOS']}")
    for p in ps:
        if isinstance(p["FOS"], bool) or not isinstance(p["FOS"], float) or not isfinite(p["FOS"]) or p["FOS"] < 0:
            raise Violation(f"{what}: factor of safety {p['FOS']!r} of {p}")
    if ps:
        least = min(p["FOS"] for p in ps)
        if s.get_min_FOS() != least:
            raise Violation(f"{what}: critical {s.get_min_FOS()}, least of the planes {least}")
        circ, ends = tuple(s.get_min_FOS_circle()), tuple(map(tuple, s.get_min_FOS_end_points()))
        if not any(
            (p["c_x"], p["c_y"], p["radius"]) == circ and (tuple(p["l_c"]), tuple(p["r_c"])) == ends and p["FOS"] == least
            for p in ps
        ):
            raise Violation(f"{what}: no plane with FOS {least} has circle {circ} and end points {ends}")


def run(case, rec):
    spec = case["slope"]
    ref = Ref(spec)
    circles = circles_of(ref, case["circles"])

    def make():
        s = build(spec)
        for c in circles:
            s.add_single_circular_plane(*c)
        return s

    s = make()
    s.analyse_slope()
    full = [dict(p) for p in planes(s)]
    check_ranked(s, full, "analysis")
    keys = sorted(map(key, full))
    # the same model again, and a fresh copy
    s.analyse_slope()
    if sorted(map(key, planes(s))) != keys:
        raise Violation("a repeated analysis gave other planes")
    check_ranked(s, planes(s), "repeated analysis")
    split = False
    values = sorted({p["FOS"] for p in full})
    for mode, u in case["filters"]:
        if not values:
            limit = u * 5 + 0.01
        elif mode == "exact":
            limit = values[min(len(values) - 1, int(u * len(values)))]
        elif mode == "between":
            limit = values[0] + (values[-1] - values[0]) * u
        elif mode == "below":
            limit = values[0] * u
        else:
            limit = values[-1] * (1 + u) + 0.1
        if not limit > 0:
            continue
        t = make() if mode in ("exact", "below") else s
        t.analyse_slope(max_fos=limit)
        got = sorted(map(key, planes(t)))
        want = [k for k in keys if k[0] <= limit]
        if got != want:
            raise Violation(f"maximum {limit!r}: {len(got)} planes, expected {len(want)} of {len(keys)}; "
                            f"differences {sorted(set(got) ^ set(want))[:3]}")
        check_ranked(t, planes(t), f"analysis up to {limit}")
        rec.cls("filter " + mode)
        split = split or 0 < len(want) < len(keys)
    # analyse some of the planes on their own
    for u in case["alone"]:
        if not full:
            break
        p = full[0] if u < 0.3 else full[min(len(full) - 1, int(u * len(full)))]
        t = build(spec)
        t.add_single_circular_plane(p["c_x"], p["c_y"], p["radius"])
        t.analyse_slope()
        # a circle at a rounding threshold may lose its plane when reconstructed
        if len(planes(t)) != 1 or abs(t.get_min_FOS() - p["FOS"]) > 1e-9 * max(1, p["FOS"]):
            raise Violation(f"plane {p} analysed alone gives {planes(t)[:2]}")
        rec.cls("analysed alone")
    if not full:
        rec.cls("no planes")
    rec.nontrivial(len(values) > 1 and (circles or (len(full) >= 10 and split)))


@st.composite
def case(draw, individual):
    spec = draw(search_slope(limits=not individual))
    if individual:
        spec["opts"]["slices"] = draw(st.integers(10, 40))
    else:
        spec["opts"]["iterations"] = draw(st.one_of(*[st.integers(500, 700)] * 9, st.integers(1500, 4000)))
    return {
        "slope": spec,
        "circles": draw(st.lists(circle_params(), min_size=3, max_size=12)) if individual else [],
        "filters": draw(st.lists(st.tuples(st.sampled_from(["exact", "between", "below", "above", "exact"]), unit).map(list), min_size=2, max_size=4)),
        "alone": draw(st.lists(unit, min_size=1, max_size=3)),
    }


SUBS = [Sub("search", case(False), run, 130, 3000), Sub("individual", case(True), run, 500, 10000)]
