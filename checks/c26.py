"""C26: extreme but accepted models are analysed without failing and give finite results."""
from core import Sub, Violation, Reject
from gen import *
import math

PROPERTY = "C26"
RULE = (
    "A case is a model whose values are drawn over their whole accepted range (sizes from millimetres to kilometres, loads "
    "from milli- to meganewtons, cohesion up to gigapascals, friction 0 to below 90, slices 1 to 500, any tolerance, tiny or huge search "
    "grids), with limits, minimum distances and individual planes, analysed normally, repeatedly or dynamically.  The "
    "analysis has to end without an error, with factors of safety that are finite and not negative, and the getters have to "
    "agree with them.  Non-trivial: at least one value is extreme (outside the ranges the other checks draw from)."
)


def logs(lo, hi):
    """numbers spread over all orders of magnitude"""
    a, b = math.log10(lo), math.log10(hi)
    f = st.integers(0, 1000).map(lambda k: float(f"{10 ** (a + (b - a) * k / 1000):.3g}"))
    return st.one_of(f, st.floats(a, b).map(lambda e: min(hi, max(lo, 10**e))), st.sampled_from([lo, hi]))


def zero(s):
    return st.one_of(s, s, s, s, st.just(0))


@st.composite
def extreme(draw):
    wide = lambda a, b: draw(st.booleans()) and (a, b) or None
    h = draw(st.one_of(logs(1e-3, 1e4), num(0.5, 40)))
    spec = {"h": h}
    # lengths that make sense beside the height, or not
    near = st.one_of(logs(1e-3, 1e2).map(lambda k: k * h), logs(1e-3, 1e4))
    if draw(st.booleans()):
        spec["angle"] = draw(st.one_of(num(0.1, 90, 1), st.sampled_from([90, 89.999, 0.1, 1, 45, 89.9999999]), num(20, 70)))
    else:
        spec["length"] = draw(st.one_of(near, near, st.just(0), logs(1e-9, 1)))
    mats = []
    depths = draw(st.lists(zero(near), min_size=draw(st.integers(0, 9)) and 1, max_size=6, unique=True))
    for d in depths:
        mats.append({
            "uw": draw(st.one_of(num(1, 50), st.sampled_from([1, 50]))),
            "phi": draw(st.one_of(num(0, 89.9), st.sampled_from([0, 0, 89.9, 89.999, 45, 1e-6, 30]), num(15, 40))),
            "c": draw(zero(st.one_of(logs(1e-6, 1e6), num(0, 30)))),
            "d": d,
        })
    spec["mats"] = mats
    spec["udls"] = draw(st.lists(st.fixed_dictionaries({"q": zero(logs(1e-3, 1e6)), "o": zero(near), "l": st.one_of(st.none(), zero(near)), "dyn": st.booleans()}), max_size=3)) if draw(st.booleans()) else []
    spec["lls"] = draw(st.lists(st.fixed_dictionaries({"p": zero(logs(1e-3, 1e6)), "o": zero(near), "dyn": st.booleans()}), max_size=3)) if draw(st.booleans()) else []
    spec["water"] = draw(st.one_of(st.none(), zero(near)))
    spec["H"] = draw(st.one_of(st.none(), num(0, 1), st.sampled_from([0, 1, 5, -1])))
    if draw(st.integers(0, 3)) == 0:
        spec["min_l"] = draw(near)
    if draw(st.integers(0, 3)) == 0:
        spec["min_h"] = draw(near)
    o = {"slices": draw(st.one_of(st.integers(10, 12), st.sampled_from([1, 10, 25, 33]))), "iterations": draw(st.sampled_from([500, 500, 500, 1, 730]))}
    k = draw(st.integers(0, 5))
    if k == 0:
        o["tolerance"] = draw(st.sampled_from([0, 1e-12, 1e-6, 0.5, 10, 1e6]))
    if k == 1:
        o["max_iterations"] = draw(st.sampled_from([1, 2, 100, 1000]))
    if k == 2:
        o["min_failure_dist"] = draw(near)
    spec["opts"] = o
    if draw(st.integers(0, 2)) == 0:
        spec["limits"] = draw(limits_for(Ref(spec)))
    return spec


def ordinary(spec):
    """inside the ranges of the other checks"""
    inside = lambda v, a, b: v is None or a <= abs(v) <= b
    return (
        inside(spec["h"], 0.5, 40) and inside(spec.get("angle"), 6, 90) and inside(spec.get("length"), 0.2, 160)
        and all(inside(m["c"], 0, 30) and inside(m["phi"], 0, 50) and m["d"] <= 3 * spec["h"] for m in spec["mats"])
        and all(inside(u["q"], 0, 100) and inside(u["o"], 0, 60) and inside(u["l"], 0.1, 8) for u in spec["udls"])
        and all(inside(p["p"], 0, 200) and inside(p["o"], 0, 60) for p in spec["lls"])
        and not {"tolerance", "max_iterations"} & set(spec["opts"])
    )


def check(s, what):
    ps = planes(s)
    for p in ps:
        f = p["FOS"]
        if not isinstance(f, (int, float)) or not math.isfinite(f) or f < 0:
            raise Violation(f"{what}: the factor of safety of circle ({p['c_x']}, {p['c_y']}, {p['radius']}) is {f}")
        for v in (p["c_x"], p["c_y"], p["radius"], *p["l_c"], *p["r_c"]):
            if not math.isfinite(v):
                raise Violation(f"{what}: a plane with the coordinate {v}")
    if ps and (s.get_min_FOS() != min(p["FOS"] for p in ps)):
        raise Violation(f"{what}: {s.get_min_FOS()} is reported, the least is {min(p['FOS'] for p in ps)}")
    return ps


def run(case, rec):
    spec = case["slope"]
    s = build(spec)
    ref = Ref(spec)
    ps = None
    if case["circles"]:
        for c in circles_of(ref, case["circles"]):
            s.add_single_circular_plane(*c)
    if case["fos"] is None:
        s.analyse_slope()
    else:
        s.analyse_slope(max_fos=case["fos"])
    ps = check(s, "normal analysis")
    if not spec["mats"] and ps:
        raise Violation("planes are reported without any layer")
    rec.cls("planes" if ps else "no plane")
    rec.cls("planes judged", len(ps))
    rec.nontrivial(ps and not ordinary(spec))


def run_dynamic(case, rec):
    spec = case["slope"]
    if not any(x.get("dyn") and x.get("q", x.get("p")) for x in spec["udls"] + spec["lls"]):
        spec["lls"] = spec["lls"] + [{"p": 10.0, "o": 0, "dyn": True}]
    s = build(spec)
    s.analyse_slope()
    if not planes(s):
        raise Reject("nothing can slide")
    f = s.get_min_FOS()
    critical = max(1e-3, f * case["t"])
    try:
        s.analyse_dynamic(critical_fos=critical)
    except IndexError:
        if not planes(s):
            raise Reject("nothing can slide at some offset")
        raise
    res = s.get_dynamic_results()
    if not res:
        raise Violation("a dynamic analysis reports nothing")
    for off, v in res.items():
        if not math.isfinite(off) or off < 0 or not math.isfinite(v) or v < 0:
            raise Violation(f"the dynamic analysis reports {v} at offset {off}")
    check(s, "dynamic analysis")
    rec.cls(f"positions {min(len(res), 4)}")
    rec.nontrivial(not ordinary(spec))


cases = st.fixed_dictionaries({
    "slope": extreme(), "circles": st.one_of(st.just([]), st.lists(circle_params(), min_size=1, max_size=25), st.lists(circle_params(), min_size=5, max_size=25)),
    "fos": st.one_of(st.none(), st.none(), num(0.01, 5)),
})
dynamic = st.fixed_dictionaries({"slope": extreme(), "t": st.one_of(num(0.5, 1.5), num(0.9, 1.1, 3))})
SUBS = [Sub("normal", cases, run, 1200, 40000), Sub("dynamic", dynamic, run_dynamic, 150, 5000)]
