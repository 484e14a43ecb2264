"""C02: end points of slip planes, planes through requested entry and exit points."""
from math import hypot
from core import Sub, Violation
from gen import *

PROPERTY = "C02"
RULE = (
    "circles: a slope and up to 14 circles; each plane in the results must have the end points the reference finds "
    "(first two crossings, 1 cm merging), on the ground and on the circle, and circles without two crossings must be "
    "absent.  entry_exit: a slope and entry/exit abscissas with a number of radii; the planes must be the expected "
    "ones and pass through both points.  Non-trivial: a plane with two checked end points (circles), or at least "
    "three radii that gave a plane (entry_exit).  Circles within 5e-7 m of a different crossing pattern are excluded."
)


@st.composite
def case(draw):
    spec = draw(slope(mats=(1, 2), n_udl=0, n_ll=0, water=False))
    return {"slope": spec, "circles": draw(st.lists(circle_params(), min_size=5, max_size=14))}


def same_pt(p, q, scale):
    return abs(p[0] - q[0]) <= 1e-6 * scale and abs(p[1] - q[1]) <= 1e-6 * scale


def check_plane(ref, p, pts):
    scale = max(1.0, ref.ext_l, ref.ext_h, p["radius"] * 1e-2)
    a, b = p["l_c"], p["r_c"]
    if not a[0] < b[0]:
        raise Violation(f"end points out of order: {a}, {b} of {p}")
    for q in (a, b):
        g = ref.ground(min(max(q[0], 0), ref.ext_l))
        # on a steep face the ground height reacts strongly to x
        if abs(q[1] - g) > 1e-6 * scale * max(1.0, ref.grad) or q[0] < -1e-6 or q[0] > ref.ext_l + 1e-6:
            raise Violation(f"end point {q} is not on the ground (height there {g}), plane {p}")
        if abs(hypot(q[0] - p["c_x"], q[1] - p["c_y"]) - p["radius"]) > 1e-6 * scale:
            raise Violation(f"end point {q} is not on the circle of plane {p}")
    if pts is not None and not (same_pt(a, pts[0], scale) and same_pt(b, pts[1], scale)):
        raise Violation(f"end points {a}, {b} are not the first two crossings {pts[:2]} (all: {pts})")


def run(case, rec):
    ref = Ref(case["slope"])
    circles = circles_of(ref, case["circles"])
    if not circles:
        return
    info = {c: ref.crossings(*c) for c in circles}
    s = build(case["slope"])
    for c in circles:
        s.add_single_circular_plane(*c)
    s.analyse_slope()
    got = {(p["c_x"], p["c_y"], p["radius"]): p for p in planes(s)}
    if all(len(p) < 2 or m < 5e-7 for p, m in info.values()):
        rec.exclude("no circle cuts the slope")
        return
    checked = 0
    for c, p in got.items():
        if c not in info:
            raise Violation(f"plane {p} was not asked for")
        pts, margin = info[c]
        if margin < 5e-7:
            rec.exclude("circle touches a ground corner")
            continue
        if len(pts) < 2:
            raise Violation(f"circle {c} does not cut the ground twice but is a plane: {p}")
        check_plane(ref, p, pts)
        rec.cls(f"plane with {len(pts)} crossings")
        checked += 1
    for c, (pts, margin) in info.items():
        if c not in got and margin >= 5e-7 and len(pts) >= 2:
            state, f = ref.robust_fos(*c)
            if state == "ok" and f is not None:
                raise Violation(f"circle {c} cuts the ground at {pts} but is missing from the results")
        if len(pts) < 2:
            rec.cls("circle without two crossings")
    best = planes(s)
    if best:
        e = s.get_min_FOS_end_points()
        if tuple(e[0]) != tuple(best[0]["l_c"]) or tuple(e[1]) != tuple(best[0]["r_c"]):
            raise Violation(f"critical end points {e} are not those of the critical plane {best[0]}")
    rec.nontrivial(checked)


@st.composite
def ee_case(draw):
    spec = draw(slope(mats=(1, 2), n_udl=0, n_ll=0, water=False))
    return {
        "slope": spec,
        "pairs": draw(st.lists(st.tuples(unit, unit, st.booleans(), st.integers(1, 12)).map(list), min_size=1, max_size=4)),
    }


def run_ee(case, rec):
    ref = Ref(case["slope"])
    s = build(case["slope"])
    want = []
    for u, v, onface, n in case["pairs"]:
        x1 = ref.top[0] * u
        x2 = ref.top[0] + (ref.L * v if onface else (ref.ext_l - ref.top[0]) * v)
        if x2 - x1 < 0.05:
            continue
        s.add_single_entry_exit_plane(x1, x2, **({} if n == 5 else {"num_circles": n}))
        l, r = (x1, ref.ground(x1)), (x2, ref.ground(x2))
        want.append((l, r, [(c, *ref.crossings(*c)) for c in ref.entry_exit_circles(l, r, n)]))
    if not any(len(p) >= 2 and m > 5e-7 for _, _, cs in want for _, p, m in cs):
        rec.exclude("no circle cuts the slope")
        return
    s.analyse_slope()
    got = planes(s)
    scale = max(1.0, ref.ext_l, ref.ext_h)
    used = set()
    most = 0
    for l, r, cs in want:
        radii = set()
        for c, pts, margin in cs:
            tol = 1e-6 * max(scale, c[2])
            match = [
                i for i, p in enumerate(got)
                if abs(p["c_x"] - c[0]) <= tol and abs(p["c_y"] - c[1]) <= tol and abs(p["radius"] - c[2]) <= tol
            ]
            if match:
                used.update(match)
                p = got[match[0]]
                for q in (l, r):
                    if abs(hypot(q[0] - p["c_x"], q[1] - p["c_y"]) - p["radius"]) > 1e-6 * scale:
                        raise Violation(f"plane {p} does not pass through the requested point {q}")
                if margin > 5e-7:
                    check_plane(ref, p, pts)
                    radii.add(round(p["radius"], 6))
            elif margin > 5e-7 and len(pts) >= 2:
                state, f = ref.robust_fos(*c)
                if state == "ok" and f is not None:
                    raise Violation(f"no plane with circle {c} between requested points {l} and {r}; got {got}")
        most = max(most, len(radii))
    for i, p in enumerate(got):
        if i not in used:
            raise Violation(f"plane {p} does not belong to any requested entry and exit points {case['pairs']}")
        if not any(
            all(abs(hypot(q[0] - p["c_x"], q[1] - p["c_y"]) - p["radius"]) <= 1e-6 * scale for q in (l, r))
            for l, r, _ in want
        ):
            raise Violation(f"plane {p} does not pass through any requested pair of points")
    rec.cls(f"{min(most, 6)}{'+' if most >= 6 else ''} radii")
    rec.nontrivial(most >= 3)


SUBS = [Sub("circles", case(), run, 4000, 100000), Sub("entry_exit", ee_case(), run_ee, 2500, 60000)]
