"""C07: a slope with a history against a freshly built slope with the same state."""
from core import Sub, Violation, Reject
from hist import *
import figs

PROPERTY = "C07"
RULE = (
    "A case is a start boundary and a history of 3-16 public calls (setters, updaters, removers by object, by copy and "
    "by depth, rejected calls, analyses, drawings).  The slope with that history is compared with a slope freshly built "
    "from the tracked state: outline, boundary drawing (colours aside) and all planes and factors of safety.  "
    "Non-trivial: at least two kinds of model change, one of which removes, replaces or resizes something already set, "
    "and at least one plane compared."
)


def compare(rec, s, t, what, figures):
    a = (s.get_top_coordinates(), s.get_bottom_coordinates())
    b = (t.get_top_coordinates(), t.get_bottom_coordinates())
    if not figs.same_numbers(a, b):
        raise Violation(f"{what}: crest and toe {a}, freshly built {b}")
    if figures:
        d = figs.diff(s.plot_boundary(legend=False), t.plot_boundary(legend=False), colors=False)
        if d:
            raise Violation(f"{what}: boundary drawing differs from a freshly built slope: {d}")
        rec.cls("drawings compared")
    s.analyse_slope()
    t.analyse_slope()
    ra, rb = sorted(results(s)), sorted(results(t))
    if len(ra) != len(rb) or not all(figs.same_numbers(p, q, 1e-7) for p, q in zip(ra, rb)):
        if len(ra) == len(rb):
            bad = [(p, q) for p, q in zip(ra, rb) if not figs.same_numbers(p, q, 1e-7)][:2]
        else:
            bad = (len(ra), len(rb))
        raise Violation(f"{what}: planes and factors of safety differ from a freshly built slope: {bad}")
    return len(ra)


def run(case, rec):
    h = Hist(case["slope"])
    kinds, touched, undo = set(), set(), False
    for i, op in enumerate(case["ops"]):
        res = h.apply(op)
        if res == "rejected":
            rec.cls("rejected call")
            continue
        if op[0] in MUTATORS and res != "nothing":
            kinds.add(op[0])
            if op[0].startswith("rm_") or op[0] in touched or op[0] in ("boundary", "min"):
                undo = True
            touched.add(op[0])
    if not h.judgeable_planes():
        raise Reject("an individual plane no longer cuts the ground")
    r = h.ref()
    if min([abs(x - 0) for x, _ in r.lls] + [1]) < 1e-9 and r.lls:
        rec.cls("load at the model edge")
    t = h.fresh(case["flip"])
    n = compare(rec, h.s, t, f"after {case['ops']}", case["figures"])
    for k in kinds:
        rec.cls("with " + k)
    rec.nontrivial(len(kinds) >= 2 and undo and n)


@st.composite
def case(draw, planes_ok):
    spec = draw(boundary(vertical=False))
    spec["h"] = min(spec["h"], 12)
    h = spec["h"]
    ops = setup_ops(draw, h)
    stretch = stretch_ops(draw, h) if draw(st.integers(0, 5)) == 0 else []
    ops += draw(st.lists(op_strategy(h, planes_ok), min_size=1 if stretch else 3, max_size=6 if stretch else 16)) + stretch
    if planes_ok:
        # individual planes at the end, in the coordinates of the final model
        ops += [["circle", "entry", draw(unit), draw(unit), draw(unit)] for _ in range(3)]
    return {"slope": spec, "ops": ops, "flip": draw(st.booleans()), "figures": draw(st.integers(0, 3)) == 0}


SUBS = [Sub("individual", case(True), run, 1200, 40000), Sub("search", case(False), run, 220, 9000)]
