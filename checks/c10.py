"""C10: input validation: exact domains, and rejected calls that change nothing."""
from core import Sub, Violation, Reject
from hist import *
import figs, math

PROPERTY = "C10"
RULE = (
    "domain: a case is one constructor or setter argument and a value (numbers around every bound, one float step off "
    "it, negative, huge and tiny ones, wrong types); ValueError must be raised exactly outside the documented domain. "
    "atomic: a case is a history and a series of invalid calls in which one of several arguments is bad; each must raise "
    "ValueError and leave outline, drawing and repeated analysis as they were.  Non-trivial: a value that is outside the "
    "domain, on a bound or one float step off it (domain); a rejected call on a model with layers or loads (atomic)."
)


def is_num(v):
    return type(v) in (int, float)


def pos0(v):
    return is_num(v) and v >= 0


def pos(v):
    return is_num(v) and v > 0


def up(x):
    return math.nextafter(x, math.inf)


def dn(x):
    return math.nextafter(x, -math.inf)


def base():
    from pyslope.pyslope import Slope, Material

    s = Slope(height=3, angle=35)
    s.set_materials(Material(20, 30, 3, 1), Material(19, 25, 4, 5))
    return s


def api():
    from pyslope.pyslope import Slope, Material, Udl, LineLoad

    tx, ex = base().get_top_coordinates()[0], 0
    tx = round(tx, 6)
    return {
        # name: (call(v), valid(v), bounds)
        "Material.unit_weight": (lambda v: Material(unit_weight=v), lambda v: is_num(v) and 1 <= v <= 50, [1, 50]),
        "Material.friction_angle": (lambda v: Material(friction_angle=v), pos0, [0]),
        "Material.cohesion": (lambda v: Material(cohesion=v), is_num, [0]),
        "Material.depth_to_bottom": (lambda v: Material(depth_to_bottom=v), is_num, [0]),
        "Udl.magnitude": (lambda v: Udl(magnitude=v), is_num, [0]),
        "Udl.offset": (lambda v: Udl(magnitude=1, offset=v), is_num, [0]),
        "Udl.length": (lambda v: Udl(magnitude=1, length=v), lambda v: v is None or is_num(v), [0]),
        "LineLoad.magnitude": (lambda v: LineLoad(magnitude=v), is_num, [0]),
        "LineLoad.offset": (lambda v: LineLoad(magnitude=1, offset=v), is_num, [0]),
        "Slope.height": (lambda v: Slope(height=v, angle=30), pos, [0]),
        "Slope.height (length)": (lambda v: Slope(height=v, angle=None, length=3), pos, [0]),
        "Slope.angle": (lambda v: Slope(height=2, angle=v), lambda v: is_num(v) and 0 < v <= 90, [0, 90]),
        "Slope.angle (unused)": (lambda v: Slope(height=2, angle=v, length=2), lambda v: v is None or is_num(v) and 0 < v <= 90, [0, 90]),
        "Slope.length": (lambda v: Slope(height=2, angle=None, length=v), pos0, [0]),
        "Slope.length (angle)": (lambda v: Slope(height=2, angle=40, length=v), lambda v: v is None or pos0(v), [0]),
        "set_external_boundary.height": (lambda v: base().set_external_boundary(height=v, angle=20), pos, [0]),
        "set_external_boundary.angle": (lambda v: base().set_external_boundary(height=2, angle=v), lambda v: is_num(v) and 0 < v <= 90, [0, 90]),
        "set_external_boundary.length": (lambda v: base().set_external_boundary(height=2, length=v, angle=None), pos0, [0]),
        "set_water_table": (lambda v: base().set_water_table(v), lambda v: v is None or pos0(v), [0]),
        "update_boundary_options.MIN_EXT_L": (lambda v: base().update_boundary_options(MIN_EXT_L=v), lambda v: v is None or pos(v), []),
        "update_boundary_options.MIN_EXT_H": (lambda v: base().update_boundary_options(MIN_EXT_H=v), lambda v: v is None or pos(v), []),
        "update_water_analysis_options.H": (lambda v: base().update_water_analysis_options(auto=False, H=v), is_num, [0, 1]),
        "set_materials": (lambda v: base().set_materials(v), lambda v: False, []),
        "set_materials (second)": (lambda v: base().set_materials(Material(20, 30, 1, 2.2), v), lambda v: False, []),
        "set_materials.depth": (lambda v: base().set_materials(Material(20, 30, 1, v)), lambda v: is_num(v) and abs(v) not in (1, 5), [1, 5, -1, -5]),
        "set_analysis_limits.left_x": (lambda v: base().set_analysis_limits(left_x=v), lambda v: v is None or pos0(v) and v < tx, [0]),
        "set_analysis_limits.right_x": (lambda v: base().set_analysis_limits(right_x=v), lambda v: v is None or pos(v) and v > tx, [0]),
        "set_analysis_limits.left_x_right": (lambda v: base().set_analysis_limits(left_x_right=v), lambda v: v is None or pos(v), [0]),
        "set_analysis_limits.right_x_left": (lambda v: base().set_analysis_limits(right_x_left=v), lambda v: v is None or pos(v) and v < RIGHT, [0]),
    }


RIGHT = None
UNJUDGED = (bool,)


def value(bounds):
    near = []
    for b in bounds:
        f = float(b)
        near += [b, f, up(f), dn(f), b + 1, b - 1, b + 0.5, b - 0.5, -b]
    if 0 in bounds:
        # one denormal step off zero is not a length or an angle anyone can mean
        near = [v for v in near if v == 0 or abs(v) > 1e-300]
    near += [1e-6, -1e-6, -1e-12]
    wrong = ["1", "abc", "", " ", [1], [], (2,), {"a": 1}, {}, None, 1j, b"2", object]
    parts = [
        st.sampled_from(near), st.sampled_from([v for v in wrong if v is not object]),
        st.floats(-200, 200, allow_nan=False, allow_subnormal=False).filter(lambda v: v == 0 or abs(v) > 1e-6),
        st.integers(-100, 100), num(0.1, 60), num(0, 3),
    ]
    if bounds:
        parts.append(st.sampled_from(near))
    return st.one_of(*parts)


def show(v):
    """JSON form of a value"""
    if isinstance(v, complex):
        return {"complex": [v.real, v.imag]}
    if isinstance(v, bytes):
        return {"bytes": v.decode()}
    if isinstance(v, tuple):
        return {"tuple": list(v)}
    return {"v": v}


def unshow(d):
    if "complex" in d:
        return complex(*d["complex"])
    if "bytes" in d:
        return d["bytes"].encode()
    if "tuple" in d:
        return tuple(d["tuple"])
    return d["v"]


NAMES = None


@st.composite
def domain_case(draw):
    name = draw(st.sampled_from(NAMES))
    return {"call": name, "value": show(draw(value(BOUNDS[name])))}


def run_domain(case, rec):
    call, valid, bounds = api()[case["call"]]
    v = unshow(case["value"])
    if not v and not is_num(v) and v is not None and ("length" in case["call"] or "MIN_EXT" in case["call"]):
        raise Reject("empty value counts as not given")
    if v == 0 and "MIN_EXT" in case["call"]:
        raise Reject("empty value counts as not given")
    if "limits" in case["call"] and is_num(v):
        s = base()
        for b in (s.get_top_coordinates()[0], RIGHT):
            if abs(v - b) < 1e-5:
                raise Reject("within rounding of the model edge")
    want = valid(v)
    try:
        call(v)
        got = True
    except ValueError:
        got = False
    except Exception as e:
        raise Violation(f"{case['call']} = {v!r}: {type(e).__name__} ({e}) instead of " + ("acceptance" if want else "ValueError"))
    if got and not want:
        raise Violation(f"{case['call']} = {v!r} is outside the documented domain but was accepted")
    if want and not got:
        raise Violation(f"{case['call']} = {v!r} is inside the documented domain but was rejected")
    rec.cls(("accepted " if got else "rejected ") + case["call"])
    edge = is_num(v) and any(v in (b, float(b), up(float(b)), dn(float(b))) for b in bounds)
    rec.nontrivial(not want or edge)


# -- rejected calls change nothing ----------------------------------------------
def snapshot(s, figure):
    out = [s.get_top_coordinates(), s.get_bottom_coordinates(), repr(s)]
    for x in (0, 1.5, s.get_top_coordinates()[0] * 1.1, s.get_bottom_coordinates()[0] * 1.5, 40, 100):
        out.append(s.get_external_y_intersection(x))
    out.append(figs.as_dict(s.plot_boundary()) if figure else None)
    s.analyse_slope()
    out.append([(*r, *p["l_c"], *p["r_c"]) for r, p in zip(results(s), planes(s))])
    return out


BADNUM = [-1, -0.001, "3", "a", [2], {"x": 1}, -50]
BADANGLE = [0, -1, 90.001, 180, "30", [30]]


def bad_calls():
    """name -> call(slope, k, v): one argument is bad, the others are good and would change the model"""
    from pyslope.pyslope import Material, Udl, LineLoad

    bn = lambda k: BADNUM[k % len(BADNUM)]
    ba = lambda k: BADANGLE[k % len(BADANGLE)]
    notnone = lambda k: ["m", 3, {"d": 1}, [1], None][k % 5]
    other = lambda k, load: [load, load, load, "u", load, 3, None, [load]][k % 8]
    return {
        "boundary height": lambda s, k, v: s.set_external_boundary(height=bn(k), angle=20 + v),
        "boundary height 0": lambda s, k, v: s.set_external_boundary(height=0, length=20 + v),
        "boundary no height": lambda s, k, v: s.set_external_boundary(height=None, length=20 + v),
        "boundary angle": lambda s, k, v: s.set_external_boundary(height=5 + v, angle=ba(k)),
        "boundary angle, good length": lambda s, k, v: s.set_external_boundary(height=5 + v, angle=ba(k), length=9),
        "boundary length": lambda s, k, v: s.set_external_boundary(height=5 + v, length=bn(k)),
        "boundary neither": lambda s, k, v: s.set_external_boundary(height=5 + v, angle=None),
        "water": lambda s, k, v: s.set_water_table(bn(k)),
        "head": lambda s, k, v: s.update_water_analysis_options(auto=False, H=["a", None, [1], {"x": 1}][k % 4]),
        "minimum length, good height": lambda s, k, v: s.update_boundary_options(MIN_EXT_L=bn(k), MIN_EXT_H=70 + v),
        "minimum height, good length": lambda s, k, v: s.update_boundary_options(MIN_EXT_H=bn(k), MIN_EXT_L=170 + v),
        "minimum length": lambda s, k, v: s.update_boundary_options(MIN_EXT_L=bn(k)),
        "minimum height": lambda s, k, v: s.update_boundary_options(MIN_EXT_H=bn(k)),
        "materials, last one bad": lambda s, k, v: s.set_materials(Material(20, 30, 5, 60.03 + v), notnone(k)),
        "materials, first one bad": lambda s, k, v: s.set_materials(notnone(k), Material(20, 30, 5, 60.03 + v)),
        "materials, same depth": lambda s, k, v: s.set_materials(Material(20, 30, 5, 90.03 + v), Material(18, 3, 5, 0.777), Material(20, 30, 5, 90.03 + v)),
        "materials, existing depth": lambda s, k, v: s.set_materials(Material(20, 30, 5, 90.03 + v), Material(18, 3, 5, s._materials[k % len(s._materials)].depth_to_bottom)) if s._materials else s.set_materials(3),
        "limits, bad right": lambda s, k, v: s.set_analysis_limits(left_x=0.1 + v / 10, right_x=bn(k)),
        "limits, bad left": lambda s, k, v: s.set_analysis_limits(left_x=bn(k), right_x=1e6),
        "limits, bad inner left": lambda s, k, v: s.set_analysis_limits(left_x=0.01 + v / 10, left_x_right=bn(k)),
        "limits, bad inner right": lambda s, k, v: s.set_analysis_limits(left_x=0.01 + v / 10, right_x_left=bn(k)),
        "limits, zero": lambda s, k, v: s.set_analysis_limits(**{"left_x": 0.01 + v / 10, ["right_x", "left_x_right", "right_x_left"][k % 3]: 0}),
        "limits, crossed left": lambda s, k, v: s.set_analysis_limits(left_x=2.0 + v, left_x_right=1.0),
        "limits, equal left": lambda s, k, v: s.set_analysis_limits(left_x=1.25, left_x_right=1.25),
        "limits, crossed right": lambda s, k, v: s.set_analysis_limits(left_x=0.01, right_x_left=s.get_bottom_coordinates()[0] + 1, right_x=s.get_bottom_coordinates()[0] + 0.5),
        "limits, left beyond crest": lambda s, k, v: s.set_analysis_limits(left_x=s.get_top_coordinates()[0] + 0.1 + v),
        "uniform loads that are none": lambda s, k, v: s.set_udls(other(k, LineLoad(20 + v, 0.3))),
        "line loads that are none": lambda s, k, v: s.set_lls(other(k, Udl(20 + v, 0.3, 2))),
        "limits, right before crest": lambda s, k, v: s.set_analysis_limits(left_x=0.02, right_x=s.get_top_coordinates()[0] * 0.9),
    }


BAD = (
    "boundary height|boundary height 0|boundary no height|boundary angle|boundary angle, good length|boundary length|"
    "boundary neither|water|head|minimum length, good height|minimum height, good length|minimum length|minimum height|"
    "materials, last one bad|materials, first one bad|materials, same depth|materials, existing depth|limits, bad right|"
    "limits, bad left|limits, bad inner left|limits, bad inner right|limits, zero|limits, crossed left|limits, equal left|"
    "limits, crossed right|limits, left beyond crest|limits, right before crest|uniform loads that are none|"
    "line loads that are none"
).split("|")


def run_atomic(case, rec):
    h = Hist(case["slope"])
    for op in case["ops"]:
        h.apply(op)
    s = h.s
    before = snapshot(s, case["figure"])
    calls = bad_calls()
    for name, k, v in case["bad"]:
        try:
            calls[name](s, k, v)
        except ValueError:
            pass
        else:
            # (what is not a load may be passed over without a word)
            if "that are none" not in name:
                raise Violation(f"no ValueError for the invalid call '{name}' ({k}, {v}) after {case['ops']}")
        rec.cls("rejected: " + name)
        if not case["each"]:
            continue
        after = snapshot(s, case["figure"])
        judge(case, before, after, f"'{name}' ({k}, {v})")
    # a later change of the boundary must not bring up anything a rejected call left behind
    judge(case, before, snapshot(s, case["figure"]), f"{case['bad']}")
    t = h.fresh()
    for x in (s, t):
        x.set_external_boundary(height=h.state["h"], angle=h.state["angle"] or 30, length=h.state["length"])
        x.set_external_boundary(height=h.state["h"] * 1.25, angle=h.state["angle"] or 30, length=h.state["length"])
    a = (s.get_top_coordinates(), s.get_bottom_coordinates())
    b = (t.get_top_coordinates(), t.get_bottom_coordinates())
    if not figs.same_numbers(a, b):
        raise Violation(f"after rejected calls {case['bad']} a new boundary puts crest and toe at {a}, without them at {b}")
    rec.nontrivial(h.state["mats"] or h.state["udls"] or h.state["lls"])


def judge(case, before, after, what):
    for a, b in zip(before, after):
        if isinstance(a, dict):
            d = figs.dict_diff(a, b, "")
            if d:
                raise Violation(f"the rejected call {what} changed the drawing: {d}")
        elif not figs.same_numbers(a, b):
            raise Violation(f"the rejected call {what} changed the model from {str(a)[:300]} to {str(b)[:300]}")


@st.composite
def atomic_case(draw):
    spec = draw(boundary(vertical=False))
    spec["h"] = min(spec["h"], 12)
    h = spec["h"]
    ops = setup_ops(draw, h)
    ops += draw(st.lists(op_strategy(h, False, [m for m in MUTATORS if m not in ("circle", "ee", "rm_planes")]), max_size=4))
    bad = draw(st.lists(st.tuples(st.sampled_from(BAD), st.integers(0, 13), num(0, 5)).map(list), min_size=2, max_size=12))
    return {"slope": spec, "ops": ops, "bad": bad, "figure": draw(st.sampled_from([True, False, False])), "each": draw(st.sampled_from([True, False, False]))}


def _init():
    global NAMES, BOUNDS, RIGHT
    s = base()
    a = api()
    NAMES = sorted(a)
    BOUNDS = {n: a[n][2] for n in NAMES}
    # outer edge of the model: end of the toe
    h, L = 3, 3 / tan(radians(35))
    RIGHT = max(5 * L, 10, 4 * h)


_init()
SUBS = [Sub("domain", domain_case(), run_domain, 6000, 100000), Sub("atomic", atomic_case(), run_atomic, 250, 8000)]
