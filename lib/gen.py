"""Hypothesis strategies for cases, and building slopes from cases."""
from hypothesis import strategies as st
from math import tan, radians
from ref import Ref


def num(lo, hi, dec=2):
    """numbers as users type them (decimals) or arbitrary floats of the range"""
    k = 10**dec
    a, b = int(round(lo * k)), int(round(hi * k))
    typed = st.integers(a, b).map(lambda i: i / k)
    return st.one_of(typed, typed, st.floats(lo, hi, allow_nan=False, allow_subnormal=False))


def maybe(s):
    return st.one_of(st.none(), s)


@st.composite
def boundary(draw, vertical=True):
    h = draw(st.one_of(num(0.5, 12), num(0.5, 40), st.integers(1, 10)))
    spec = {"h": h}
    if draw(st.booleans()):
        a = draw(st.one_of(num(15, 75, 1), num(6, 90, 1), st.sampled_from([30, 45, 60, 90] if vertical else [30, 45, 60])))
        if not vertical:
            a = min(a, 80)
        spec["angle"] = a
    else:
        lo = 0.0 if vertical else 0.2
        spec["length"] = draw(st.one_of(num(max(lo, 0.3), 4).map(lambda k: k * h), num(lo, 40)))
    return spec


@st.composite
def material(draw, cohesive=False):
    return {
        "uw": draw(st.one_of(num(14, 24, 1), num(1, 50, 1))),
        "phi": draw(st.one_of(num(0, 50, 1), st.integers(0, 50), num(15, 40, 1))),
        "c": draw(st.one_of(num(0, 30, 1), st.integers(0, 10), num(0.5, 5, 1))),
        "d": 0,
    }


@st.composite
def materials(draw, h, lo=1, hi=5):
    n = draw(st.integers(lo, hi))
    if hi >= 3 and draw(st.integers(0, 14)) == 0:
        # more layers than there are default colours
        n = draw(st.integers(hi + 1, 14))
    out = []
    depths = draw(
        st.lists(st.one_of(num(0, 1.5).map(lambda k: round(k * h, 3)), num(0, 3 * h)), min_size=n, max_size=n, unique=True)
    )
    for d in depths:
        m = draw(material())
        m["d"] = d
        out.append(m)
    return out


@st.composite
def udl(draw, h):
    return {
        "q": draw(st.one_of(num(1, 100, 1), num(0.1, 40, 1))),
        "o": draw(st.one_of(num(0, 1.5).map(lambda k: round(k * h, 3)), num(0, 8), st.just(0))),
        "l": draw(st.one_of(st.none(), num(0.1, 8), st.integers(1, 5))),
    }


@st.composite
def ll(draw, h):
    return {
        "p": draw(st.one_of(num(1, 200, 1), num(0.1, 40, 1))),
        "o": draw(st.one_of(num(0, 1.5).map(lambda k: round(k * h, 3)), num(0, 8), st.just(0))),
    }


@st.composite
def options(draw, iterations=False):
    o = {}
    if draw(st.booleans()):
        o["slices"] = draw(st.one_of(st.integers(10, 60), st.integers(10, 30)))
    return o


@st.composite
def slope(draw, mats=(1, 5), n_udl=3, n_ll=3, water=True, ext=True, vertical=True, opts=None):
    spec = draw(boundary(vertical))
    h = spec["h"]
    spec["mats"] = draw(materials(h, *mats))
    spec["udls"] = draw(st.lists(udl(h), max_size=few_or_many(draw, n_udl))) if n_udl and draw(st.booleans()) else []
    spec["lls"] = draw(st.lists(ll(h), max_size=few_or_many(draw, n_ll))) if n_ll and draw(st.booleans()) else []
    spec["water"] = None
    spec["H"] = None
    if water and draw(st.booleans()):
        spec["water"] = draw(st.one_of(num(0, 1.6).map(lambda k: round(k * h, 3)), num(0, 3 * h)))
        if draw(st.booleans()):
            spec["H"] = draw(st.one_of(num(0, 1), st.sampled_from([0, 1])))
    if ext and draw(st.integers(0, 3)) == 0:
        spec["min_l"] = draw(num(1, 60))
    if ext and draw(st.integers(0, 3)) == 0:
        spec["min_h"] = draw(num(1, 40))
    spec["opts"] = draw(opts) if opts is not None else draw(options())
    return spec


def few_or_many(draw, n):
    return n if n < 2 or draw(st.integers(0, 9)) else 12


# -- circles ---------------------------------------------------------------
def circle_from(ref, kind, u, v, w):
    """concrete circle from three unit numbers"""
    tx, ty = ref.top
    bx, by = ref.bot
    if kind == "free":
        return (ref.ext_l * u, ty + (v - 0.3) * 3 * ref.h, (0.1 + 3 * w) * max(ref.h, ref.L))
    if kind == "entry":
        x1, x2 = tx * (1 - u * u), tx + (ref.ext_l - tx) * (0.02 + 0.98 * v * v)
    elif kind == "face":
        x1, x2 = tx + ref.L * u, tx + ref.L * v
        if x1 > x2:
            x1, x2 = x2, x1
    elif kind == "toe":
        x1, x2 = tx * (1 - u * 0.5), bx + (ref.ext_l - bx) * 0.5 * v
    else:  # crest near, exits on the face
        x1, x2 = tx * (1 - 0.4 * u), tx + ref.L * v
    x1, x2 = max(0.0, x1), min(x2, ref.ext_l)
    y1, y2 = ref.ground(x1), ref.ground(x2)
    dx, dy = x2 - x1, y1 - y2
    half = (dx * dx + dy * dy) ** 0.5 / 2
    if half < 1e-3:
        return None
    sag = half * (0.02 + 1.1 * w)
    r = (half * half + sag * sag) / (2 * sag)
    k = r - sag
    mx, my = (x1 + x2) / 2, (y1 + y2) / 2
    nx, ny = dy / (2 * half), dx / (2 * half)
    return (mx + nx * k, my + ny * k, r)


# mostly away from 0 and 1, where circles run through corners of the ground
unit = st.one_of(st.integers(1, 999).map(lambda i: i / 1000 + 0.00017), st.integers(0, 1000).map(lambda i: i / 1000), st.floats(0, 1, allow_subnormal=False))


def circle_params(kinds=("entry", "face", "toe", "crest", "free")):
    return st.tuples(st.sampled_from(kinds), unit, unit, unit).map(list)


def circles_of(ref, params):
    out = []
    for kind, u, v, w in params:
        c = circle_from(ref, kind, u, v, w)
        if c is not None and c[0] > 1e-6 and c[1] > 1e-6 and c[2] > 1e-6:
            out.append(c)
    return out


@st.composite
def search_slope(draw, limits=True, **kw):
    """slope for an automatic search, small enough for a scalar reference search"""
    spec = draw(slope(**kw))
    o = {"slices": draw(st.integers(10, 14)), "iterations": draw(st.one_of(st.integers(500, 900), st.integers(500, 2500), st.integers(0, 600)))}
    if draw(st.integers(0, 3)) == 0:
        o["min_failure_dist"] = draw(st.one_of(num(0, 3).map(lambda k: k * spec["h"]), num(0, 10)))
    spec["opts"] = o
    if limits and draw(st.booleans()):
        spec["limits"] = draw(limits_for(Ref(spec)))
    return spec


@st.composite
def limits_for(draw, ref):
    """valid limits [left_x, left_x_right, right_x_left, right_x], None = not given"""
    tx, e = ref.top[0], ref.ext_l
    def r3(x):
        return round(x, 3)
    x1 = draw(maybe(st.one_of(unit.map(lambda u: r3(u * 0.95 * tx)), st.just(0), unit.map(lambda u: u * 0.95 * tx))))
    lo = x1 or 0
    x2 = draw(maybe(st.one_of(unit.map(lambda u: r3(lo + 0.03 * tx + u * (tx - lo))), unit.map(lambda u: tx + u * (e - tx)))))
    x4 = draw(maybe(st.one_of(unit.map(lambda u: r3(tx + max(0.02, 0.1 * ref.L) + u * (e - tx))), unit.map(lambda u: e * (1 + u)))))
    hi = e if x4 is None else min(x4, e)
    x3 = draw(maybe(st.one_of(unit.map(lambda u: max(1e-3, r3(tx + u * 0.95 * (hi - tx)))), unit.map(lambda u: max(0.001, tx * u)))))
    if x3 is not None and x3 >= hi:
        x3 = None
    if x2 is not None and min(x2, tx) <= lo:
        x2 = None
    return [x1, x2, x3, x4]


# -- building through the public API ------------------------------------------
def build(spec, order=None):
    from pyslope.pyslope import Slope, Material, Udl, LineLoad

    s = Slope(height=spec["h"], angle=spec.get("angle"), length=spec.get("length"))
    if spec.get("min_l") or spec.get("min_h"):
        s.update_boundary_options(MIN_EXT_L=spec.get("min_l"), MIN_EXT_H=spec.get("min_h"))
    s.set_materials(*[make_material(m) for m in spec.get("mats", [])])
    if spec.get("udls"):
        s.set_udls(*[make_udl(u) for u in spec["udls"]])
    if spec.get("lls"):
        s.set_lls(*[make_ll(p) for p in spec["lls"]])
    if spec.get("water") is not None:
        s.set_water_table(spec["water"])
    if spec.get("H") is not None:
        s.update_water_analysis_options(auto=False, H=spec["H"])
    if spec.get("opts"):
        s.update_analysis_options(**spec["opts"])
    if spec.get("limits"):
        x1, x2, x3, x4 = spec["limits"]
        s.set_analysis_limits(left_x=x1, left_x_right=x2, right_x_left=x3, right_x=x4)
    return s


def make_material(m):
    from pyslope.pyslope import Material
    kw = {}
    if "name" in m:
        kw["name"] = m["name"]
    if "color" in m:
        kw["color"] = m["color"]
    return Material(unit_weight=m["uw"], friction_angle=m["phi"], cohesion=m["c"], depth_to_bottom=m["d"], **kw)


def make_udl(u):
    from pyslope.pyslope import Udl
    kw = {}
    if "color" in u:
        kw["color"] = u["color"]
    return Udl(magnitude=u["q"], offset=u["o"], length=u.get("l"), dynamic_offset=u.get("dyn", False), **kw)


def make_ll(p):
    from pyslope.pyslope import LineLoad
    kw = {}
    if "color" in p:
        kw["color"] = p["color"]
    return LineLoad(magnitude=p["p"], offset=p["o"], dynamic_offset=p.get("dyn", False), **kw)


def planes(s):
    """planes of the last analysis, as the web application reads them"""
    return list(s._search)


def results(s):
    return [(p["c_x"], p["c_y"], p["radius"], p["FOS"]) for p in planes(s)]


def close(a, b, rel=1e-9, abs_=1e-9):
    return abs(a - b) <= max(abs_, rel * max(abs(a), abs(b)))
