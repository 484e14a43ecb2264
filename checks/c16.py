"""C16: the lines of plot_critical and plot_all_planes against the analysed planes."""
from core import Sub, Violation, Reject
from gen import *
from lines import *
import figs, math

PROPERTY = "C16"
RULE = (
    "A case is a slope with up to 14 individual planes or an automatic search, and a maximum factor of safety (a value "
    "between, below, above or exactly at the analysed ones, or none).  The traces beyond those of plot_boundary are read "
    "back: which planes, order, end points, points on the circle, value text, and colour against the legend drawn in the "
    "same figure.  Non-trivial: at least one plane is left out and one drawn, or a drawn plane lies above 5."
)


def check_critical(fig, base_n, p, legend):
    new = list(fig.data)[base_n:]
    if len(new) < 2:
        raise Violation("no critical plane is drawn")
    line, text = pts(new[0]), new[1]
    if new[1].text is None:
        line, text = pts(new[1]), new[0]
    cx, cy, f = p["c_x"], p["c_y"], p["FOS"]
    at = pts(text)
    if len(at) != 1 or abs(at[0][0] - cx) > 0.00051 or abs(at[0][1] - cy) > 0.00051:
        raise Violation(f"the centre is marked at {at}, it is ({cx}, {cy})")
    value = str(list(text.text)[0])
    if len(value.split(".")[-1]) != 3 or abs(float(value) - f) > 0.00050001 + 1e-12 * f:
        raise Violation(f"the critical plane is labelled {value}, its factor of safety is {f}")
    # arc, then exit, centre, entry, start of the arc
    scale = max(1.0, abs(cx), abs(cy))
    near = lambda a, b, t=1e-9: abs(a[0] - b[0]) <= t * scale and abs(a[1] - b[1]) <= t * scale
    k = [i for i in range(len(line) - 2) if near(line[i], p["r_c"]) and near(line[i + 2], p["l_c"]) and abs(line[i + 1][0] - cx) < 0.00051 and abs(line[i + 1][1] - cy) < 0.00051]
    if len(k) != 1:
        raise Violation(f"the critical drawing {line} does not join exit {p['r_c']}, centre and entry {p['l_c']}")
    k = k[0]
    arc = line[:k]
    if line[k + 3:] and not near(line[k + 3], (arc + line[k:])[0]):
        raise Violation(f"the critical drawing {line} is not closed")
    check_line([p["l_c"]] + arc + [p["r_c"]], p, "the critical drawing", 0.004)
    color = norm(new[0].line.color)
    if legend and color not in legend_colors(legend, f, 0.00051):
        raise Violation(f"the critical plane ({f}) is drawn in {color}, the legend shows {legend_colors(legend, f, 0.00051)}")
    if legend and norm(text.textfont.color) not in legend_colors(legend, f, 0.00051):
        raise Violation(f"the value {f} is written in {text.textfont.color}")
    return new[2:]


def analysed(case):
    ref = Ref(case["slope"])
    circles = circles_of(ref, case["circles"])
    s = build(case["slope"])
    for c in circles:
        s.add_single_circular_plane(*c)
    s.analyse_slope()
    ps = planes(s)
    if not ps:
        raise Reject("no plane can slide")
    ps = [dict(p) for p in ps]
    return s, ref, ps


def check_ends(ps, ref, rec):
    for p in ps:
        want, margin = ref.crossings(p["c_x"], p["c_y"], p["radius"])
        if margin < 5e-7 or len(want) < 2:
            continue
        for a, b in ((p["l_c"], want[0]), (p["r_c"], want[1])):
            if math.hypot(a[0] - b[0], a[1] - b[1]) > 1e-6 * max(1, ref.ext_l):
                raise Violation(f"plane ({p['c_x']}, {p['c_y']}, {p['radius']}) has the end {a}, the circle cuts the ground at {b}")


def run_critical(case, rec):
    s, ref, ps = analysed(case)
    base = s.plot_boundary(material_table=False)
    fig = s.plot_critical(material_table=False, legend=case["legend"])
    legend = legend_of(fig) if case["legend"] else SCALE
    rest = check_critical(fig, len(base.data), ps[0], legend)
    if rest:
        raise Violation(f"{len(rest)} more lines are drawn with the critical plane")
    if min(p["FOS"] for p in ps) != ps[0]["FOS"]:
        raise Violation("the critical plane is not the one with the lowest factor of safety")
    check_ends(ps[:1], ref, rec)
    for a, b in zip(list(base.data), list(fig.data)):
        if figs.diff(type(base)(a), type(base)(b)):
            raise Violation("the critical drawing changes the drawing of the boundary")
    rec.cls("above 5" if ps[0]["FOS"] > 5 else "to 5")
    rec.nontrivial(len(ps) > 1 or ps[0]["FOS"] > 5)


def run_all(case, rec):
    s, ref, ps = analysed(case)
    kind, t = case["max"]
    fs = [p["FOS"] for p in ps]
    if kind == "default":
        if sum(f < 5 for f in fs) > 400:
            raise Reject("too many planes for one drawing")
        kw, bound = {}, 5
    else:
        if kind == "none":
            bound = None
        elif kind == "at":
            bound = fs[int(t * (len(fs) - 1) * 0.999 + 0.5) if len(fs) < 20 else int(t * 20)]
        elif kind == "rounded":
            bound = round(fs[int(t * min(19, len(fs) - 1))], 2)
        else:
            bound = fs[0] * 0.5 + t * (fs[min(len(fs) - 1, 60)] - fs[0] * 0.5)
        kw = {"max_fos": bound}
        if bound is None and len(fs) > 200:
            raise Reject("too many planes for one drawing")
    base = s.plot_boundary(material_table=False)
    fig = s.plot_all_planes(material_table=False, legend=False, **kw)
    legend = legend_of(fig)
    if legend is None:
        raise Violation("the drawing of all planes has no legend")
    if SCALE and legend != SCALE:
        raise Violation("the legend differs from the one of the critical drawing")
    drawn = check_critical(fig, len(base.data), ps[0], legend)
    want = [p for p in ps if bound is None or p["FOS"] < bound]
    if len(drawn) != len(want):
        raise Violation(f"{len(drawn)} planes are drawn, {len(want)} of {len(ps)} lie below {bound}")
    for t, p in zip(drawn, reversed(want)):
        what = f"the line of the plane with {p['FOS']}"
        meta = figs.plain(t.meta)
        if not meta or abs(float(meta[0]) - p["FOS"]) > 0.00050001 + 1e-12 * p["FOS"]:
            raise Violation(f"{what} shows the value {meta}")
        check_line(pts(t), p, what, 0.0015)
        if norm(t.line.color) not in legend_colors(legend, p["FOS"], 1e-9):
            raise Violation(f"{what} is drawn in {t.line.color}, the legend shows {legend_colors(legend, p['FOS'], 1e-9)}")
    vals = [float(figs.plain(t.meta)[0]) for t in drawn]
    if any(b > a + 1e-9 for a, b in zip(vals, vals[1:])):
        raise Violation("the most critical plane is not drawn last")
    check_ends(want[:30], ref, rec)
    rec.cls(f"max {kind}")
    if any(p["FOS"] > 5 for p in want):
        rec.cls("planes above 5 drawn")
    rec.nontrivial(0 < len(want) < len(ps) or any(p["FOS"] > 5 for p in want))


SCALE = None


def _scale():
    """the legend as a slope with one plane draws it"""
    global SCALE
    s = build({"h": 2, "length": 3, "mats": [{"uw": 20, "phi": 30, "c": 4, "d": 3}]})
    try:
        SCALE = legend_of(s.plot_boundary(material_table=False, legend=True))
    except Exception:
        SCALE = None  # the checks read the legend again and report what is wrong


@st.composite
def strong(draw, **kw):
    spec = draw(slope(mats=(1, 3), n_udl=1, n_ll=1, **kw))
    if draw(st.booleans()):
        k = draw(st.sampled_from([2, 5, 10, 0.3]))
        for m in spec["mats"]:
            m["c"] = round(m["c"] * k + 0.3, 4)
    return spec


@st.composite
def few(draw, legend):
    # circles near each other give factors of safety near each other
    params = draw(st.lists(circle_params(), min_size=3, max_size=14))
    if draw(st.integers(0, 2)) == 0 and params:
        kind, u, v, w = params[0]
        for _ in range(draw(st.integers(1, 4))):
            params.append([kind, min(1, u + draw(num(0, 0.05))), v, min(1, w + draw(num(0, 0.1)))])
    return {
        "slope": draw(strong()), "circles": params, "legend": legend and draw(st.integers(0, 60)) == 0,
        "max": draw(st.tuples(st.sampled_from(["none", "default", "at", "at", "rounded", "between", "between"]), unit)),
    }


@st.composite
def searched(draw):
    spec = draw(strong(vertical=False))
    spec["opts"] = {"slices": 10, "iterations": draw(st.one_of(*[st.integers(500, 700)] * 9, st.integers(1000, 3000)))}
    return {"slope": spec, "circles": [], "legend": False, "max": draw(st.tuples(st.sampled_from(["at", "rounded", "between"]), unit))}


_scale()
SUBS = [
    Sub("critical", few(True), run_critical, 1400, 80000),
    Sub("all planes", few(False), run_all, 140, 4000),
    Sub("all searched", searched(), run_all, 60, 1500),
]
