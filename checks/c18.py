"""C18: the planes and the figure of the response against the library, driven directly."""
from core import Sub, Violation, Reject
from gen import *
from lines import *
import figs, web, re

PROPERTY = "C18"
RULE = (
    "A case is a complete form submission: dimensions by angle and by length, options, 0 to 4 layer rows, load rows (also "
    "rows left at their defaults), water, limits with and without inner ones, normal or dynamic analysis.  The submission "
    "is posted to the page in-process; the embedded planes and figure are compared with a slope built directly through the "
    "library from the submitted values.  Non-trivial: the answer has planes and the form uses at least two of: loads, "
    "water, limits, several layers, dynamic analysis, slope by length."
)


def val(v):
    return float(v)


def library(d):
    """what the user asked for, through the library"""
    from pyslope.pyslope import Slope, Material, Udl, LineLoad

    if d["by"] == "length":
        s = Slope(height=val(d["height"]), length=val(d["length"]), angle=None)
    else:
        s = Slope(height=val(d["height"]), angle=val(d["angle"]), length=None)
    s.update_analysis_options(slices=int(d["slices"]), iterations=int(d["iterations"]))
    for m in d["materials"]:
        s.set_materials(
            Material(
                unit_weight=val(m["unit_weight"]), friction_angle=val(m["friction_angle"]), cohesion=val(m["cohesion"]),
                depth_to_bottom=val(m["depth_to_bottom"]), name=m["name"].strip(), color=m["color"].strip(),
            )
        )
    for p in d["lls"]:
        s.set_lls(LineLoad(magnitude=val(p["magnitude"]), offset=val(p["offset"]), color=p["color"].strip(), dynamic_offset=bool(p["dynamic_offset"])))
    for u in d["udls"]:
        s.set_udls(
            Udl(magnitude=val(u["magnitude"]), offset=val(u["offset"]), length=val(u["length"]), color=u["color"].strip(), dynamic_offset=bool(u["dynamic_offset"]))
        )
    if d["use_water"]:
        s.set_water_table(val(d["water"]))
    if d["use_limits"]:
        x1, x2, x3, x4 = map(val, d["limits"])
        if d["use_inner"]:
            s.set_analysis_limits(left_x=x1, left_x_right=x2, right_x_left=x3, right_x=x4)
        else:
            s.set_analysis_limits(left_x=x1, right_x=x4)
    how = "normal"
    if d["analysis"] == "dynamic":
        try:
            s.analyse_dynamic(critical_fos=val(d["critical"]))
            how = "dynamic"
        except Exception:
            # nothing dynamic to analyse
            s.analyse_slope(max_fos=5)
    else:
        s.analyse_slope(max_fos=5)
    return s, how


def without_legend(fig):
    lay = fig.get("layout", {})
    keep = lambda a: not (a.get("xref") == "paper" and min(v for v in (a.get("x"), a.get("x0"), a.get("x1")) if v is not None) >= 0.85)
    for k in ("annotations", "shapes"):
        lay[k] = [a for a in lay.get(k, []) if keep(a)]
    return fig


def integral(v):
    """20.0 and 20 are the same number"""
    if isinstance(v, dict):
        return {k: integral(x) for k, x in v.items()}
    if isinstance(v, list):
        return [integral(x) for x in v]
    if isinstance(v, str):
        return re.sub(r"(\d)\.0(?!\d)", r"\1", v)
    return v


def compare(search, figure, s, rec=None):
    """the answer of the page against an analysed slope"""
    mine = planes(s)
    if len(search) != len(mine):
        raise Violation(f"the page returns {len(search)} planes, the library finds {len(mine)}")
    for i, (a, b) in enumerate(zip(search, mine)):
        for k in ("FOS", "c_x", "c_y", "radius"):
            if not close(a[k], b[k], 1e-9, 1e-12):
                raise Violation(f"plane {i}: the page says {k} = {a[k]}, the library {b[k]}")
        for k in ("l_c", "r_c"):
            if not figs.same_numbers(list(a[k]), list(b[k])):
                raise Violation(f"plane {i}: the page says {k} = {a[k]}, the library {b[k]}")
        if len(a["x"]) != len(a["y"]):
            raise Violation(f"plane {i} has a line with {len(a['x'])} x and {len(a['y'])} y coordinates")
        check_line(list(zip(a["x"], a["y"])), b, f"the line of plane {i}", 0.0015, 0.0006)
    fig = s.plot_critical() if mine else s.plot_boundary()
    want = without_legend(figs.as_dict(fig))
    got = without_legend(figs.plain({k: v for k, v in figure.items()}))
    got["layout"].pop("template", None)
    for d in (want, got):
        for k in ("width", "height", "autosize"):
            d["layout"].pop(k, None)
    diff = figs.dict_diff(integral(want), integral(got))
    if diff:
        raise Violation(f"the figure of the page differs from the library's: {diff}")


def legend_colours(page, with_legend=True):
    import plotly.graph_objects as go

    colors = page.json("COLOUR_FOS_DICT")
    if sorted(map(float, colors)) != [k / 10 for k in range(51)]:
        raise Violation(f"the page's colour scale has the steps {sorted(colors)}")
    if with_legend:
        lay = page.figure["layout"]
        fig = go.Figure()
        fig.layout = {}
        scale = legend_of(_Fig(lay))
        if scale != [norm(colors[k]) for k in sorted(colors, key=float)]:
            raise Violation("the page's colour scale differs from the legend of the figure")


class _Box:
    def __init__(self, d):
        self.__dict__.update({k: _Box(v) if isinstance(v, dict) else v for k, v in d.items()})

    def __getattr__(self, k):
        return None


class _Fig:
    def __init__(self, lay):
        self.layout = _Box({})
        self.layout.shapes = [_Box(x) for x in lay.get("shapes", [])]
        self.layout.annotations = [_Box(x) for x in lay.get("annotations", [])]


def features(d):
    return (
        bool(d["udls"] or d["lls"]) + bool(d["use_water"]) + bool(d["use_limits"]) + (len(d["materials"]) > 1)
        + (d["analysis"] == "dynamic") + (d["by"] == "length")
    )


def run(case, rec):
    d = case
    c = web.client()
    r = c.post("/", web.form(d))
    try:
        s, how = library(d)
    except ValueError as e:
        if r.status_code != 302 or r["Location"] != "/reset":
            raise Violation(f"the library rejects the submission ({e}), the page answers {r.status_code} {r.get('Location')}")
        rec.cls("rejected by the library")
        return
    if r.status_code != 200:
        raise Violation(f"a valid submission is answered with {r.status_code} {r.get('Location')}: {r.exc_info and r.exc_info[1]!r}")
    page = web.Page(r.content.decode())
    compare(page.search, page.figure, s)
    if d["materials"]:
        legend_colours(page)
    rec.cls(how)
    rec.cls("with planes" if planes(s) else "without planes")
    rec.cls("inner limits" if d["use_limits"] and d["use_inner"] else "outer limits" if d["use_limits"] else "no limits")
    rec.nontrivial(bool(planes(s)) and features(d) >= 2)


def typed(s):
    """as a user types it"""
    return st.one_of(s, s, s.map(lambda v: f" {v!r} "), s.map(lambda v: f"{v:.3e}"), s.map(lambda v: str(int(v)) if v == int(v) else f"+{v!r}"))


@st.composite
def submission(draw, sure=True, dyn=None):
    h = draw(st.one_of(num(0.5, 12), st.integers(1, 6)))
    spec = {"h": h}
    angle = draw(st.one_of(num(15, 80, 1), st.sampled_from([30, 45, 90])))
    length = draw(num(0.2, 2.5).map(lambda k: round(k * h, 3)))
    by = draw(st.sampled_from(["angle", "length", "angle", "length", "vertical"]))
    if by == "vertical":
        by, length = "length", draw(st.sampled_from([0, 0, 1e-9, 0.001]))
    rows = []
    depths = draw(st.lists(num(0.2, 2.2).map(lambda k: round(k * h, 2)), max_size=4, min_size=draw(st.sampled_from([0, 1, 1, 1, 1, 1, 1, 1, 1])), unique=sure or draw(st.integers(0, 2)) > 0))
    for dep in depths:
        m = draw(material())
        rows.append(
            {
                "unit_weight": draw(typed(st.just(m["uw"]))), "friction_angle": m["phi"], "cohesion": draw(typed(st.just(m["c"]))), "depth_to_bottom": dep,
                "name": draw(st.sampled_from(["", "", "Clay", " Sand ", "</script>", "a'b\"c\\", "<b>ü</b>", "&lt;"])), "color": draw(st.sampled_from(["", "", "red", "#123456", "nocolour", " pink ", "#fff"])),
            }
        )
    if draw(st.integers(0, 6)) == 0:
        rows.insert(draw(st.integers(0, len(rows))), {"unit_weight": "20", "friction_angle": "35.0", "cohesion": "2", "depth_to_bottom": "5", "name": "", "color": ""})
    dyn = draw(st.integers(0, 2)) == 0 if dyn is None else dyn
    udls, lls = [], []
    if dyn or draw(st.booleans()):
        for u in draw(st.lists(udl(h), max_size=2)):
            udls.append({"magnitude": u["q"], "offset": u["o"], "length": u["l"] or 0, "color": draw(st.sampled_from(["red", "", "green"])), "dynamic_offset": dyn and draw(st.booleans())})
        for p in draw(st.lists(ll(h), max_size=2)):
            lls.append({"magnitude": p["p"], "offset": p["o"], "color": draw(st.sampled_from(["blue", "", "green"])), "dynamic_offset": dyn and draw(st.booleans())})
    if draw(st.booleans()):
        udls.append({"magnitude": "0", "offset": "0", "length": "0", "color": "red", "dynamic_offset": False})
    if draw(st.booleans()):
        lls.append({"magnitude": "0", "offset": "0", "color": "blue", "dynamic_offset": False})
    L = length
    total = max(5 * h, 10)
    lims = sorted([draw(unit) * total * 0.3, total * (0.3 + 0.2 * draw(unit)), total * (0.45 + 0.2 * draw(unit)), total * (0.7 + 0.5 * draw(unit))])
    lims = [round(x, 2) for x in lims]
    if not sure and draw(st.integers(0, 3)) == 0:
        lims[draw(st.integers(0, 3))] = draw(st.sampled_from([0, -1, 1000, "abc", ""]))
    return {
        "height": h, "angle": angle, "length": L, "by": by,
        "analysis": "dynamic" if dyn else "normal", "critical": draw(num(0.3, 3, 1)), "display": draw(num(0.1, 5, 1)),
        "iterations": draw(st.sampled_from([500] * 10 + [750, 501, 1234] * 3 + [2500, 5000])), "slices": draw(st.one_of(st.just(10), st.just(10), st.integers(10, 50))),
        "use_water": draw(st.booleans()), "water": draw(st.one_of(num(0, 1.6).map(lambda k: round(k * h, 2)), num(0, 1.6).map(lambda k: round(k * h, 2)), st.sampled_from([0, h]))),
        "use_limits": draw(st.integers(0, 2)) == 0, "use_inner": draw(st.booleans()), "limits": lims,
        "materials": rows, "udls": udls, "lls": lls,
    }


SUBS = [Sub("submissions", submission(), run, 220, 8000)]
