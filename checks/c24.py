"""C24: the page's chart script, run on a document model, against the embedded results."""
from core import Sub, Violation, Reject
from gen import *
from lines import norm
import figs, web, json, math

PROPERTY = "C24"
RULE = (
    "A case is a page with generated embedded planes (any count, ties, zeros, values at slider positions and above 5), the "
    "figure of a generated model or of the page itself, a start value, a window width and a sequence of slider movements "
    "and resizes.  After every step the traces of the chart have to be the figure's plus exactly the planes strictly below "
    "the slider value, with line, value and legend colour, most critical last.  Narrow windows also list the layers and the "
    "legend.  Non-trivial: after a movement or resize some planes are drawn and some are left out."
)
NARROW = 900


def shown_value(t):
    h = t.get("hovertemplate")
    if isinstance(h, str) and "meta" in h:
        m = t.get("meta")
        h = m[0] if isinstance(m, list) else m
    try:
        return float(h)
    except (TypeError, ValueError):
        raise Violation(f"a plane shows the value {h!r}")


def colors(legend, f):
    v = min(f, 5) * 10
    ks = {math.floor(v + 0.5)}
    if abs(v - math.floor(v) - 0.5) < 1e-6:
        ks |= {math.floor(v), math.ceil(v)}
    return {norm(legend[f"{min(k, 50) / 10:.1f}"]) for k in ks}


def check_chart(plot, fig, search, legend, value, width, when):
    data = plot["data"]
    if data is None:
        raise Violation(f"nothing is drawn {when}")
    base = fig["data"]
    d = figs.dict_diff(base, data[: len(base)])
    if len(data) < len(base) or d:
        raise Violation(f"the chart does not show the figure {when}: {d}")
    new, want = data[len(base):], [p for p in search if p["FOS"] < value]
    if len(new) != len(want):
        raise Violation(f"{len(new)} planes are drawn {when}, {len(want)} lie below {value}")
    byline = {(tuple(p["x"]), tuple(p["y"])): p for p in want}
    last = math.inf
    for t in new:
        p = byline.pop((tuple(t.get("x") or ()), tuple(t.get("y") or ())), None)
        if p is None:
            raise Violation(f"a line is drawn twice or does not belong to a plane below {value} {when}: {t}")
        f = p["FOS"]
        if f > last:
            raise Violation(f"the plane with {f} is drawn above the one with {last} {when}")
        last = f
        if abs(shown_value(t) - f) > 0.00050001:
            raise Violation(f"the plane with {f} shows the value {t.get('hovertemplate')} {when}")
        c = (t.get("line") or {}).get("color") or (t.get("marker") or {}).get("color")
        if norm(c) not in colors(legend, f):
            raise Violation(f"the plane with {f} is drawn in {c} {when}, the legend has {colors(legend, f)}")
        if "lines" not in str(t.get("mode", "lines")) or t.get("visible") not in (None, True):
            raise Violation(f"the plane with {f} is not drawn as a line {when}")
    if width >= NARROW:
        for k in ("shapes", "annotations"):
            d = figs.dict_diff(fig["layout"].get(k) or [], (plot["layout"] or {}).get(k) or [])
            if d:
                raise Violation(f"the {k} of the figure are not drawn {when}: {d}")
    return len(want)


def cell_text(v):
    return f"{v:g}" if isinstance(v, (int, float)) else str(v)


def check_small(rows, cells, marks, state, fig, legend, when):
    if not state["menu"]["shown"]:
        raise Violation(f"the lists for small screens are hidden {when}")
    layers = [t for t in fig["data"] if t.get("fill") == "toself"]
    if len(rows) != len(layers):
        raise Violation(f"{len(rows)} layers are listed {when}, {len(layers)} are drawn")
    for r, t in zip(rows, layers):
        uw, c, phi, name = t["meta"]
        if len(r) < 5:
            raise Violation(f"a layer is listed with {len(r)} columns {when}")
        if r[0][0].strip() != str(name).strip() or norm(r[1][1].strip().rstrip(";")) != norm(t["fillcolor"]):
            raise Violation(f"the layer {name} ({t['fillcolor']}) is listed as {r[0][0]} in {r[1][1]} {when}")
        for got, want in zip((r[2][0], r[3][0], r[4][0]), (uw, c, phi)):
            if abs(float(got) - want) > 1e-9 * max(1, abs(want)):
                raise Violation(f"the layer {name} is listed with {got} instead of {want} {when}")
    got = [norm(c) for row in cells for _, c in row]
    want = [norm(legend[f"{k / 10:.1f}"]) for k in range(51)]
    if got != want:
        raise Violation(f"the legend shows {len(got)} colours {when}, expected the {len(want)} of the scale")
    got = [float(m) for m in marks if m.strip().replace(".", "").isdigit()]
    if got and (got[0] != 0 or got[-1] != 5 or any(abs(b - a - 5 / (len(got) - 1)) > 1e-9 for a, b in zip(got, got[1:]))):
        raise Violation(f"the legend of 0.0 to 5.0 is marked {got} {when}")


def run(case, rec):
    page = web.Page(html := web.default_page())
    legend = page.json("COLOUR_FOS_DICT")
    if case["model"] is None:
        fig = page.figure
    else:
        m = case["model"]
        fig = json.loads(build(m).plot_boundary(material_table=case["table"]).to_json())
    search = [
        {"FOS": f, "x": [float(i), i + 1.5, i + 3.25], "y": [2.0 + (i % 7), 1.0, 0.5 + i], "c_x": i + 1.0, "c_y": 9.0, "radius": 8.0, "l_c": [float(i), 2.0], "r_c": [i + 3.25, 0.5]}
        for i, f in enumerate(sorted(f + j * 1e-4 for f in case["fos"] for j in range(case.get("copies", 1))))
    ]
    texts = {"search": json.dumps(search), "plot_json": json.dumps(json.dumps(fig))}
    slider = "#id_options-max_display_FOS"
    look = [
        {"do": "plot"}, {"do": "cells", "sel": "#mobile_soil_table"}, {"do": "cells1", "sel": "#FOS_legend"}, {"do": "texts", "sel": "#mobile_screen_menus b"},
        {"do": "state", "of": [["menu", "#mobile_screen_menus"], ["slider", slider]]},
    ]
    req = [{"do": "load", "html": html, "width": case["width"], "texts": texts, "values": {"id_options-max_display_FOS": js(case["start"])}}] + look
    for k, v in case["steps"]:
        req.append({"do": "resize", "width": v} if k == "resize" else {"do": "change", "sel": slider, "value": js(v)})
        req += look
    out = web.browser().run(req)
    value, width, n = case["start"] / 10, case["width"], 1 + len(look)
    for i, step in enumerate([None] + case["steps"]):
        _, plot, rows, cells, marks, state = out[i * n : (i + 1) * n]
        if step and step[0] == "resize":
            width = step[1]
        elif step:
            value = step[1] / 10
        when = f"after step {i} ({step[0]} to {step[1]})" if step else "at the start"
        k = check_chart(plot, fig, search, legend, value, width, when)
        if width < NARROW:
            check_small(rows, cells, marks, state, fig, legend, when)
            rec.cls("narrow")
        elif state["menu"]["shown"]:
            raise Violation(f"the lists for small screens are shown {when}")
        if abs(float(state["slider"]["value"]) - value) > 1e-9:
            raise Violation(f"the slider stands at {state['slider']['value']} {when}")
        rec.nontrivial(i > 0 and 0 < k < len(search))
        rec.cls("drawings judged")
        if any(p["FOS"] == value for p in search):
            rec.cls("plane at the slider value")
        if step and step[0] == "slide":
            rec.cls("slider moved")


def js(k):
    return f"{k / 10:g}"


fos = st.one_of(
    st.integers(0, 60).map(lambda k: k / 10), st.integers(0, 550).map(lambda k: k / 100), st.integers(0, 6000).map(lambda k: k / 1000),
    st.floats(0, 6, allow_subnormal=False), st.sampled_from([0, 1, 2, 3, 4, 5, 5.0000001, 4.9999999, 12.345, 0.04, 0.05, 0.95, 0.9999, 1.0004, 1.9995, 250.0]),
)
width = st.one_of(st.sampled_from([320, 899, 900, 901, 1200]), st.integers(300, 2000))

NAMES = ["a < b", "<b>Clay</b>", "R&D", "&lt;", "<script>x</script>", "Sand \"fine\"", "it's", "Ton ü", "</td>", "\\"]


@st.composite
def cases(draw):
    model = None
    if draw(st.integers(0, 4)):
        model = draw(slope(mats=(0, 5), n_udl=2, n_ll=2))
        for m in model["mats"]:
            if draw(st.integers(0, 3)) == 0:
                m["name"] = draw(st.sampled_from(NAMES))
    k = st.integers(1, 50)
    f = draw(st.lists(fos, max_size=draw(st.sampled_from([0, 3, 8, 30]))))
    start = draw(k)
    steps = draw(st.lists(st.one_of(k.map(lambda v: ["slide", v]), k.map(lambda v: ["slide", v]), width.map(lambda v: ["resize", v])), max_size=6))
    for s in [s for s in steps if s[0] == "slide"][:2]:
        if draw(st.integers(0, 3)) == 0:
            f.append(s[1] / 10)
    return {"model": model, "table": draw(st.booleans()), "fos": f, "start": start, "width": draw(width), "steps": steps, "copies": draw(st.sampled_from([1] * 12 + [2, 60, 400]))}


SUBS = [Sub("chart", cases(), run, 500, 12000)]
