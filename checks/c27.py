"""C27: histories of edits of the page's form against a model of what is shown and offered."""
from core import Sub, Violation, Reject
from gen import *
import c25, web

PROPERTY = "C27"
RULE = (
    "A case is the page after a generated submission (or the default page), a history of edits of any control (dropdowns, "
    "check boxes, sliders, fields of rows and of the model, added and deleted rows, maximum display FOS) and window resizes. "
    "After every step the visible fields, the values beside the sliders, the PDF link and the Analyse button are compared "
    "with a model of the form.  Non-trivial: the slider moved before and after the first edit, or an edit changed which "
    "fields apply."
)
DISPLAY = "id_options-max_display_FOS"
FIELDS = ["slope-angle", "slope-length", "slope-height", "watertable-water_depth", "limits-left_x", "limits-right_x", "limits-consider_internal_limits", "limits-left_x_right", "limits-right_x_left"]
SINGLE = ["slope-height", "slope-angle", "slope-length", "watertable-water_depth", "limits-left_x", "limits-right_x", "limits-left_x_right", "limits-right_x_left"]
SLIDERS = ["options-critical_FOS", "options-iterations", "options-slices"]
SELECTS = ["options-analysis_choice", "options-slope_choice"]
BOXES = ["watertable-consider_water", "limits-consider_limits", "limits-consider_internal_limits"]
PAGES = {
    "default": None,
    "length": dict(by="length"),
    "water": dict(use_water=True, analysis="dynamic"),
    "limits": dict(use_limits=True, display=3.5),
    "inner": dict(use_limits=True, use_inner=True, use_water=True, by="length"),
    "inner off": dict(use_inner=True, display=0.5),
}
LOOK = [
    {"do": "state", "of": [[k, "#id_" + k] for k in FIELDS + SELECTS] + [["analyse", "#analysis_button"], ["pdf", "#pdf_button"], ["display", "#" + DISPLAY]]},
    {"do": "sliders"}, {"do": "submit", "sel": "#mainform"}, {"do": "submits"},
]
_pages = {}


def page(kind):
    if PAGES[kind] is None:
        return web.default_page()
    if kind not in _pages:
        d = dict(height=3, angle=40, length=4, analysis="normal", by="angle", critical=1.5, iterations=500, slices=10, water=1, limits=[1, 9, 6, 20])
        d["materials"] = [dict(unit_weight=18, friction_angle=30, cohesion=2, depth_to_bottom=2, name="A", color=""), dict(unit_weight=19, friction_angle=31, cohesion=3, depth_to_bottom=3, name="B", color="")]
        d["udls"] = [dict(magnitude=5, offset=1, length=1, color="red", dynamic_offset=True), dict(magnitude=0, offset=1, length=1, color="red", dynamic_offset=False)]
        d["lls"] = [dict(magnitude=0, offset=1, color="blue", dynamic_offset=False)] * 2
        r = web.client().post("/", web.form({**d, **PAGES[kind]}))
        if r.status_code != 200:
            raise Violation(f"a valid submission is answered with {r.status_code}")
        _pages[kind] = r.content.decode()
    return _pages[kind]


def look(out, model, when):
    state, sliders, data, sent = out
    if sent:
        raise Violation(f"the form was submitted {when}")
    data = dict(data)
    box = {b: b in data for b in BOXES}
    by = data["options-slope_choice"]
    want = {
        "slope-height": True, "slope-angle": by == "angle", "slope-length": by == "length",
        "watertable-water_depth": box["watertable-consider_water"],
        "limits-left_x": box["limits-consider_limits"], "limits-right_x": box["limits-consider_limits"],
        "limits-consider_internal_limits": box["limits-consider_limits"],
    }
    want["limits-left_x_right"] = want["limits-right_x_left"] = box["limits-consider_limits"] and box["limits-consider_internal_limits"]
    for k, v in want.items():
        if state[k] is None:
            raise Violation(f"the page has no field {k} {when}")
        if state[k]["shown"] != v:
            raise Violation(f"the field {k} is {'shown' if state[k]['shown'] else 'hidden'} {when} (slope by {by}, {box})")
    for k in SELECTS:
        if not state[k]["shown"] or data.get(k) != state[k]["value"]:
            raise Violation(f"{k} is hidden or not submitted as shown {when}")
    ids = {s["id"] for s in sliders}
    for s in sliders:
        if [float(t) for t in s["texts"]] != [float(s["value"])]:
            raise Violation(f"the slider {s['id']} stands at {s['value']}, beside it is written {s['texts']} {when}")
    if not {"id_" + k for k in SLIDERS} | {DISPLAY} <= ids:
        raise Violation(f"the sliders are {ids} {when}")
    pdf, analyse = state["pdf"], state["analyse"]
    if model["edited"]:
        if analyse["disabled"]:
            raise Violation(f"Analyse stays disabled {when}")
        if not pdf["disabled"] or pdf["href"] not in (None, "", "#"):
            raise Violation(f"the PDF of the analysis before the edit is still offered ({pdf['href']}) {when}")
    else:
        try:
            at = float((pdf["href"] or "").rsplit("pdf/", 1)[1])
        except (ValueError, IndexError):
            raise Violation(f"the PDF link is {pdf['href']!r} {when}")
        if pdf["disabled"] or abs(at - float(state["display"]["value"])) > 1e-9:
            raise Violation(f"the PDF link is {pdf['href']} with the maximum display FOS at {state['display']['value']} {when}")
        if pdf["href"].lstrip("/") != f"pdf/{pdf['href'].rsplit('/', 1)[1]}":
            raise Violation(f"the PDF link is {pdf['href']} {when}")
    return tuple(want.values())


def run(case, rec):
    html = page(case["page"])
    req = [{"do": "load", "html": html, "width": case["width"]}] + LOOK
    n = {k: 1 if PAGES[case["page"]] is None else 2 for k in c25.TABLES}
    ops = []
    for i, op in enumerate(case["ops"]):
        kind = op[0]
        if kind in ("row", "add", "delete"):
            name = c25.KINDS[op[1]]
            cls, add, _, fields = c25.TABLES[name]
            j = op[2] * n[name] // 1000
            if kind == "add":
                q = {"do": "click", "sel": add}
                n[name] += 1
            elif kind == "delete":
                if n[name] == 1:
                    continue
                q = {"do": "deleteRow", "row": cls, "i": j}
                n[name] -= 1
            else:
                q = {"do": "edit", "row": cls, "i": j, "field": fields[op[3] % len(fields)], "values": [f"{i + 3}.25", "7"]}
            edit = True
        elif kind == "display":
            q, edit = {"do": "change", "sel": "#" + DISPLAY, "value": f"{op[1] / 10:g}"}, False
        elif kind == "drag":
            q, edit = {"do": "drag", "sel": "#" + DISPLAY, "value": f"{op[1] / 10:g}"}, None
        elif kind == "resize":
            q, edit = {"do": "resize", "width": op[1]}, False
        else:
            name = {"single": SINGLE, "slider": SLIDERS, "select": SELECTS, "box": BOXES}[kind]
            name = name[op[1] % len(name)]
            values = {"options-iterations": ["750", "1000"], "options-slices": ["20", "30"], "options-critical_FOS": ["1.2", "1.3"]}.get(name, [f"{i + 2}.5", "7"])
            q, edit = {"do": "edit", "sel": "#id_" + name, "values": values}, True
        req.append(q)
        ops.append((op, edit))
        if edit is None:
            # the slider is let go
            req[-1:] = [q, {"do": "sliders"}, {"do": "change", "sel": "#" + DISPLAY, "value": f"{op[1] / 10:g}"}]
        req += LOOK
    out = web.browser().run(req)
    model = {"edited": False}
    before = look(out[1:5], model, "at the start")
    at, moved = 5, [False, False]
    for i, (op, edit) in enumerate(ops):
        when = f"after step {i + 1} {op}"
        if edit is None:
            s = next(s for s in out[at + 1] if s["id"] == DISPLAY)
            if [float(t) for t in s["texts"]] != [float(s["value"])]:
                raise Violation(f"the slider stands at {s['value']} while dragged, beside it is written {s['texts']} {when}")
            at += 2
        model["edited"] |= bool(edit)
        shown = look(out[at + 1 : at + 5], model, when)
        at += 5
        if op[0] in ("display", "drag"):
            moved[model["edited"]] = True
        rec.nontrivial(shown != before or all(moved))
        before = shown
        rec.cls("edited" if model["edited"] else "not edited")
        rec.cls("step " + op[0])


frac = st.integers(0, 999)
op = st.one_of(
    st.tuples(st.sampled_from(["select", "box"]), st.integers(0, 2)), st.tuples(st.sampled_from(["single", "slider"]), st.integers(0, 7)),
    st.tuples(st.just("row"), st.integers(0, 2), frac, st.integers(0, 5)), st.tuples(st.sampled_from(["add", "delete"]), st.integers(0, 2), frac),
    st.tuples(st.sampled_from(["display", "display", "drag"]), st.integers(1, 50)), st.tuples(st.just("resize"), st.sampled_from([400, 899, 900, 1300])),
).map(list)
quiet = st.one_of(st.tuples(st.sampled_from(["display", "drag"]), st.integers(1, 50)), st.tuples(st.just("resize"), st.sampled_from([400, 1300]))).map(list)


@st.composite
def cases(draw):
    ops = draw(st.lists(quiet, max_size=3)) + draw(st.lists(op, min_size=1, max_size=10))
    return {"page": draw(st.sampled_from(sorted(PAGES))), "width": draw(st.sampled_from([400, 1200, 1200])), "ops": ops}


SUBS = [Sub("form", cases(), run, 400, 9000)]
