"""C20: histories of two web sessions against a model that remembers the last submission of each."""
from core import Sub, Violation, Reject
from gen import *
from lines import *
from c18 import submission, library, compare, integral
import copy, figs, web, math

PROPERTY = "C20"
RULE = (
    "A case is a history of submissions (accepted and rejected, with and without planes below 5, up to 4000 planes, also ones "
    "that differ from the one before in a single value), page openings, resets and PDF exports in two sessions.  The model remembers per session the planes and figure of the last accepted submission; "
    "every submission is compared with the library, every opening has to show them with the submitted form values, every export hands exactly that figure plus the planes "
    "below the maximum to the image export.  Non-trivial: an opening or export after a submission, with another submission, "
    "session or rejected submission in between or a maximum that leaves planes out."
)
DEFAULT = None


def default_slope():
    """planes the page shows before anything is submitted"""
    global DEFAULT
    if DEFAULT is None:
        s = build({"h": 1, "angle": 45, "mats": [{"uw": 20, "phi": 35, "c": 2, "d": 5}], "opts": {"iterations": 500, "slices": 10}})
        s.analyse_slope(max_fos=5)
        DEFAULT = s
    return DEFAULT


class Model:
    def __init__(self):
        self.c = web.client()
        self.fields = None  # submitted form of the last accepted submission
        self.search = None
        self.figure = None
        self.opened = False

    def post(self, d, follow, rec):
        f = web.form(d)
        r = self.c.post("/", f)
        if r.status_code == 302:
            try:
                library(d)
            except (ValueError, ArithmeticError):
                pass
            else:
                if all(ok(v) for v in d["limits"]):
                    raise Violation("a valid submission is rejected")
            rec.cls("rejected")
            if follow:
                r = self.c.get(r["Location"])
                self.reset_state()
                self.open(rec)
            return
        if r.status_code != 200:
            raise Violation(f"a submission is answered with {r.status_code}: {r.exc_info and r.exc_info[1]!r}")
        page = web.Page(r.content.decode())
        self.fields, self.search, self.figure = f, page.search, page.figure
        self.opened = True
        self.check_fields(page)
        compare(page.search, page.figure, library(d)[0])

    def reset_state(self):
        self.fields = self.search = self.figure = None
        self.opened = False

    def reset(self, rec):
        r = self.c.get("/reset")
        if r.status_code != 302:
            raise Violation(f"reset is answered with {r.status_code}")
        self.reset_state()

    def open(self, rec):
        r = self.c.get("/")
        if r.status_code != 200:
            raise Violation(f"opening the page is answered with {r.status_code} {r.get('Location')}: {r.exc_info and r.exc_info[1]!r}")
        page = web.Page(r.content.decode())
        if self.fields is None:
            compare(page.search, page.figure, default_slope())
            want = {"slope-height": 1, "slope-angle": 45, "material-0-unit_weight": 20, "material-0-friction_angle": 35, "material-0-cohesion": 2, "material-0-depth_to_bottom": 5}
            for k, v in want.items():
                if float(page.fields.get(k, "nan")) != v:
                    raise Violation(f"the default page shows {page.fields.get(k)!r} for {k}, the default is {v}")
            if any(k in page.fields for k in ("watertable-consider_water", "limits-consider_limits")) or page.fields.get("material-TOTAL_FORMS") != "1":
                raise Violation("the default page is not the default model")
            self.search, self.figure, self.opened = page.search, page.figure, True
            rec.cls("default opened")
            return
        if page.search != self.search:
            raise Violation(f"opening the page again shows other planes ({len(page.search)} instead of {len(self.search)})")
        d = figs.dict_diff(self.figure, page.figure)
        if d:
            raise Violation(f"opening the page again shows another figure: {d}")
        self.check_fields(page)
        rec.cls("submission opened again")
        return True

    def check_fields(self, page):
        for k, v in self.fields.items():
            got = page.fields.get(k)
            if got is None or not (got == v or got.strip() == v.strip() or number(got) is not None and number(got) == number(v)):
                raise Violation(f"the page shows {got!r} for {k}, {v!r} was submitted")
        for k in page.fields:
            if k not in self.fields and not k.endswith("-id"):
                raise Violation(f"the page shows {page.fields[k]!r} for {k}, which was not submitted")

    def pdf(self, bound, given, rec):
        n = len(given)
        r = self.c.get(f"/pdf/{bound}")
        if not self.opened:
            if r.status_code != 302:
                raise Violation(f"a PDF without an analysis is answered with {r.status_code}")
            rec.cls("nothing to export")
            return
        if r.status_code != 200 or len(given) != n + 1:
            raise Violation(f"a PDF with maximum {bound} is answered with {r.status_code} {r.get('Location')}: {r.exc_info and r.exc_info[1]!r}")
        fig, kw = given[-1]
        if kw.get("format") != "pdf":
            raise Violation(f"the export has the format {kw.get('format')}")
        got = figs.as_dict(fig)
        base = figs.plain(self.figure)
        n = len(base["data"])
        import plotly.graph_objects as go

        want = [p for p in self.search if p["FOS"] < bound]
        new = got["data"][n:]
        if len(new) != len(want):
            raise Violation(f"the PDF shows {len(new)} planes, {len(want)} of {len(self.search)} lie below {bound}")
        d = figs.dict_diff(figs.as_dict(go.Figure(self.figure))["data"], got["data"][:n])
        lay = figs.as_dict(go.Figure(self.figure))["layout"]
        d = d or figs.dict_diff({k: lay.get(k) for k in ("shapes", "annotations")}, {k: got["layout"].get(k) for k in ("shapes", "annotations")})
        if d:
            raise Violation(f"the PDF does not show the last figure: {d}")
        legend = legend_of(fig)
        if legend is None and self.fields is not None and any(t.get("fill") for t in base["data"]):
            raise Violation("the exported figure has no legend")
        colors = legend or SCALE()
        for t, p in zip(new, reversed(want)):
            what = f"the exported line of the plane with {p['FOS']}"
            if abs(float(t["meta"][0]) - p["FOS"]) > 0.00050001:
                raise Violation(f"{what} shows the value {t['meta']}")
            check_line(list(zip(t["x"], t["y"])), p, what, 0.0015)
            if norm(t["line"]["color"]) not in legend_colors(colors, p["FOS"], 1e-9):
                raise Violation(f"{what} is drawn in {t['line']['color']}, the legend shows {legend_colors(colors, p['FOS'], 1e-9)}")
        rec.cls("exported")
        return len(want) < len(self.search) and bool(want)


_scale = []


def SCALE():
    if not _scale:
        _scale.append(legend_of(default_slope().plot_boundary(material_table=False, legend=True)))
    return _scale[0]


def number(v):
    try:
        return float(v)
    except ValueError:
        return None


def ok(v):
    return v != "" and number(v) is not None


def twin(d, u, v):
    """the same submission but for one value"""
    d = copy.deepcopy(d)
    places = [(d, k) for k in ("height", "angle", "length", "by", "analysis", "critical", "display", "slices", "use_water", "water", "use_limits", "use_inner")]
    places += [(r, k) for name in ("materials", "udls", "lls") for r in d[name] for k in r]
    r, k = places[int(u * len(places)) % len(places)]
    x = r[k]
    if isinstance(x, bool):
        r[k] = not x
    elif k in ("by", "analysis"):
        r[k] = {"angle": "length", "length": "angle", "normal": "dynamic", "dynamic": "normal"}[x]
    elif k == "color":
        r[k] = "#%06x" % int(v * 0xFFFFFF)
    elif k == "name":
        r[k] = f"Silt {int(v * 100)}"
    elif k == "slices":
        r[k] = 10 + int(v * 20)
    else:
        x = float(x)
        r[k] = round(x * (0.8 + 0.4 * v), 2) if x else round(v, 2)
        if k == "display":
            r[k] = min(5, max(0.1, round(r[k], 1)))
    return d


def run(case, rec):
    sessions = [Model(), Model()]
    last = [None]
    hard, changes = False, 0
    with web.pdf_figures() as pdf:
        for op in case["ops"]:
            m = sessions[op[0]]
            if op[1] == "post":
                m.post(op[2], op[3], rec)
                last.append(op[2])
                changes += 1
            elif op[1] == "twin":
                if last[-1] is not None:
                    last.append(twin(last[-1], op[2], op[3]))
                    m.post(last[-1], op[4], rec)
                    rec.cls("the last submission but for one value")
                    changes += 1
            elif op[1] == "open":
                again = m.open(rec)
                hard |= bool(again) and changes >= 2
            elif op[1] == "reset":
                m.reset(rec)
                changes += 1
            else:
                bound = op[2]
                if m.search and op[3]:
                    fs = sorted(p["FOS"] for p in m.search)
                    # a value between, or exactly at, two of the planes
                    k = int(bound / 5.0001 * min(len(fs), 40))
                    bound = fs[k] if op[3] == "at" else round(fs[k], 1)
                elif m.search and not case.get("all"):
                    # few enough planes to export
                    bound = min(bound, sorted(p["FOS"] for p in m.search)[min(60, len(m.search) - 1)])
                hard |= bool(m.pdf(bound, pdf.given, rec))
    rec.nontrivial(hard)


@st.composite
def post(draw):
    d = draw(submission(sure=draw(st.integers(0, 3)) > 0))
    d["iterations"], d["slices"] = draw(st.sampled_from([500] * 9 + [1250, 2500, 4000])), 10
    d["materials"] = d["materials"][:3]
    if d["materials"] and draw(st.integers(0, 7)) == 0:
        # so strong that no plane lies below 5
        for m in d["materials"]:
            m["cohesion"] = 5000
    elif d["materials"] and draw(st.integers(0, 5)) == 0:
        # around and above 5; a dynamic analysis keeps the planes above 5
        k = draw(num(0.5, 3))
        for m in d["materials"]:
            m["cohesion"] = round(20 * d["height"] * k, 2)
        d["analysis"], d["lls"] = "dynamic", [{"magnitude": 10, "offset": 0, "color": "blue", "dynamic_offset": True}]
    return d


@st.composite
def history(draw):
    ops = []
    for i in range(draw(st.integers(2, 7))):
        who = draw(st.sampled_from([0, 0, 0, 1]))
        k = draw(st.sampled_from(["post", "post", "post", "open"] if i == 0 else ["post", "twin", "twin", "open", "open", "pdf", "pdf", "pdf", "reset"]))
        if k == "post":
            ops.append([who, "post", draw(post()), draw(st.booleans())])
        elif k == "twin":
            ops.append([who, "twin", draw(unit), draw(unit), draw(st.booleans())])
        elif k == "pdf":
            ops.append([who, "pdf", draw(num(0, 5)), draw(st.sampled_from([None, "at", "near"]))])
        else:
            ops.append([who, k])
    return {"ops": ops, "all": draw(st.integers(0, 4)) == 0}


SUBS = [Sub("sessions", history(), run, 120, 5000)]
