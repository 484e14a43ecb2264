"""C19: sequences of arbitrary requests against a model of what they may answer."""
from core import Sub, Violation, Reject
from gen import *
from c18 import submission, library, features
import web, math

PROPERTY = "C19"
RULE = (
    "A case is a sequence of 1 to 6 requests of one session: opening, reset, PDF with arbitrary maxima, other methods, and "
    "submissions in which up to four fields are replaced by arbitrary text, numbers of any size, left out or repeated, or "
    "with damaged row counts and bodies.  Every answer has to be a page, a PDF or a redirect; redirect targets are judged "
    "against a small model of the session, and submissions that are certainly invalid have to lead to the reset page.  "
    "Non-trivial: a damaged submission, or a PDF request whose answer depends on an earlier request."
)

NUMBERS = [
    "0", "-0", "-1", "1e308", "-1e308", "1e-308", "1e-9", "1e9", "89.9999", "90", "90.0001", "100", "180", "270", "360", "1e155", "1e200", "0.1",
    "50", "50.1", "49", "33", "1e20", "1e100", "1e-320", "999999999999", "0.30000000000000004", "+3", ".5", "5.", "1_0", "１２", "٣", " 7 ", "0x10", "1,5",
]
TEXT = ["", "abc", "nan", "inf", "-inf", "None", "null", "NaN", "<script>", "\u0000", "\ud800x".encode("utf-8", "ignore").decode(), "x" * 60, "true", "on", "🙂", "'", '"', "\\", "{{ 1 }}", "%s", "\n", "1;2", "red", "#123"]
value = st.one_of(
    st.sampled_from(NUMBERS), st.sampled_from(NUMBERS), st.sampled_from(TEXT), st.floats(allow_nan=True).map(repr),
    st.integers(-(10**25), 10**25).map(str), st.text(max_size=12),
)
INVALID = {"abc", "nan", "inf", "-inf", "None", "null", "NaN", "<script>", "'", "{{ 1 }}", "%s", "1;2", "0x10", "1,5", ""}
FLOATS = ("slope-height", "slope-angle", "slope-length", "watertable-water_depth", "limits-left_x", "limits-right_x", "limits-left_x_right", "limits-right_x_left")


def certainly_invalid(f, changed):
    """reasons why the forms or the model have to reject this submission"""
    for k in changed:
        v = f.get(k)
        last = k.rsplit("-", 1)[-1]
        if k in FLOATS and (v is None or v in INVALID):
            return f"{k} is {v!r}"
        if k.endswith(("-critical_FOS", "-iterations", "-slices", "-max_display_FOS")) and (v is None or v in INVALID):
            return f"{k} is {v!r}"
        if last in ("unit_weight", "friction_angle", "cohesion", "depth_to_bottom", "magnitude", "offset") and v in INVALID:
            return f"{k} is {v!r}"
        try:
            x = float(v)
        except (TypeError, ValueError):
            continue
        if k == "slope-height" and x <= 0 or k == "options-slices" and not 10 <= x <= 50 or k == "options-iterations" and not 500 <= x <= 5000:
            return f"{k} is {v!r}"
        if k == "slope-angle" and f.get("options-slope_choice") == "angle" and not 0 < x <= 90:
            return f"{k} is {v!r}"
        if last == "unit_weight" and not 1 <= x <= 50 or last == "friction_angle" and x < 0:
            return f"{k} is {v!r}"
        if k == "watertable-water_depth" and f.get("watertable-consider_water") == "on" and x < 0:
            return f"{k} is {v!r}"
    return None


class Session:
    """what a session may answer"""

    def __init__(self):
        self.c = web.client()
        self.analysed = False

    def ok(self, r, what):
        if r.status_code >= 500 or r.status_code in (404, 405, 400, 403):
            raise Violation(f"{what} is answered with {r.status_code}: {r.exc_info and r.exc_info[1]!r}")
        if r.status_code not in (200, 301, 302):
            raise Violation(f"{what} is answered with {r.status_code}")
        return r

    def to(self, r, target, what):
        if r.status_code != 302 or r["Location"] != target:
            raise Violation(f"{what} is answered with {r.status_code} {r.get('Location')}, expected a redirect to {target}")


def run(case, rec):
    s = Session()
    hard = False
    with web.pdf_figures() as pdf:
        for q in case["requests"]:
            if q[0] == "open":
                r = s.ok(s.c.get("/" + q[1]), f"GET /{q[1]}")
                if r.status_code != 200:
                    raise Violation(f"opening the page leads to {r.get('Location')}")
                s.analysed = True
            elif q[0] == "reset":
                s.to(s.ok(s.c.get("/reset"), "GET /reset"), "/", "reset")
                s.analysed = False
            elif q[0] == "pdf":
                from urllib.parse import quote

                if not q[1].strip() or "/" in q[1] or q[1] in (".", ".."):
                    continue
                what = f"a PDF with maximum {q[1]!r} {'after' if s.analysed else 'without'} an analysis"
                r = s.ok(s.c.get("/pdf/" + quote(q[1])), what)
                try:
                    x = float(q[1])
                except ValueError:
                    x = None
                if x is None or not s.analysed:
                    s.to(r, "/", what)
                elif r.status_code != 200 or r["Content-Type"] != "application/pdf" or not pdf.given:
                    raise Violation(f"{what} is answered with {r.status_code} {r.get('Content-Type')} {r.get('Location')}")
                hard = hard or s.analysed or x is not None
                rec.cls("pdf exported" if r.status_code == 200 else "pdf refused")
            elif q[0] == "method":
                r = s.c.generic(q[1], q[2])
                s.ok(r, f"{q[1]} {q[2]}")
                if q[2] == "/reset":
                    s.analysed = False
                elif q[2] == "/" and q[1] != "GET":
                    s.to(r, "/reset", f"{q[1]} /")
            elif q[0] == "raw":
                r = s.ok(s.c.generic("POST", "/", q[1], content_type=q[2]), f"a body {q[1][:30]!r} of type {q[2]}")
                s.to(r, "/reset", f"a body {q[1][:30]!r} of type {q[2]}")
            else:
                d, changes, follow = q[1], q[2], q[3]
                f = web.form(d)
                keys = sorted(f)
                changed = []
                for k, v in changes:
                    k = keys[int(k * len(keys)) % len(keys)]
                    changed.append(k)
                    if v is None:
                        f.pop(k, None)
                    else:
                        f[k] = v
                what = f"a submission with {({k: f.get(k) for k in changed})}"
                r = s.ok(s.c.post("/", f), what)
                why = certainly_invalid(f, changed)
                if why:
                    s.to(r, "/reset", f"a submission in which {why}")
                if r.status_code == 302 and r["Location"] != "/reset":
                    raise Violation(f"{what} leads to {r['Location']}")
                if r.status_code == 200:
                    page = web.Page(r.content.decode())
                    page.search, page.figure
                    s.analysed = True
                    rec.cls("submission analysed")
                    if not changed:
                        hard = True
                else:
                    rec.cls("submission rejected")
                    if not changed:
                        try:
                            [float(v) for v in d["limits"]]  # hidden fields have to be numbers as well
                            library(d)
                        except ValueError:
                            pass
                        except ArithmeticError:
                            pass
                        else:
                            raise Violation("a valid submission is rejected")
                    if follow:
                        r = s.ok(s.c.get(r["Location"]), "the reset page")
                        s.to(r, "/", "reset")
                        s.analysed = False
                hard = hard or bool(changed)
    rec.nontrivial(hard)


@st.composite
def small(draw, sure):
    d = draw(submission(sure=sure))
    d["iterations"], d["slices"] = 500, 10
    d["materials"] = d["materials"][:2]
    if sure and draw(st.integers(0, 3)) == 0:
        # as safe as a dynamic analysis reports, which has no maximum
        k = draw(st.one_of(num(0.3, 3), num(0, 100)))
        for m in d["materials"]:
            m["cohesion"] = round(20 * d["height"] * k, 2)
        d["analysis"] = draw(st.sampled_from(["dynamic", "dynamic", "normal"]))
    return d


change = st.tuples(unit, st.one_of(value, value, value, st.none())).map(list)
maximum = st.one_of(
    st.sampled_from(["0", "2", "5", "1.05", "-1", "abc", "nan", "inf", "1e400", "5.0", "1_0", "٣", "2,5", "%", "..", "a b", "1;2", "None", "5.1", "6", "20", "1e9"]), value,
)
request = st.one_of(
    st.tuples(st.just("open"), st.sampled_from(["", "", "?x=1", "?slope-height=-1"])),
    st.tuples(st.just("reset")),
    st.tuples(st.just("pdf"), maximum),
    st.tuples(st.just("method"), st.sampled_from(["HEAD", "PUT", "DELETE", "OPTIONS", "PATCH", "POST"]), st.sampled_from(["/", "/reset", "/pdf/2"])),
    st.tuples(
        st.just("raw"), st.sampled_from(["", "{}", "a=b", "slope-height=3", "\u0000", "=&=&", "%%%", "material-TOTAL_FORMS=3", "a" * 5000]),
        st.sampled_from(["application/x-www-form-urlencoded", "application/json", "text/plain"]),
    ),
    st.tuples(st.just("post"), small(False), st.lists(change, max_size=4), st.booleans()),
    st.tuples(st.just("post"), small(True), st.lists(change, min_size=1, max_size=2), st.booleans()),
    st.tuples(st.just("post"), small(True), st.lists(change, min_size=1, max_size=2), st.booleans()),
)
exported = st.tuples(st.tuples(st.just("post"), small(True), st.just([]), st.booleans()), st.tuples(st.just("pdf"), maximum))
requests = st.builds(
    lambda r: {"requests": [list(x) for y in r for x in (y if isinstance(y[0], tuple) else [y])]}, st.lists(st.one_of(*[request] * 5, exported), min_size=1, max_size=6)
)

SUBS = [Sub("requests", requests, run, 280, 15000)]
