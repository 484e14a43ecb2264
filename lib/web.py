"""Driving the Django application in-process, on a database in memory."""
import os, json, re, html, logging
from html.parser import HTMLParser
import core  # noqa: F401  (paths)

_ready = False


def setup():
    """once per process"""
    global _ready
    if _ready:
        return
    os.environ["SECRET_KEY"] = "generated-input checks"
    os.environ["DATABASE_URL"] = "sqlite://:memory:"
    os.environ["DJANGO_SETTINGS_MODULE"] = "engineering.settings"
    os.environ.pop("DJANGO_DEBUG", None)
    import django
    from django.core.management import call_command

    logging.disable(logging.CRITICAL)
    django.setup()
    call_command("migrate", verbosity=0)
    _ready = True


def client():
    setup()
    from django.test import Client

    return Client(HTTP_HOST="127.0.0.1", raise_request_exception=False)


class pdf_figures:
    """stands in for the image export (needs a browser) and keeps what it was given"""

    def __enter__(self):
        import plotly.graph_objects as go
        import plotly.basedatatypes as bd

        self.given = []
        self.old = bd.BaseFigure.to_image
        given = self.given

        def to_image(fig, *a, **kw):
            given.append((fig, kw))
            return b"%PDF-1.4 stand-in"

        bd.BaseFigure.to_image = to_image
        return self

    def __exit__(self, *a):
        import plotly.basedatatypes as bd

        bd.BaseFigure.to_image = self.old


# --- the page -------------------------------------------------------------------
class Page(HTMLParser):
    """embedded JSON and form values of a response"""

    def __init__(self, text):
        super().__init__()
        self.scripts, self.fields, self.order = {}, {}, []
        self._id = self._select = self._area = None
        self.feed(text)

    def handle_starttag(self, tag, attrs):
        a = dict(reversed(attrs))  # the first of repeated attributes counts
        if tag == "script":
            self._id = a.get("id")
            if self._id:
                self.scripts[self._id] = ""
        elif tag == "input" and a.get("name"):
            if a.get("type") == "checkbox":
                if "checked" in a:
                    self.add(a["name"], a.get("value", "on"))
                else:
                    self.order.append(a["name"])
            else:
                self.add(a["name"], a.get("value", ""))
        elif tag == "select":
            self._select = a.get("name")
        elif tag == "option" and self._select and "selected" in a:
            self.add(self._select, a.get("value", ""))

    def add(self, k, v):
        if k != "csrfmiddlewaretoken":
            self.fields[k] = v
            self.order.append(k)

    def handle_endtag(self, tag):
        if tag == "script":
            self._id = None
        elif tag == "select":
            self._select = None

    def handle_data(self, data):
        if self._id:
            self.scripts[self._id] += data

    def json(self, key):
        return json.loads(self.scripts[key])

    @property
    def search(self):
        return self.json("search")

    @property
    def figure(self):
        return json.loads(self.json("plot_json"))


def form(d):
    """the POST data of a form description (see gen in c18)"""
    out = {
        "slope-height": d["height"], "slope-angle": d["angle"], "slope-length": d["length"],
        "options-analysis_choice": d["analysis"], "options-slope_choice": d["by"], "options-critical_FOS": d["critical"],
        "options-max_display_FOS": d.get("display", 2.0), "options-iterations": d["iterations"], "options-slices": d["slices"],
        "watertable-water_depth": d["water"], "limits-left_x": d["limits"][0], "limits-left_x_right": d["limits"][1],
        "limits-right_x_left": d["limits"][2], "limits-right_x": d["limits"][3],
    }
    for key, name in (("use_water", "watertable-consider_water"), ("use_limits", "limits-consider_limits"), ("use_inner", "limits-consider_internal_limits")):
        if d.get(key):
            out[name] = "on"
    for prefix, rows in (("material", d["materials"]), ("udl", d["udls"]), ("lineload", d["lls"])):
        out.update({f"{prefix}-TOTAL_FORMS": len(rows), f"{prefix}-INITIAL_FORMS": 0, f"{prefix}-MIN_NUM_FORMS": 0, f"{prefix}-MAX_NUM_FORMS": 1000})
        for i, r in enumerate(rows):
            for k, v in r.items():
                if k == "dynamic_offset":
                    if v:
                        out[f"{prefix}-{i}-{k}"] = "on"
                else:
                    out[f"{prefix}-{i}-{k}"] = v
    return {k: (v if isinstance(v, str) else repr(v)) for k, v in out.items()}


# --- the scripts of the page -------------------------------------------------------
class Browser:
    """a node process that runs the page's scripts on a small document model"""

    def __init__(self):
        import subprocess

        self.p = subprocess.Popen(
            ["node", os.path.join(os.path.dirname(os.path.abspath(__file__)), "js", "page.js"), core.REPO],
            stdin=subprocess.PIPE, stdout=subprocess.PIPE, text=True, encoding="utf-8",
        )

    def run(self, requests):
        """answers of the requests; a script error is a Violation"""
        self.p.stdin.write(json.dumps(requests) + "\n")
        self.p.stdin.flush()
        line = self.p.stdout.readline()
        if not line:
            raise RuntimeError("the node process ended")
        out = json.loads(line)
        if out and "harness" in out[-1]:
            raise RuntimeError(out[-1]["harness"])
        if len(out) < len(requests) or "error" in out[-1]:
            raise core.Violation(f"script error in step {len(out)} ({requests[len(out) - 1]['do']}): {out[-1].get('error')} {out[-1].get('stack')}")
        return [o["ok"] for o in out]


_browser = []


def browser():
    pid = os.getpid()
    if not _browser or _browser[0] != pid or _browser[1].p.poll() is not None:
        _browser[:] = [pid, Browser()]
    return _browser[1]


_pages = {}


def default_page():
    if "default" not in _pages:
        _pages["default"] = client().get("/").content.decode()
    return _pages["default"]


def rows_page(n_mat, n_udl, n_ll):
    """the page after a submission with so many rows"""
    key = (n_mat, n_udl, n_ll)
    if key not in _pages:
        d = dict(height=3, angle=40, length=4, analysis="normal", by="angle", critical=1.5, iterations=500, slices=10, water=1, limits=[0, 4, 6, 8])
        d["materials"] = [dict(unit_weight=18 + i, friction_angle=30 + i, cohesion=2 + i, depth_to_bottom=1 + i, name=f"Layer {i}", color="") for i in range(n_mat)]
        d["udls"] = [dict(magnitude=0, offset=i, length=i, color="red", dynamic_offset=i % 2 == 1) for i in range(n_udl)]
        d["lls"] = [dict(magnitude=0, offset=i, color="blue", dynamic_offset=i % 2 == 0) for i in range(n_ll)]
        r = client().post("/", form(d))
        if r.status_code != 200:
            raise core.Violation(f"a valid submission is answered with {r.status_code}")
        _pages[key] = r.content.decode()
    return _pages[key]
