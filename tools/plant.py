"""plant.py SPEC.py [check ...]: builds a planted bug in a scratch copy and tries the checks on it.

SPEC.py sets ID, PROPERTY, NEEDS, BREAKS, EDITS = [(file, old, new)] and DEMO (the text of demo.py)."""
import json, os, shutil, subprocess, sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO, BASE = "/repo", "329b758"
spec = {}
exec(open(sys.argv[1]).read(), spec)
ID = spec["ID"]
copy = f"/tmp/plant-{ID}"
WEB = """
import html, json, os, re, subprocess
os.environ.update(DJANGO_SETTINGS_MODULE="engineering.settings")
import django, logging
from django.core.management import call_command
logging.disable(logging.CRITICAL)
django.setup()
call_command("migrate", verbosity=0)
from django.test import Client


def form(layers=({},), udls=({},), lls=({},), **more):
    out = {"slope-height": 3, "slope-angle": 40, "slope-length": 4, "watertable-water_depth": 1,
           "limits-left_x": 0, "limits-right_x": 50, "limits-left_x_right": 5, "limits-right_x_left": 5,
           "options-analysis_choice": "normal", "options-slope_choice": "angle", "options-critical_FOS": 1.5,
           "options-max_display_FOS": 2, "options-iterations": 500, "options-slices": 25}
    sets = {"material": (layers, dict(unit_weight=19, friction_angle=25, cohesion=3, depth_to_bottom=9, name="", color="")),
            "udl": (udls, dict(magnitude=0, offset=0, length=0, color="red")),
            "lineload": (lls, dict(magnitude=0, offset=0, color="blue"))}
    for p, (rows, default) in sets.items():
        out.update({p + "-TOTAL_FORMS": len(rows), p + "-INITIAL_FORMS": 0})
        for i, r in enumerate(rows):
            out.update({f"{p}-{i}-{k}": v for k, v in {**default, **r}.items()})
    out.update(more)
    return out


def embedded(response, name):
    t = re.search('<script id="%s"[^>]*>(.*?)</script>' % name, response.content.decode(), re.S).group(1)
    return json.loads(t)

"""
JS = """
def browser(*requests):
    p = subprocess.run(["node", os.path.join(os.path.dirname(os.path.abspath(__file__)), "page.js"), os.getcwd()],
                       input=json.dumps(requests) + "\\n", capture_output=True, text=True)
    out = json.loads(p.stdout)
    assert all("ok" in o for o in out) and len(out) == len(requests), out
    return [o["ok"] for o in out]

"""
run = lambda *a, **k: subprocess.run(a, text=True, capture_output=True, **k)
if os.path.exists(copy):
    shutil.rmtree(copy)
shutil.copytree(REPO, copy, symlinks=True)
try:
    for path, old, new in spec["EDITS"]:
        p = os.path.join(copy, path)
        text = open(p).read()
        if text.count(old) != 1:
            sys.exit(f"{path}: {text.count(old)} times: {old!r}")
        lo = text[: text.index(old)].count("\n")
        blame = run("git", "-C", REPO, "blame", "-s", "HEAD", "--", path).stdout.split("\n")
        mine = [b for b in blame[lo : lo + old.count("\n") + 1] if not b.startswith("^" + BASE) and not b.startswith(BASE)]
        if mine and old.strip():
            print("note: lines of later commits:", *mine, sep="\n  ")
        open(p, "w").write(text.replace(old, new))
    diff = run("git", "-C", copy, "diff").stdout
    out = os.path.join(V, "seeded", ID)
    os.makedirs(out, exist_ok=True)
    open(os.path.join(out, "patch.diff"), "w").write(diff)
    demo = spec["DEMO"]
    ext = spec.get("EXT", "py")
    if spec.get("WEB"):
        demo = WEB + demo
    if spec.get("JS"):
        demo = WEB + JS + demo
        for f in ("page.js", "dom.js"):
            shutil.copy(os.path.join(V, "lib", "js", f), out)
    open(os.path.join(out, f"demo.{ext}"), "w").write(demo.lstrip("\n"))
    start = {"py": "/opt/venv/bin/python", "js": "node", "mjs": "node"}[ext]
    open(os.path.join(out, "demo.sh"), "w").write(
        f'#!/bin/bash\n# exit 0 when the property holds, run with cwd /repo\nexport PYTHONDONTWRITEBYTECODE=1 SECRET_KEY=demo DATABASE_URL=sqlite://:memory: PYTHONPATH="$PWD"\nexec {start} "$(dirname "$0")/demo.{ext}"\n'
    )
    json.dump({"property": spec["PROPERTY"], "needs": " ".join(spec["NEEDS"].split()), "what_it_breaks": " ".join(spec["BREAKS"].split())}, open(os.path.join(out, "meta.json"), "w"), indent=1)
    good = run("bash", os.path.join(out, "demo.sh"), cwd=REPO)
    bad = run("bash", os.path.join(out, "demo.sh"), cwd=copy)
    print("demo unchanged:", good.returncode, good.stderr[-800:] if good.returncode else "")
    print("demo patched:  ", bad.returncode, (bad.stdout + bad.stderr)[-300:].strip())
    env = dict(os.environ, SECRET_KEY="test-only", PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1")
    t = run("/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "--no-cov", "-x", cwd=copy, env=env)
    print("tests:", t.stdout.strip().split("\n")[-1])
    for c in sys.argv[2:] or [spec["PROPERTY"]]:
        r = run(os.path.join(V, "run.sh"), c, "quick", env=dict(os.environ, VERIF_REPO=copy, VERIF_NO_EVIDENCE="1"))
        lines = r.stdout.strip().split("\n")
        print(f"check {c}: exit {r.returncode};", " | ".join(l for l in lines if l)[-400:])
finally:
    shutil.rmtree(copy)
