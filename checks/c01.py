"""C01: every reported factor of safety against an independent Bishop calculation."""
from core import Sub, Violation
from gen import *

PROPERTY = "C01"
RULE = (
    "A case is a slope (layers, loads, water, slices, tolerance, iteration limit) and up to 12 circles of five "
    "families (entry-exit, face, toe, crest-face, free).  Every circle is analysed by the code and by the scalar "
    "reference; circles where a 2e-7 m perturbation changes the reference by more than 2e-5 (a slice edge on a load "
    "or layer, a vanishing denominator) are excluded and counted.  Non-trivial: at least one circle with a factor of "
    "safety was compared on a slope with two layers, a load or water.  A second kind of case puts a line load exactly "
    "where two slices meet: the result must be the one with the load on either of them (not on both or on none); "
    "non-trivial if that makes a difference."
)


@st.composite
def _opts(draw):
    o = draw(options())
    k = draw(st.integers(0, 3))
    if k == 0:
        o.update(tolerance=1e-9, max_iterations=200)
    elif k == 1:
        o["tolerance"] = draw(st.sampled_from([0.1, 0.05, 0.01, 0.001, 1e-5, 0]))
        o["max_iterations"] = draw(st.integers(1, 40))
    elif k == 2:
        o["max_iterations"] = draw(st.integers(1, 6))
    return o


@st.composite
def case(draw):
    spec = draw(slope(opts=_opts()))
    if draw(st.integers(0, 4)) == 0:
        # the outer parts of the domains
        for m in spec["mats"]:
            k = draw(st.integers(0, 3))
            if k == 0:
                m["phi"] = draw(st.one_of(num(50, 89, 1), num(50, 89.9)))
            elif k == 1:
                m["c"] = draw(num(30, 3000))
            elif k == 2:
                m["uw"], m["c"] = draw(st.sampled_from([1, 50])), draw(st.sampled_from([0, 1e-3, 1]))
        for u in spec["udls"]:
            u["q"] = draw(st.one_of(st.just(u["q"]), num(100, 5000)))
        for p in spec["lls"]:
            p["p"] = draw(st.one_of(st.just(p["p"]), num(100, 5000)))
    return {"slope": spec, "circles": draw(st.lists(circle_params(), min_size=6, max_size=12))}


@st.composite
def many_slices(draw):
    c = draw(case())
    c["slope"]["opts"]["slices"] = draw(st.sampled_from([100, 250, 499, 500, 501, 9, 1, 10, 11]))
    c["circles"] = c["circles"][:3]
    return c


def run(case, rec):
    ref = Ref(case["slope"])
    circles = circles_of(ref, case["circles"])
    if not circles:
        return
    s = build(case["slope"])
    for c in circles:
        s.add_single_circular_plane(*c)
    s.analyse_slope()
    got = {}
    for cx, cy, r, f in results(s):
        got.setdefault((cx, cy, r), f)
    if all(len(p) < 2 or m < 5e-7 for p, m in map(lambda c: ref.crossings(*c), circles)):
        # possibly no plane was added at all: then the whole slope is searched instead
        rec.exclude("no circle cuts the slope")
        return
    if not set(got) <= set(circles):
        raise Violation(f"results for circles that were not asked for: {set(got) - set(circles)}")
    interesting = len(ref.layers) > 1 or ref.udls or ref.lls or ref.w_rl
    compared = 0
    for c in circles:
        pts, margin = ref.crossings(*c)
        if margin < 5e-7:
            rec.exclude("circle touches a ground corner")
            continue
        state, f = ref.robust_fos(*c)
        if state != "ok":
            rec.exclude("circle sensitive to 2e-7 m")
            continue
        g = got.get(c)
        if f is None:
            rec.cls("undefined: does not cut" if len(pts) < 2 else "undefined: no driving moment")
            if g is not None:
                raise Violation(f"circle {c}: reported {g}, but the method gives no factor of safety")
            continue
        if g is None:
            raise Violation(f"circle {c}: no factor of safety reported, expected {f}")
        if not abs(g - f) <= 1e-6 * max(1.0, abs(f)):
            raise Violation(f"circle {c}: reported {g}, independent calculation {f}")
        rec.cls("compared")
        compared += 1
        sl = ref.slices_of(*c)
        if len({x[3:5] for x in sl}) > 1:
            rec.cls("compared: base in several layers")
        if any(x[2] > 0 for x in sl):
            rec.cls("compared: with water pressure")
        x0, x1 = pts[0][0], pts[1][0]
        if any(x0 < x < x1 for x, _ in ref.lls) or any(min(x1, b) > max(x0, a) for a, b, _ in ref.udls):
            rec.cls("compared: loaded")
    rec.nontrivial(compared and interesting)


@st.composite
def on_edge(draw):
    """entry and exit at round coordinates, and a line load where two of the slices meet"""
    spec = draw(slope(ext=False, vertical=False, opts=_opts()))
    for u in spec.get("udls", []):
        u["o"], u["l"] = round(min(u["o"], 1), 1), round(min(u["l"] or 2, 2), 1)
    spec["lls"] = []
    n = draw(st.sampled_from([10, 12, 20, 25, 25, 30, 35, 40, 50, 60, 75]))
    spec["opts"]["slices"] = n
    return {"slope": spec, "circle": [draw(num(0, 1)), draw(num(0.02, 1)), draw(st.integers(1, 4))],
            "p": draw(num(20, 500, 1)), "ks": draw(st.lists(st.integers(0, n), min_size=3, max_size=5, unique=True)),
            "how": draw(st.integers(0, 2)), "round": draw(st.sampled_from([1, 1, 2]))}


def run_edges(case, rec):
    spec = case["slope"]
    ref = Ref(spec)
    u, v, j = case["circle"]
    top, n = ref.top, ref.slices
    xe = round(u * top[0], case["round"])
    xx = round(top[0] + v * (ref.ext_l - top[0]), case["round"])
    if not 0 <= xe < top[0] or not top[0] < xx <= ref.ext_l:
        rec.exclude("no such plane")
        return
    done = 0
    for k in case["ks"]:
        b = (xx - xe) / n
        x = [xe + k * b, xe + b / 2 + (k - 1) * b + b / 2, round(xe + k * b, 6)][case["how"]]
        o = top[0] - x
        if case["how"] == 2:
            o = round(o, 6)
        if o < 0 or o * 3 > ref.ext_l:
            rec.exclude("not on the crest")
            continue
        one = dict(spec, lls=[{"p": case["p"], "o": o}])
        ref1 = Ref(one)
        s = build(one)
        s.add_single_entry_exit_plane(xe, xx, j)
        s.analyse_slope()
        got = {(cx, cy, r): f for cx, cy, r, f in results(s)}
        if len(got) > 50:
            rec.exclude("no circle cuts the slope")
            continue
        for c, g in got.items():
            # on the slice to the left or to the right of the edge
            want = []
            for side in (-1, 1):
                r2 = Ref(one)
                r2.lls = [(ref1.lls[0][0] + side * 1e-5, ref1.lls[0][1])]
                state, f = r2.robust_fos(*c)
                if state != "ok":
                    rec.exclude("circle sensitive to 2e-7 m")
                    break
                want.append(f)
            else:
                if None in want:
                    rec.exclude("undefined on one side")
                    continue
                if not any(abs(g - f) <= 1e-6 * max(1.0, abs(f)) for f in want):
                    raise Violation(f"circle {c}, load {case['p']} at x = {ref1.lls[0][0]}, on the edge of slices {k} and {k + 1}: reported {g}, with the load on one of them {want[0]} or {want[1]}")
                done += abs(want[0] - want[1]) > 1e-5
    if done:
        rec.cls("compared: load on the edge of two slices", done)
    rec.nontrivial(done)


SUBS = [Sub("circles", case(), run, 4000, 100000), Sub("slices", many_slices(), run, 200, 4000),
        Sub("edges", on_edge(), run_edges, 400, 8000)]
