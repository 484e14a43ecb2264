"""C12: normalisation of inputs and clamping of options."""
from core import Sub, Violation, Reject
from gen import *
import figs, re, random

PROPERTY = "C12"
RULE = (
    "signs: a slope built from signed inputs (and with loads of magnitude 0 mixed in) against the same slope from "
    "absolute values: attributes, printed forms, outline, drawing, analysis.  options: a sequence of option updates, with "
    "values in and out of range, against one update with the clamped, merged values.  colours: usable and unusable colour "
    "strings.  defaults: constructors, options, planes, analyses and drawings with arguments left out or given by position "
    "against the same with every documented default spelled out by name.  Non-trivial: at least one negative value or zero load (signs), an out-of-range or partial update with "
    "planes compared (options), an unusable or unusual colour (colours)."
)


def same_results(a, b, what):
    a.analyse_slope()
    b.analyse_slope()
    ra, rb = results(a), results(b)
    if len(ra) != len(rb):
        raise Violation(f"{what}: {len(ra)} planes, expected {len(rb)}")
    for p, q in zip(sorted(ra), sorted(rb)):
        if not figs.same_numbers(p, q):
            raise Violation(f"{what}: plane {p}, expected {q}")
    return len(ra)


def number_in(text):
    return [float(v) for v in re.findall(r"(?<![A-Za-z_])-?\d+\.?\d*(?:e[-+]?\d+)?", text)]


def check_repr(obj, want, what):
    got = number_in(repr(obj))
    if len(got) != len(want) or any(abs(g - w) > 1e-9 * max(1, abs(w)) for g, w in zip(got, want)):
        raise Violation(f"{what} prints {obj!r}, stored values are {want}")


def run_signs(case, rec):
    from pyslope.pyslope import Material, Udl, LineLoad

    spec, sg = case["slope"], case["signs"]
    sign = lambda k: -1 if sg[k % len(sg)] else 1
    k = 0
    mats, udls, lls = [], [], []
    neg = False
    for m in spec["mats"]:
        c, d = m["c"] * sign(k), m["d"] * sign(k + 1)
        k += 2
        neg |= c < 0 or d < 0
        o = Material(unit_weight=m["uw"], friction_angle=m["phi"], cohesion=c, depth_to_bottom=d, name=case["name"])
        if (o.unit_weight, o.friction_angle, o.cohesion, o.depth_to_bottom) != (m["uw"], m["phi"], abs(c), abs(d)):
            raise Violation(f"Material(uw={m['uw']}, phi={m['phi']}, c={c}, d={d}) stores {vars(o)}")
        t = repr(o)
        if case["name"] and case["name"] not in t:
            raise Violation(f"material named {case['name']!r} prints {t}")
        check_repr(Material(unit_weight=m["uw"], friction_angle=m["phi"], cohesion=c, depth_to_bottom=d), [m["uw"], m["phi"], abs(c), abs(d)], "material")
        mats.append(o)
    for u in spec["udls"]:
        q, o, l = u["q"] * sign(k), u["o"] * sign(k + 1), u["l"]
        if l is not None:
            l = l * sign(k + 2)
        elif sign(k + 2) < 0:
            l = 0
        k += 3
        neg |= q < 0 or o < 0 or (l is not None and l <= 0)
        x = Udl(magnitude=q, offset=o, length=l)
        if (x.magnitude, x.offset, x.length) != (abs(q), abs(o), abs(l) if l else None):
            raise Violation(f"Udl(magnitude={q}, offset={o}, length={l}) stores {vars(x)}")
        check_repr(x, [abs(q), abs(o)] + ([abs(l)] if l else []), "uniform load")
        if (not l) != ("continuous" in repr(x)):
            raise Violation(f"Udl of length {l} prints {x!r}")
        udls.append(x)
    for p in spec["lls"]:
        q, o = p["p"] * sign(k), p["o"] * sign(k + 1)
        k += 2
        neg |= q < 0 or o < 0
        x = LineLoad(magnitude=q, offset=o)
        if (x.magnitude, x.offset) != (abs(q), abs(o)):
            raise Violation(f"LineLoad(magnitude={q}, offset={o}) stores {vars(x)}")
        check_repr(x, [abs(q), abs(o)], "line load")
        lls.append(x)
    for i, (kind, o) in enumerate(case["zeros"]):
        neg = True
        if kind == "udl":
            udls.insert(i % (len(udls) + 1), Udl(magnitude=0, offset=o, length=[None, 2, 50][i % 3]))
        else:
            lls.insert(i % (len(lls) + 1), LineLoad(magnitude=0, offset=o))
    plain = dict(spec, mats=[], udls=[], lls=[])
    s = build(plain)
    if case["single"]:
        for m in mats:
            s.set_materials(m)
        for u in udls:
            s.set_udls(u)
        for p in lls:
            s.set_lls(p)
    else:
        s.set_materials(*mats)
        s.set_udls(*udls)
        s.set_lls(*lls)
    t = build(spec) if not case["name"] else build(dict(spec, mats=[dict(m, name=case["name"]) for m in spec["mats"]]))
    h, L = spec["h"], Ref(spec).L
    a = number_in(repr(s).replace("V", " ").replace("H", " "))
    if len(a) != 2 or abs(a[0] - h) > 0.00051 or abs(a[1] - L) > 0.00051:
        raise Violation(f"slope {h} high and {L} long prints {s!r}")
    what = f"signs {sg} and loads without magnitude {case['zeros']}"
    if not figs.same_numbers((s.get_top_coordinates(), s.get_bottom_coordinates()), (t.get_top_coordinates(), t.get_bottom_coordinates())):
        raise Violation(f"{what}: crest and toe {s.get_top_coordinates()}, {s.get_bottom_coordinates()}, expected {t.get_top_coordinates()}, {t.get_bottom_coordinates()}")
    if case["figure"]:
        d = figs.diff(s.plot_boundary(), t.plot_boundary())
        if d:
            raise Violation(f"{what}: the drawing changes: {d}")
        rec.cls("drawings compared")
    n = same_results(s, t, what)
    rec.nontrivial(neg and n)


@st.composite
def signs_case(draw):
    spec = draw(slope(mats=(1, 3), n_udl=2, n_ll=2, vertical=False, opts=st.just({"slices": 10, "iterations": 500})))
    return {
        "slope": spec, "signs": draw(st.lists(st.booleans(), min_size=3, max_size=9)),
        "zeros": draw(st.lists(st.tuples(st.sampled_from(["udl", "ll"]), num(0, 90)).map(list), max_size=2)),
        "name": draw(st.sampled_from(["", "Clay", "Sand & gravel"])), "single": draw(st.booleans()),
        "figure": draw(st.sampled_from([True, False, False, False])),
    }


# -- options -------------------------------------------------------------------
def merged(ops, ext_l):
    o = {"slices": 25, "iterations": 1000, "min_failure_dist": 0, "tolerance": 0.005, "max_iterations": 15}
    for d in ops:
        for k, v in d.items():
            if v is None or (v == 0 and k in ("slices", "iterations")):
                continue
            if k == "slices":
                v = min(500, max(10, v))
            elif k == "iterations":
                v = min(100000, max(500, v))
            elif k == "min_failure_dist":
                v = min(v, 0.9 * ext_l)
            o[k] = v
    return o


def run_options(case, rec):
    spec = case["slope"]
    s = build(spec)
    ref = Ref(spec)
    for d in case["ops"]:
        s.update_analysis_options(**d)
    m = merged(case["ops"], ref.ext_l)
    t = build(spec)
    t.update_analysis_options(**m)
    for x in (s, t):
        if case["circles"]:
            for c in circles_of(ref, case["circles"]):
                x.add_single_circular_plane(*c)
    n = same_results(s, t, f"options {case['ops']} (merged and clamped: {m})")
    if case["circles"] and m["slices"] > 100:
        # the number of slices in force shows in the factors of safety
        r = Ref(dict(spec, opts=m))
        for cx, cy, rad, f in results(s)[:3]:
            state, want = r.robust_fos(cx, cy, rad)
            if state == "ok" and want is not None and abs(f - want) > 1e-6 * max(1.0, abs(want)):
                raise Violation(f"options {case['ops']} (merged and clamped: {m}): circle {(cx, cy, rad)}: reported {f}, independent calculation {want}")
            rec.cls("many slices compared with the reference")
    for d in case["ops"]:
        if set(d) != set(m):
            rec.cls("partial update")
        for k, v in d.items():
            if v is None:
                rec.cls(f"{k} None")
            elif k == "slices" and v and not 10 <= v <= 500 or k == "iterations" and v and not 500 <= v <= 100000 or k == "min_failure_dist" and v > 0.9 * ref.ext_l:
                rec.cls(f"{k} clamped")
    rec.nontrivial(n)
    # the clamped values must be in force: the number of planes tried follows from the iterations
    if not case["circles"] and m["iterations"] <= 5000 and n and m["min_failure_dist"] == 0:
        r = Ref(dict(spec, opts=m))
        left, right, nc = r.grid()
        if n > len(left) * len(right) * nc:
            raise Violation(f"{n} planes for {m['iterations']} iterations")


def s_has(s):
    return bool(s._individual_planes)


@st.composite
def options_case(draw):
    spec = draw(slope(mats=(1, 2), n_udl=1, n_ll=1, vertical=False, opts=st.just({})))
    sl = st.one_of(st.integers(-5, 15), st.integers(10, 40), st.sampled_from([None, 0, 1, 9, 10, 11, 499, 500, 501, 1000, -1]))
    it = st.one_of(st.sampled_from([None, 0, 1, 499, 500, 501, 800, 4001, -3]), st.integers(400, 1500))
    e = Ref(spec).ext_l
    d = st.one_of(st.none(), st.just(0), num(0, 0.5).map(lambda k: k * e), num(0.9, 3).map(lambda k: k * e))
    keys = {
        "slices": sl, "iterations": it, "min_failure_dist": d, "tolerance": st.sampled_from([None, 0.1, 0.005, 1e-6, 0]),
        "max_iterations": st.one_of(st.none(), st.integers(1, 30)),
    }
    circles = draw(st.one_of(st.just([]), st.lists(circle_params(("entry", "toe", "crest")), min_size=2, max_size=5)))
    if circles:
        del keys["iterations"]
    else:
        keys["slices"] = st.one_of(st.none(), st.integers(-5, 14), st.just(0))
    one = st.lists(st.sampled_from(sorted(keys)), min_size=1, max_size=3, unique=True).flatmap(
        lambda ks: st.fixed_dictionaries({k: keys[k] for k in ks})
    )
    ops = draw(st.lists(one, min_size=1, max_size=4))
    return {"slope": spec, "ops": ([] if circles else [{"iterations": 500, "slices": 10}]) + ops, "circles": circles}


def run_large(case, rec):
    """iterations beyond the maximum; only the longest planes are kept, which keeps the analysis small"""
    spec = dict(case["slope"])
    ref = Ref(spec)
    out = []
    for v in (case["iterations"], min(100000, max(500, case["iterations"]))):
        s = build(spec)
        s.update_analysis_options(slices=10, iterations=v, min_failure_dist=ref.ext_l)
        out.append(s)
    n = same_results(out[0], out[1], f"iterations={case['iterations']}")
    if case["iterations"] <= 100000:
        return
    # and not less than the maximum either
    m = Ref(dict(spec, opts={"iterations": 100000, "min_failure_dist": ref.ext_l}))
    left, right, nc = m.grid()
    long_pairs = sum(1 for l in left for r in right if ((l - r) ** 2 + (m.top[1] - (m.ground(r) or m.bot[1])) ** 2) ** 0.5 > m.min_dist + 1e-6)
    if n > (long_pairs + 2 * len(left)) * nc:
        raise Violation(f"{n} planes with iterations={case['iterations']}, at most {long_pairs} pairs of {nc} circles expected")
    rec.nontrivial(n)


def run_distance(case, rec):
    """minimum failure distance clamped to 90 % of the model length"""
    spec = dict(case["slope"], opts={"slices": 10, "iterations": 500})
    ref = Ref(spec)
    s, t = build(spec), build(spec)
    s.update_analysis_options(min_failure_dist=case["k"] * ref.ext_l)
    t.update_analysis_options(min_failure_dist=0.9 * ref.ext_l)
    n = same_results(s, t, f"min_failure_dist {case['k']} times the model length")
    for p in planes(s):
        a, b = p["l_c"], p["r_c"]
        if ((a[0] - b[0]) ** 2 + (a[1] - b[1]) ** 2) ** 0.5 < 0.9 * ref.ext_l - 1e-9:
            raise Violation(f"plane {a}-{b} is shorter than 90 % of {ref.ext_l}")
    rec.nontrivial(n)


def run_head(case, rec):
    spec = dict(case["slope"])
    ref = Ref(spec)
    circles = circles_of(ref, case["circles"])
    if not circles:
        return
    H = case["H"]
    out = []
    for v in (H, min(1, max(0, H))):
        s = build(dict(spec, H=None))
        for c in circles:
            s.add_single_circular_plane(*c)
        if not s_has(s):
            return
        s.update_water_analysis_options(auto=False, H=v)
        out.append(s)
    n = same_results(out[0], out[1], f"head factor {H}")
    # back to automatic
    s = out[0]
    s.update_water_analysis_options(auto=True)
    t = build(dict(spec, H=None))
    for c in circles:
        t.add_single_circular_plane(*c)
    same_results(s, t, "automatic head factor after a manual one")
    s.update_water_analysis_options(auto=False, H=H)
    s.update_water_analysis_options()
    same_results(s, t, "default head factor after a manual one")
    rec.nontrivial(n and (H < 0 or H > 1))


@st.composite
def head_case(draw):
    spec = draw(slope(mats=(1, 2), n_udl=1, n_ll=1, vertical=False, opts=st.just({"slices": 12})))
    spec["water"] = draw(num(0, 1).map(lambda k: round(k * spec["h"], 3)))
    spec["H"] = None
    return {"slope": spec, "circles": draw(st.lists(circle_params(("entry", "toe", "crest")), min_size=2, max_size=5)), "H": draw(st.one_of(num(-3, 0), num(1, 4), num(0, 1)))}


# -- colours ---------------------------------------------------------------------
GOOD = "red blue green pink orange purple yellow black white gray grey brown cyan magenta navy lime olive maroon salmon gold coral crimson indigo violet tan khaki orchid plum".split()
WRONG = [None, "", " ", "navyblue", "notacolor", "#12", "#ggg", "#12345", "#1234567", "12", "redd", "#", "rgb", "red blue", "#zzzzzz", "-"]


def run_colors(case, rec):
    from pyslope.pyslope import Slope, Udl, LineLoad, Material

    c, ok = case["color"], case["usable"]
    u, p, m = Udl(magnitude=3, color=c, length=1), LineLoad(magnitude=3, color=c), Material(color=c)
    want = (c, c) if ok else ("red", "blue")
    if (u.color, p.color) != want:
        raise Violation(f"loads of colour {c!r} get {(u.color, p.color)}, expected {want}")
    s = Slope(height=2, angle=40)
    s.set_materials(m)
    s.set_udls(u)
    s.set_lls(p)
    fig = figs.as_dict(s.plot_boundary(material_table=case["table"]))
    fill = [t.get("fillcolor") for t in fig["data"] if t.get("fill") == "toself"]
    if len(fill) != 1 or (fill[0] == c) != ok or not fill[0]:
        raise Violation(f"layer of colour {c!r} is drawn in {fill}")
    rec.cls("usable" if ok else "unusable")
    rec.nontrivial(not ok or c.startswith("#"))


hexa = st.text("0123456789abcdefABCDEF", min_size=6, max_size=6)
colors_case = st.one_of(
    st.builds(lambda c: {"color": c, "usable": True}, st.sampled_from(GOOD)),
    st.builds(lambda t, n: {"color": "#" + t[:n], "usable": True}, hexa, st.sampled_from([3, 6])),
    st.builds(lambda c: {"color": c, "usable": False}, st.sampled_from(WRONG)),
    st.builds(lambda t, n: {"color": "#" + t[:n], "usable": False}, hexa, st.sampled_from([1, 2, 4, 5])),
).flatmap(lambda d: st.booleans().map(lambda t: {**d, "table": t}))


@st.composite
def large_case(draw):
    spec = draw(slope(mats=(1, 1), n_udl=0, n_ll=0, vertical=False, opts=st.just({})))
    return {"slope": spec, "iterations": draw(st.sampled_from([100001, 100500, 125000, 160000, 1000000, 99999]))}


@st.composite
def distance_case(draw):
    spec = draw(slope(mats=(1, 2), n_udl=1, n_ll=1, vertical=False, opts=st.just({})))
    return {"slope": spec, "k": draw(st.one_of(num(0.9, 3), st.sampled_from([0.91, 0.95, 1.0, 10.0, 1000.0])))}


# -- arguments left out --------------------------------------------------------
SIGNATURES = {
    "slope": [("height", 1), ("angle", 30), ("length", None)],
    "material": [("unit_weight", 20), ("friction_angle", 35), ("cohesion", 2), ("depth_to_bottom", 5), ("name", ""), ("color", "")],
    "udl": [("magnitude", 0), ("offset", 0), ("length", None), ("color", "red"), ("dynamic_offset", False)],
    "ll": [("magnitude", 0), ("offset", 0), ("color", "blue"), ("dynamic_offset", False)],
    "options": [("slices", 25), ("iterations", 1000), ("min_failure_dist", 0), ("tolerance", 0.005), ("max_iterations", 15)],
    "head": [("auto", True), ("H", 1)],
    "plane": [("l_cx", None), ("r_cx", None), ("num_circles", 5)],
    "critical": [("critical_fos", 1.3)],
    "drawing": [("material_table", True), ("legend", False)],
    "all": [("max_fos", 5), ("material_table", True), ("legend", True)],
}


def both(kind, given):
    """the arguments as given and with the documented defaults spelled out"""
    names = [n for n, _ in SIGNATURES[kind]]
    full = dict(SIGNATURES[kind])
    if isinstance(given, list):
        full.update(zip(names, given))
        return given, {}, full
    full.update(given)
    return [], given, full


def run_defaults(case, rec):
    from pyslope.pyslope import Slope, Material, Udl, LineLoad

    a, k, full = both("slope", case["slope"])
    s, t = Slope(*a, **k), Slope(**full)

    def on_both(name, kind, given, make=None):
        a, k, full = both(kind, given)
        if make:
            x, y = make(*a, **k), make(**full)
            for key, v in full.items():
                if v != getattr(x, key) and not (key == "length" and not v and not getattr(x, key)):
                    raise Violation(f"{make.__name__}{tuple(a)}{k} has the {key} {getattr(x, key)!r}, documented is {v!r}")
            getattr(s, name)(x)
            getattr(t, name)(y)
            return
        out = []
        for o, args, kw in ((s, a, k), (t, [], full)):
            try:
                out.append(getattr(o, name)(*args, **kw))
            except ValueError as e:
                out.append("ValueError")
        return out

    what = f"{case} with arguments left out"
    if case["boundary"] is not None:
        on_both("set_external_boundary", "slope", case["boundary"])
    for m in case["mats"]:
        on_both("set_materials", "material", m, Material)
    for u in case["udls"]:
        on_both("set_udls", "udl", u, Udl)
    for p in case["lls"]:
        on_both("set_lls", "ll", p, LineLoad)
    if case["water"] is not None:
        s.set_water_table(case["water"])
        t.set_water_table(depth=case["water"])
    a, k, full = both("options", case["options"] or {})
    if case["options"] is not None:
        s.update_analysis_options(*a, **k)
    t.update_analysis_options(**full)
    a, k, full = both("head", case["head"] or {})
    if case["head"] is not None:
        s.update_water_analysis_options(*a, **k)
    t.update_water_analysis_options(**full)
    top, toe = s.get_top_coordinates()[0], s.get_bottom_coordinates()[0]
    if not figs.same_numbers((s.get_top_coordinates(), s.get_bottom_coordinates()), (t.get_top_coordinates(), t.get_bottom_coordinates())):
        raise Violation(f"{what}: crest and toe {s.get_top_coordinates()}, {s.get_bottom_coordinates()}, spelled out {t.get_top_coordinates()}, {t.get_bottom_coordinates()}")
    for x in case["planes"]:
        on_both("add_single_entry_exit_plane", "plane", [top * x[0], toe * (1 + 0.3 * x[1])] + x[2:])
    if case["limits"]:
        # outer limits first, then the inner ones
        v = [top * 0.25, toe * 1.2, top * 0.75, toe * 1.05][: case["limits"]]
        s.set_analysis_limits(*v)
        t.set_analysis_limits(**dict(zip(("left_x", "right_x", "left_x_right", "right_x_left"), v)))
    n = same_results(s, t, what)
    if case["planes"]:
        pairs = [on_both("plot_boundary", "drawing", {})]
        if n:
            pairs += [on_both("plot_critical", "drawing", case["drawing"]), on_both("plot_all_planes", "all", case["all"])]
        for f, g in pairs:
            d = figs.diff(f, g)
            if d:
                raise Violation(f"{what}: the drawing changes: {d}")
        rec.cls("drawings compared")
    if case["dynamic"] is not None and any(isinstance(o, dict) and o.get("dynamic_offset") and o.get("magnitude") for o in case["udls"] + case["lls"]):
        on_both("analyse_dynamic", "critical", case["dynamic"])
        x, y = s.get_dynamic_results(), t.get_dynamic_results()
        if not figs.same_numbers(sorted(x.items()), sorted(y.items())):
            raise Violation(f"{what}: dynamic results {x}, spelled out {y}")
        rec.cls(f"dynamic results compared: {len(x) > 2}")
    rec.nontrivial(n)


@st.composite
def defaults_case(draw):
    def some(kind, **values):
        names = [n for n, _ in SIGNATURES[kind] if n in values]
        if draw(st.integers(0, 3)) == 0:
            return [draw(values[n]) for n in names[: draw(st.integers(0, len(names)))]]
        return {n: draw(values[n]) for n in names if draw(st.booleans())}

    dims = dict(height=num(1, 9), angle=num(20, 80), length=num(1, 9))
    color = st.sampled_from(["green", "#123456", "tan"])
    name = st.sampled_from(["Clay", "Sand"])
    load = lambda **kw: dict(magnitude=num(1, 90), offset=num(0, 3), color=color, dynamic_offset=st.sampled_from([True, True, False]), **kw)
    mats = [some("material", unit_weight=num(14, 25), friction_angle=num(5, 40), cohesion=num(0, 20), depth_to_bottom=num(0.3, 12), name=name, color=color) for _ in range(draw(st.integers(1, 2)))]
    depth = lambda m: (m[3] if len(m) > 3 else 5) if isinstance(m, list) else m.get("depth_to_bottom", 5)
    if len(mats) == 2 and depth(mats[0]) == depth(mats[1]):
        mats.pop()
    return {
        "slope": some("slope", **dims), "boundary": some("slope", **dims) if draw(st.integers(0, 3)) == 0 else None,
        "mats": mats,
        "udls": [some("udl", **load(length=num(0.5, 5))) for _ in range(draw(st.integers(0, 2)))],
        "lls": [some("ll", **load()) for _ in range(draw(st.integers(0, 2)))],
        "water": draw(maybe(num(0, 5))),
        "options": None if draw(st.booleans()) else some("options", slices=st.integers(10, 40), iterations=st.integers(500, 1500), min_failure_dist=num(0, 2), tolerance=num(0.001, 0.1, 3), max_iterations=st.integers(1, 20)),
        "head": draw(st.sampled_from([None, None, [], {}, [True], [False], {"auto": False}, {"H": 0.3}, [False, 0.4]])),
        "planes": draw(st.lists(st.tuples(unit, unit).map(list), max_size=3).flatmap(lambda l: st.just([x + ([3] if i == 1 else []) for i, x in enumerate(l)]))),
        "limits": draw(st.sampled_from([0, 0, 1, 2, 3, 4])),
        "drawing": draw(st.sampled_from([{}, {"legend": True}, {"material_table": False}, [False], [False, True]])),
        "all": draw(st.sampled_from([{}, {"legend": False}, {"material_table": False}, [2], [2, False], {"max_fos": 3}])),
        "dynamic": draw(st.sampled_from([None, [], {}, {}, {}, [1.1]])),
    }


SUBS = [
    Sub("signs", signs_case(), run_signs, 350, 10000),
    Sub("options", options_case(), run_options, 300, 10000),
    Sub("distance", distance_case(), run_distance, 150, 4000),
    Sub("iterations", large_case(), run_large, 16, 400),
    Sub("head", head_case(), run_head, 300, 8000),
    Sub("colors", colors_case, run_colors, 160, 4000),
    Sub("defaults", defaults_case(), run_defaults, 120, 5000),
]
