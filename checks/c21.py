"""C21: metamorphic relations between factors of safety of the same circles."""
from core import Sub, Violation, Reject
from gen import *
from math import sin, cos, atan, degrees
import copy

PROPERTY = "C21"
RULE = (
    "A case is a slope, up to eight circles and a change of the model: more cohesion or friction of one layer, all strengths "
    "times a factor, water introduced or raised, a larger head factor, layers, loads or water split, reordered, or added and "
    "removed where no plane reaches.  Both models are analysed by the code with a tight tolerance and compared plane by "
    "plane.  The monotone relations are judged on planes whose slices all press on their base (decided with the scalar "
    "reference).  Non-trivial: a plane was judged whose factor of safety the change had to move, or a plane in a model with "
    "several layers or loads for the changes that have no effect."
)
TIGHT = {"tolerance": 1e-11, "max_iterations": 400}


def analysed(spec, circles):
    s = build(spec)
    for c in circles:
        s.add_single_circular_plane(*c)
    s.analyse_slope()
    return {(p["c_x"], p["c_y"], p["radius"]): p["FOS"] for p in planes(s)}


def pressed(ref, c, f, friction_of=None):
    """all slices press on their base at factor of safety f, and the method is well behaved there"""
    s = ref.slices_of(*c)
    if s is None or f is None or f <= 1e-3:
        return False
    for w, a, u, co, tp, b in s:
        m = cos(a) + sin(a) * tp / f
        if m < 0.1 or w - u * b < 0:
            return False
        if friction_of is not None and (co, tp) == friction_of and (w - u * b) * cos(a) - co * b * sin(a) / f < 0:
            return False
    return True


def change_spec(spec, ch):
    """(changed spec, relation) with relation 'up', 'down', ('times', k) or 'same'"""
    new = copy.deepcopy(spec)
    kind = ch[0]
    u, v = ch[1], ch[2]
    mats = new["mats"]
    if kind in ("cohesion", "friction"):
        m = mats[int(u * len(mats)) % len(mats)]
        if kind == "cohesion":
            m["c"] = m["c"] + 0.01 + 30 * v * v
        else:
            if m["phi"] >= 80:
                return None
            m["phi"] = min(85, m["phi"] + 0.01 + 25 * v * v)
        return new, "up"
    if kind == "strength":
        k = 0.3 + 2.5 * u
        if v < 0.3:
            k = 2.0
        for m in mats:
            m["c"] *= k
            m["phi"] = degrees(atan(k * tan(radians(m["phi"]))))
        return new, ("times", k)
    if kind == "water in":
        new["water"] = u * u * 2.5 * new["h"]
        return new, "down"
    if kind == "water up":
        new["H"] = 1
        new["water"] = new["water"] * u
        return new, "down"
    if kind == "head up":
        new["H"] = spec["H"] + (1 - spec["H"]) * u
        return new, "down"
    if kind == "split layer":
        i = int(u * len(mats)) % len(mats)
        by = sorted(mats, key=lambda m: m["d"])
        k = by.index(mats[i])
        top = by[k - 1]["d"] if k else 0
        lo, hi = (top, by[k]["d"]) if k < len(by) - 1 else (top, max(by[k]["d"], Ref(spec).ext_h))
        d = lo + (hi - lo) * (0.001 + 0.998 * v)
        if d in [m["d"] for m in mats]:
            return None
        mats.insert(0 if v < 0.5 else len(mats), {**mats[i], "d": d})
        return new, "same"
    if kind == "reorder":
        for key in ("mats", "udls", "lls"):
            k = int(u * max(1, len(new[key])))
            new[key] = (new[key][k:] + new[key][:k])[:: 1 if v < 0.5 else -1]
        return new, "same"
    if kind == "split udl":
        if not new["udls"]:
            return None
        x = new["udls"].pop(int(u * len(new["udls"])) % len(new["udls"]))
        if v < 0.4:
            q = x["q"] * (0.05 + 0.9 * u)
            parts = [{**x, "q": q}, {**x, "q": x["q"] - q}]
        else:
            a = (x["l"] or 4) * (0.05 + 0.9 * u)
            parts = [{**x, "l": a}, {**x, "o": x["o"] + a, "l": x["l"] - a if x["l"] else None}]
        new["udls"] = parts[:1] + new["udls"] + parts[1:]
        return new, "same"
    if kind == "split ll":
        if not new["lls"]:
            return None
        x = new["lls"].pop(int(u * len(new["lls"])) % len(new["lls"]))
        p = x["p"] * (0.05 + 0.9 * v)
        new["lls"] = [{**x, "p": p}] + new["lls"] + [{**x, "p": x["p"] - p}]
        return new, "same"
    raise AssertionError(kind)


def unreached(spec, ref, c, ch):
    """a change of the model that circle c does not reach"""
    new = copy.deepcopy(spec)
    pts, _ = ref.crossings(*c)
    (x0, y0), (x1, y1) = pts[0], pts[1]
    low = c[1] - c[2] if x0 <= c[0] <= x1 else min(y0, y1)
    depth = ref.top[1] - low
    u, v = ch[1], ch[2]
    which = int(ch[3] * 4)
    if which == 0:
        # the boundary below the circle, with a new bottom layer under it
        room = ref.ext_h - depth
        if room < 0.02:
            return None
        d = depth + room * (0.05 + 0.9 * u)
        last = max(new["mats"], key=lambda m: m["d"])
        if last["d"] >= d - 1e-6:
            return None
        # the former bottom layer ends at d instead of going on
        new["mats"].append({"uw": 1 + 40 * v, "phi": 40 * u, "c": 20 * v, "d": ref.ext_h})
        last["d"] = d
        return new
    if which == 1:
        if spec["water"] is not None or ref.ext_h - depth < 0.02:
            return None
        new["water"] = depth + 1e-4 + (ref.ext_h - depth) * u
        return new
    tx = ref.top[0]
    if which == 2:
        if x0 >= tx - 1e-3:
            return None
        o = tx - x0 + 1e-3 + (x0 - 1e-3) * u
        new["udls"].append({"q": 1 + 100 * v, "o": o, "l": None if v < 0.3 else 0.1 + 5 * v})
    else:
        if x0 >= tx - 1e-3:
            # does not reach the crest edge
            new["lls"].append({"p": 1 + 100 * v, "o": tx * u if u > 0.1 and x0 > tx + 1e-3 else max(0, tx - x0) + 1e-3 + 0.9 * x0 * u})
            if x0 <= tx:
                return None
        else:
            new["lls"].append({"p": 1 + 100 * v, "o": tx - x0 + 1e-3 + (x0 - 1e-3) * u})
    return new


def fix_size(spec, *others):
    """makes the boundary minimums large enough for all variants, so that they share one outline"""
    refs = [Ref(s) for s in others]
    l, h = max(r.ext_l for r in refs), max(r.ext_h for r in refs)
    for s in others:
        s["min_l"], s["min_h"] = l, h
    return spec


def judge(ref0, ref1, c, f0, f1, relation, ch):
    """None if outside the domain, otherwise whether the plane had to move"""
    what = f"circle {c}: {f0} before, {f1} after {ch}"
    if relation == "same":
        if (f0 is None) != (f1 is None):
            if ref0.robust_fos(*c)[0] != "ok":
                return None
            raise Violation(what)
        if f0 is None:
            return None
        if not abs(f0 - f1) <= 1e-6 * max(1, f0):
            if ref0.robust_fos(*c)[0] != "ok" or ref1.robust_fos(*c)[0] != "ok":
                return None
            raise Violation(what)
        return False
    r0, r1 = ref0.fos(*c), ref1.fos(*c)
    if r0 is None or r1 is None:
        return None
    friction = None
    if ch[0] == "friction":
        changed = set(ref1.layers) - set(ref0.layers)
        old = set(ref0.layers) - set(ref1.layers)
        if len(changed) != 1 or len(old) != 1:
            return None
        friction = next(iter(old))[2:]
    if not pressed(ref0, c, r0, friction) or not pressed(ref1, c, r1):
        return None
    if ref0.robust_fos(*c)[0] != "ok" or ref1.robust_fos(*c)[0] != "ok":
        return None
    if f0 is None or f1 is None:
        raise Violation(what)
    eps = 1e-7 * max(1, f0)
    if relation == "up":
        if f1 < f0 - eps:
            raise Violation(what)
        return abs(r1 - r0) > 1e-4
    if relation == "down":
        if f1 > f0 + eps:
            raise Violation(what)
        return abs(r1 - r0) > 1e-4
    if not abs(f1 - relation[1] * f0) <= 1e-6 * max(1, f1):
        raise Violation(f"{what}: not {relation[1]} times")
    return True


def run(case, rec):
    spec = copy.deepcopy(case["slope"])
    spec["opts"].update(TIGHT)
    ch = case["change"]
    if ch[0] == "water in":
        spec["water"] = None
    if ch[0] == "water up":
        spec["H"] = 1
        spec["water"] = spec["water"] if spec["water"] is not None else spec["h"]
    if ch[0] == "head up":
        spec["H"] = spec["H"] if spec["H"] is not None else 0.4
        spec["water"] = spec["water"] if spec["water"] is not None else 0.3 * spec["h"]
    if ch[0] == "unreached":
        # size first, the circles depend on it
        spec["min_l"] = Ref(spec).ext_l * 1.5 + 30
        ref = Ref(spec)
        circles = [c for c in circles_of(ref, case["circles"]) if len(ref.crossings(*c)[0]) >= 2 and ref.crossings(*c)[1] > 1e-5]
        if not circles:
            raise Reject("no circle cuts the slope")
        new = unreached(spec, ref, circles[0], ch)
        if new is None or (Ref(new).ext_h, Ref(new).ext_l) != (ref.ext_h, ref.ext_l):
            raise Reject("nothing can be changed outside this circle")
        circles, relation = circles[:1], "same"
    else:
        out = change_spec(spec, ch)
        if out is None:
            raise Reject("the change does not apply")
        new, relation = out
        fix_size(None, spec, new)
        ref = Ref(spec)
        circles = [c for c in circles_of(ref, case["circles"]) if len(ref.crossings(*c)[0]) >= 2]
        if not circles:
            raise Reject("no circle cuts the slope")
    ref1 = Ref(new)
    a, b = analysed(spec, circles), analysed(new, circles)
    n, moved = 0, 0
    for c in circles:
        k = judge(ref, ref1, c, a.get(c), b.get(c), relation, ch)
        if k is None:
            rec.exclude(f"{ch[0]}: plane outside the domain")
            continue
        n += 1
        moved += k
    rec.cls(f"{ch[0]}: planes judged", n)
    rec.nontrivial(moved or relation == "same" and n and len(spec["mats"]) + len(spec["udls"]) + len(spec["lls"]) > 1)


KINDS = ["cohesion", "friction", "strength", "water in", "water up", "head up", "split layer", "reorder", "split udl", "split ll", "unreached", "unreached"]


@st.composite
def cases(draw):
    spec = draw(slope())
    kind = draw(st.sampled_from(KINDS))
    if kind == "split udl" and not spec["udls"]:
        spec["udls"] = [draw(udl(spec["h"]))]
    if kind == "split ll" and not spec["lls"]:
        spec["lls"] = [draw(ll(spec["h"]))]
    return {"slope": spec, "circles": draw(st.lists(circle_params(("entry", "face", "toe", "crest", "entry", "toe")), min_size=3, max_size=8)), "change": [kind, draw(unit), draw(unit), draw(unit)]}


SUBS = [Sub("relations", cases(), run, 3000, 100000)]
