"""C22: the same slope drawn in a wider or higher model, to another scale, or given by length instead of angle."""
from core import Sub, Violation, Reject
from gen import *
from math import atan, degrees
import copy

PROPERTY = "C22"
RULE = (
    "A case is a slope and one of four equivalent forms of it: a wider and higher boundary, all lengths times k (with "
    "cohesion and pressures times k, line loads times k squared), length instead of angle or back.  Corresponding circles "
    "are analysed in both models, or both are searched automatically within limits at the same places of the slope; end "
    "points and factors of safety have to correspond.  Circles for which 2e-7 m decide are excluded.  Non-trivial: a plane "
    "with a factor of safety was compared in a model with two layers, a load or water, and the form really differs."
)


def analysed(spec, circles):
    s = build(spec)
    for c in circles:
        s.add_single_circular_plane(*c)
    s.analyse_slope()
    return {(p["c_x"], p["c_y"], p["radius"]): p for p in planes(s)}


def wider(spec, u, v):
    r = Ref(spec)
    new = copy.deepcopy(spec)
    if u > 0.15:
        new["min_l"] = r.ext_l * (1 + 2 * u) + 1
    if v > 0.15 or u <= 0.15:
        new["min_h"] = r.ext_h * (1 + 2 * v) + 0.5
    q = Ref(new)
    dx, dy = q.top[0] - r.top[0], q.top[1] - r.top[1]
    return new, lambda x, y: (x + dx, y + dy), 1.0


def scaled(spec, u, v):
    k = [0.1, 10, 2, 0.5][int(v * 4) % 4] if u < 0.4 else 0.25 + 4 * v
    new = copy.deepcopy(spec)
    for s in (spec, new):
        r = Ref(spec)
        s["min_l"], s["min_h"] = max(r.ext_l, 10), max(r.ext_h, 6)
    new["h"] *= k
    if new.get("length") is not None:
        new["length"] *= k
    for key in ("min_l", "min_h"):
        new[key] *= k
    for m in new["mats"]:
        m["c"] *= k
        m["d"] *= k
    for x in new["udls"]:
        x["q"] *= k
        x["o"] *= k
        x["l"] = x["l"] and x["l"] * k
    for x in new["lls"]:
        x["p"] *= k * k
        x["o"] *= k
    if new["water"] is not None:
        new["water"] *= k
    return new, lambda x, y: (x * k, y * k), k


def other_form(spec, u, v):
    r = Ref(spec)
    new = copy.deepcopy(spec)
    if r.L <= 0.0011:
        raise Reject("vertical slopes have no other form")
    if spec.get("length") is not None:
        new["length"] = None
        new["angle"] = degrees(atan(spec["h"] / spec["length"]))
    else:
        new["angle"] = None
        new["length"] = r.L
    return new, lambda x, y: (x, y), 1.0


FORMS = {"wider": wider, "scaled": scaled, "angle or length": other_form}


def both(case):
    spec = copy.deepcopy(case["slope"])
    spec["opts"].update(tolerance=1e-11, max_iterations=400)
    kind, u, v = case["form"]
    new, move, k = FORMS[kind](spec, u, v)
    r0, r1 = Ref(spec), Ref(new)
    want = move(*r0.top), move(*r0.bot)
    if any(abs(a - b) > 1e-9 * max(1, abs(a)) * 100 for p, q in zip(want, (r1.top, r1.bot)) for a, b in zip(p, q)):
        raise Reject("the constants of the boundary rule do not scale")
    if k != 1 and any(x.get("l") is None for x in spec["udls"]) and abs(r1.ext_l - k * r0.ext_l) > 1e-9 * r1.ext_l:
        raise Reject("the constants of the boundary rule do not scale")
    return spec, new, move, k, r0, r1


def compare(c, d, f, g, k, move, rec, kind):
    what = f"circle {c}: {f and f['FOS']}, {kind}: {g and g['FOS']}"
    if (f is None) != (g is None) or f is not None and not abs(f["FOS"] - g["FOS"]) <= 1e-5 * max(1, f["FOS"]):
        raise Violation(what)
    if f is not None:
        for key in ("l_c", "r_c"):
            want = move(*f[key])
            if any(abs(a - b) > 1e-5 * max(1, k) for a, b in zip(want, g[key])):
                raise Violation(f"circle {c}: {key} {f[key]}, {kind}: {g[key]}, expected {want}")
        rec.cls(f"{kind}: planes compared")


def run(case, rec):
    spec, new, move, k, r0, r1 = both(case)
    kind = case["form"][0]
    circles = []
    for c in circles_of(r0, case["circles"]):
        d = (*move(c[0], c[1]), c[2] * k)
        if min(d[0], d[1]) <= 1e-6:
            continue
        (p0, m0), (p1, m1) = r0.crossings(*c), r1.crossings(*d)
        if len(p0) < 2 or len(p1) < 2 or min(m0, m1) < 1e-5:
            rec.exclude("circle close to a corner, or cut by the edge of the model")
            continue
        if any(abs(a - b) > 1e-5 * max(1, k) for p, q in zip(p0[:2], p1[:2]) for a, b in zip(move(*p), q)):
            rec.exclude("circle cut by the edge of the model")
            continue
        # a change of 2e-7 m decides
        if r0.robust_fos(*c)[0] != "ok" or r1.robust_fos(*d)[0] != "ok":
            rec.exclude("circle sensitive to 2e-7 m")
            continue
        circles.append((c, d))
    if not circles:
        raise Reject("no circle can be compared")
    a, b = analysed(spec, [c for c, _ in circles]), analysed(new, [d for _, d in circles])
    n = 0
    for c, d in circles:
        compare(c, d, a.get(c), b.get(d), k, move, rec, kind)
        n += c in a
    rec.nontrivial(n and (len(spec["mats"]) > 1 or spec["udls"] or spec["lls"] or spec["water"] is not None))


def run_search(case, rec):
    spec, new, move, k, r0, r1 = both(case)
    kind = case["form"][0]
    if kind == "scaled" and (spec["udls"] or spec["lls"]):
        # the additional entry points stand 1 mm left of the loads at every scale
        raise Reject("entry points next to loads do not scale")
    # entry within the crest, exit from the crest to beyond the toe, at the same places
    x1, x4 = r0.top[0] * case["at"][0] * 0.9, r0.bot[0] + (r0.ext_l - r0.bot[0]) * (0.02 + 0.95 * case["at"][1])
    x3 = r0.top[0] + (x4 - r0.top[0]) * 0.8 * case["at"][2]
    x2 = x1 + (r0.top[0] - x1) * (0.2 + 0.8 * case["at"][3])
    if x2 - x1 < 0.01 * k:
        raise Reject("no room on the crest")
    lim = [x1, x2, x3, x4]
    if min(lim) <= 0 or any(x <= y for x, y in zip([x2, x4], [x1, x3])):
        raise Reject("no room for limits")
    spec["limits"] = lim
    new["limits"] = [move(x, 0)[0] for x in lim]
    spec["opts"].update(iterations=500, slices=10)
    new["opts"].update(iterations=500, slices=10)
    r0, r1 = Ref(spec), Ref(new)
    if any(abs(a - b) > 1e-9 * max(1, b) for a, b in zip((move(x, 0)[0] for x in r0.limits), r1.limits)):
        raise Reject("the limits do not correspond")
    sure = [(c[0], c[1], c[2]) for c in r0.search() if c[5] and c[3] and r0.crossings(*c[:3])[1] > 1e-5]
    s0, s1 = build(spec), build(new)
    s0.analyse_slope()
    s1.analyse_slope()

    def index(rows, back):
        out = {}
        for p in rows:
            c = back(p)
            out.setdefault(tuple(round(v, 3) for v in c), []).append((c, p))
        return out

    inv = lambda p: (p["c_x"], p["c_y"], p["radius"])
    i0 = index(planes(s0), inv)
    ox, oy = move(0, 0)
    i1 = index(planes(s1), lambda p: ((p["c_x"] - ox) / k, (p["c_y"] - oy) / k, p["radius"] / k))

    def get(ix, c):
        best = None
        for dx in (-1, 0, 1):
            for dy in (-1, 0, 1):
                for dr in (-1, 0, 1):
                    for q, p in ix.get((round(round(c[0], 3) + dx / 1000, 3), round(round(c[1], 3) + dy / 1000, 3), round(round(c[2], 3) + dr / 1000, 3)), ()):
                        e = max(abs(a - b) for a, b in zip(q, c))
                        if e < 1e-5 * max(1, c[2]) and (best is None or e < best[0]):
                            best = (e, p)
        return best and best[1]

    def edge(r, c):
        """how far the end points of the circle are from the limits of the search"""
        pts, margin = r.crossings(*c)
        return min([margin] + [abs(p[0] - x) for p, x in zip((pts[0], pts[0], pts[1], pts[1]), r.limits)]) if len(pts) > 1 else 0

    # what the two searches found, and what the reference expects
    found = [q for ix in (i0, i1) for rows in ix.values() for q, _ in rows]
    found = found[:: max(1, len(found) // 150)]
    n = 0
    step = max(1, len(sure) // 100)
    for c in found + sure[::step]:
        f, g = get(i0, c), get(i1, c)
        if f is None and g is None:
            continue
        d = (*move(c[0], c[1]), c[2] * k)
        if (f is None) != (g is None) or not abs(f["FOS"] - g["FOS"]) <= 1e-5 * max(1, f["FOS"]):
            if r0.robust_fos(*c)[0] != "ok" or r1.robust_fos(*d)[0] != "ok" or min(edge(r0, c), edge(r1, d)) < 1e-5:
                rec.exclude("circle sensitive to 2e-7 m")
                continue
            raise Violation(f"circle {c} of the search: {f and f['FOS']}, {kind} ({d}): {g and g['FOS']}")
        n += 1
    rec.cls(f"{kind}: planes of searches compared", n)
    rec.nontrivial(n and (len(spec["mats"]) > 1 or spec["udls"] or spec["lls"] or spec["water"] is not None))


form = st.tuples(st.sampled_from(["wider", "wider", "scaled", "scaled", "angle or length"]), unit, unit).map(list)
cases = st.fixed_dictionaries({"slope": slope(vertical=False), "circles": st.lists(circle_params(("entry", "face", "toe", "crest", "free")), min_size=3, max_size=8), "form": form})
searches = st.fixed_dictionaries({"slope": slope(vertical=False, ext=False), "form": form, "at": st.lists(unit, min_size=4, max_size=4)})
SUBS = [Sub("circles", cases, run, 2000, 60000), Sub("searches", searches, run_search, 150, 5000)]
