"""C15: what plot_boundary draws against an independent picture of the model."""
from core import Sub, Violation, Reject
from hist import *
import figs, re

PROPERTY = "C15"
RULE = (
    "A case is a boundary and a history of calls that set and remove layers (with and without names and colours), loads, "
    "water, limits and boundary minimums.  The traces, shapes and annotations of plot_boundary are then read back: outline "
    "corners, for every layer the area and 60 sample points of the filled polygon against the layer that really contains "
    "them, loads with position, label value and unit, water line, limit markers and the material table.  Non-trivial: at "
    "least two layers, a load and something removed, or a level drawn below the toe."
)

LABEL = re.compile(r"^\s*(-?[\d.]+(?:e[-+]?\d+)?)\s*(kN/m|kPa)\s*$")


def area(poly):
    return abs(sum(a[0] * b[1] - b[0] * a[1] for a, b in zip(poly, poly[1:] + poly[:1]))) / 2


def inside(poly, x, y):
    odd = False
    for (x0, y0), (x1, y1) in zip(poly, poly[1:] + poly[:1]):
        if (y0 > y) != (y1 > y) and x < x0 + (y - y0) * (x1 - x0) / (y1 - y0):
            odd = not odd
    return odd


def below_area(r, y):
    """area of the ground below level y"""
    y = max(0.0, min(y, r.top[1]))
    if y <= r.bot[1]:
        return y * r.ext_l
    full = r.bot[1] * r.ext_l
    d = y - r.bot[1]
    x_top = r.bot[0] - d / r.grad
    return full + d * (x_top + r.bot[0]) / 2


def points(t):
    xs, ys = figs.plain(t.x), figs.plain(t.y)
    return [] if xs is None or ys is None else list(zip(map(float, xs), map(float, ys)))


def removed_repeats(pts, tol):
    out = []
    for p in pts:
        if not out or abs(p[0] - out[-1][0]) + abs(p[1] - out[-1][1]) > tol:
            out.append(p)
    if len(out) > 1 and abs(out[0][0] - out[-1][0]) + abs(out[0][1] - out[-1][1]) <= tol:
        out.pop()
    return out


def same_set(a, b, tol):
    def near(p, q):
        return len(p) == len(q) and all(abs(u - v) <= tol if isinstance(u, float) else u == v for u, v in zip(p, q))
    b = list(b)
    for p in a:
        for q in b:
            if near(p, q):
                b.remove(q)
                break
        else:
            return False
    return not b


def check_drawing(s, ref, mats, objs, udls, lls, limits, rec, table=True, samples=(), fig=None):
    """judge the figure against the model; objs: Material objects beside their descriptions"""
    fig = s.plot_boundary(material_table=table) if fig is None else fig
    scale = max(ref.ext_l, ref.ext_h)
    tol = 1e-9 * max(1, scale)
    data = list(fig.data)
    corners = [(0.0, 0.0), (0.0, ref.top[1]), ref.top, ref.bot, (ref.ext_l, ref.bot[1]), (ref.ext_l, 0.0)]
    fills = [t for t in data if t.fill not in (None, "none")]
    lines = [t for t in data if t.fill in (None, "none")]
    rings = [t for t in lines if points(t) and len(points(t)) >= 6]
    if len(rings) != 1 or not same_set(removed_repeats(points(rings[0]), tol), removed_repeats(corners, tol), 10 * tol):
        raise Violation(f"outline drawn as {[points(t) for t in rings]}, expected {corners}")
    lines.remove(rings[0])
    anns = list(fig.layout.annotations)
    shapes = list(fig.layout.shapes)
    if not mats:
        if fills or lines or anns or shapes:
            raise Violation(f"something besides the outline is drawn although there are no layers: {len(fills)} areas, {len(lines)} lines, {len(anns)} texts, {len(shapes)} shapes")
        return
    # --- layers
    if len(fills) != len(mats):
        raise Violation(f"{len(fills)} areas drawn for {len(mats)} layers")
    order = sorted(range(len(mats)), key=lambda i: mats[i]["d"])
    levels = [ref.ext_h] + [ref.ext_h - mats[i]["d"] for i in order[:-1]] + [0.0]
    polys = []
    for k, (i, t) in enumerate(zip(order, fills)):
        m, o = mats[i], objs[i]
        poly = points(t)
        polys.append(poly)
        want = below_area(ref, levels[k]) - below_area(ref, levels[k + 1])
        if abs(area(poly) - want) > 1e-7 * max(1, scale) ** 2:
            raise Violation(f"layer {k} is drawn with an area of {area(poly)}, it has {want}: {poly}")
        meta = list(t.meta)
        if [float(v) for v in meta[:3]] != [float(m["uw"]), float(m["c"]), float(m["phi"])] or str(meta[3]) != m.get("name", ""):
            raise Violation(f"layer {k} is described as {meta}, it is {m}")
        nums = [float(v) for v in re.findall(r": (-?[\d.]+(?:e[-+]?\d+)?)", t.name[len(m.get("name", "")):])]
        if not t.name.startswith(m.get("name", "")) or nums != meta[:3]:
            raise Violation(f"layer {k} is labelled {t.name!r}, it is {m}")
        if t.fillcolor != o.color or (m.get("color") in GOOD_COLORS and t.fillcolor != m["color"]):
            raise Violation(f"layer {k} is filled with {t.fillcolor}, its colour is {o.color} (given {m.get('color')!r})")
    for u, v in samples:
        x = u * ref.ext_l
        g = ref.ground(x)
        y = v * (g if g is not None else 0)
        if g is None or min(abs(y - l) for l in levels + [g]) < 1e-6 * scale or not 1e-6 * scale < x < ref.ext_l * (1 - 1e-6):
            continue
        want = [k for k in range(len(order)) if levels[k] > y > levels[k + 1]]
        got = [k for k, p in enumerate(polys) if inside(p, x, y)]
        if got != want:
            raise Violation(f"the point ({x}, {y}) belongs to layer {want} and is drawn in {got}")
    # --- loads
    labels = []
    for a in anns:
        mt = LABEL.match(str(a.text))
        if mt and a.xref in (None, "x"):
            labels.append((float(a.x), float(a.y), float(mt.group(1)), mt.group(2)))
    want = [((l + r) / 2, q, "kPa") for l, r, q in ref.udls] + [(x, p, "kN/m") for x, p in ref.lls]
    left = list(labels)
    for x, q, unit_ in want:
        for lab in left:
            if abs(lab[0] - x) <= 1e-7 * scale and abs(lab[1] - ref.top[1]) <= tol * 10 and lab[3] == unit_ and abs(lab[2] - q) < 0.0010001 + 1e-12 * q:
                left.remove(lab)
                break
        else:
            raise Violation(f"no label for the load of {q} {unit_} at {x}: {labels}")
    if left:
        raise Violation(f"labels {left} belong to no load")
    pix = [sh for sh in shapes if sh.ysizemode == "pixel"]
    for sh in pix:
        if abs(float(sh.yanchor) - ref.top[1]) > 10 * tol:
            raise Violation(f"a load is drawn at level {sh.yanchor}, the crest is at {ref.top[1]}")
    anchors = [float(sh.xanchor) for sh in pix]
    spots = [x for l, r, _ in ref.udls for x in (l, (l + r) / 2, r)] + [x for x, _ in ref.lls]
    for a in anchors:
        if not any(abs(a - x) <= 1e-7 * scale for x in spots):
            raise Violation(f"a load is drawn at x = {a}, loads are at {spots}")
    rects = [(float(sh.x0), float(sh.x1), sh.fillcolor) for sh in pix if sh.type == "rect"]
    rects = [(min(r[:2]), max(r[:2]), r[2]) for r in rects]
    if not same_set([r[:2] for r in rects], [(float(l), float(r)) for l, r, _ in ref.udls], 1e-7 * scale):
        raise Violation(f"uniform loads are drawn over {rects}, they act on {ref.udls}")
    for u, (l, r, _) in zip(udls, ref.udls):
        for x in (l, r):
            if not any(abs(a - x) <= 1e-7 * scale for a in anchors):
                raise Violation(f"no arrow at x = {x} for the load {u}")
        color = u.get("color") if u.get("color") in GOOD_COLORS else "red"
        if not any(abs(a - l) <= 1e-7 * scale and abs(b - r) <= 1e-7 * scale and c == color for a, b, c in rects):
            raise Violation(f"the load {u} is not drawn in its colour: {rects}")
    for p, (x, _) in zip(lls, ref.lls):
        color = p.get("color") if p.get("color") in GOOD_COLORS else "blue"
        if not any(abs(float(sh.xanchor) - x) <= 1e-7 * scale and sh.line.color == color for sh in pix):
            raise Violation(f"the load {p} is not drawn in its colour at {x}")
    # --- water
    water = [points(t) for t in lines if t.line.color == "blue"]
    others = [t for t in lines if t.line.color != "blue"]
    if others:
        raise Violation(f"lines that belong to nothing: {[points(t) for t in others]}")
    plain_anns = [a for a in anns if a.xref in (None, "x")]
    tri = [a for a in plain_anns if a.text == "▼"]
    if ref.w_rl:
        y = ref.w_rl
        gx = ref.ground_x(y)
        want = [(0.0, y), (gx, y)]
        if y > ref.bot[1]:
            want += [ref.bot, (ref.ext_l, ref.bot[1])]
        got = removed_repeats(water[0], 1e-6 * scale) if water else None
        want_ = removed_repeats([tuple(map(float, p)) for p in want], 1e-6 * scale)
        if abs(y - ref.bot[1]) > 1e-6 * scale and (len(water) != 1 or not same_set(got, want_, 1e-6 * scale)):
            raise Violation(f"the water table is drawn as {water}, it runs {want}")
        if abs(y - ref.bot[1]) <= 1e-6 * scale and len(water) == 1:
            # level with the toe: along the ground to the end of the model
            xs = [x for x, _ in water[0]]
            if any(abs(q - y) > 1e-5 * scale for _, q in water[0]) or abs(min(xs)) > 1e-6 * scale or abs(max(xs) - ref.ext_l) > 1e-6 * scale:
                raise Violation(f"the water table is drawn as {water}, it runs from 0 to {ref.ext_l} at the toe's level {y}")
            rec.cls("water at the toe")
        if len(water) != 1 or abs(water[0][0][1] - y) > 10 * tol or any(abs(a.y - y) > 10 * tol for a in tri) or len(tri) != 1:
            raise Violation(f"the water table is drawn as {water} with signs at {[a.y for a in tri]}, its level is {y}")
    elif water or tri:
        raise Violation(f"a water table is drawn at {water}, there is none")
    # --- limits
    x1, x2, x3, x4 = limits
    inner = x2 != x3
    got_r = [(float(a.x), float(a.y)) for a in plain_anns if a.text == "▶"]
    got_l = [(float(a.x), float(a.y)) for a in plain_anns if a.text == "◀"]
    bars = [(float(a.x), float(a.y)) for a in plain_anns if a.text == "|"]

    def at(x):
        return (float(x), float(ref.ground(min(max(x, 0), ref.ext_l))))

    want_r, want_l = [at(x1)] + ([at(x3)] if inner else []), [at(x4)] + ([at(x2)] if inner else [])
    if not same_set(got_r, want_r, 1e-7 * scale) or not same_set(got_l, want_l, 1e-7 * scale):
        raise Violation(f"limits are marked at {got_r} and {got_l}, they are {limits}")
    if not same_set(bars, want_r + want_l, 1e-7 * scale):
        raise Violation(f"limit bars at {bars}, the limits are {limits}")
    # --- table
    rows = [a for a in anns if a.xref == "x domain" and not str(a.text).startswith("<b>")]
    heads = [a for a in anns if a.xref == "x domain" and str(a.text).startswith("<b>")]
    swatch = [sh for sh in shapes if sh.xref == "paper" and sh.type == "rect" and sh.fillcolor]
    if not table:
        if rows or heads or swatch:
            raise Violation("a material table is drawn although it was not asked for")
        return
    if len(heads) != 5 or len({round(a.y, 9) for a in heads}) != 1:
        raise Violation(f"table header {[a.text for a in heads]}")
    by_y = {}
    for a in rows:
        by_y.setdefault(round(a.y, 6), []).append(a)
    ys = sorted(by_y, reverse=True)
    if len(ys) != len(mats) or any(y >= heads[0].y for y in ys) or len(swatch) != len(mats):
        raise Violation(f"{len(ys)} table rows with {len(swatch)} colours for {len(mats)} layers")
    hx = [a.x for a in sorted(heads, key=lambda a: a.x)]
    swatch.sort(key=lambda sh: -(sh.y0 + sh.y1))
    for y, i, sw in zip(ys, order, swatch):
        m = mats[i]
        cells = sorted(by_y[y], key=lambda a: a.x)
        texts = [str(a.text) for a in cells]
        if len(texts) != 4 or texts[0] != m.get("name", "") or [float(v) for v in texts[1:]] != [float(m["uw"]), float(m["c"]), float(m["phi"])]:
            raise Violation(f"table row {texts}, the layer is {m}")
        if any(abs(c.x - x) > 1e-9 for c, x in zip(cells, [hx[0]] + hx[2:])):
            raise Violation("a table row does not stand under its header")
        if sw.fillcolor != objs[i].color or not min(sw.y0, sw.y1) < y < max(sw.y0, sw.y1):
            raise Violation(f"table row {texts} has the colour {sw.fillcolor}, the layer {objs[i].color}")
    hd = [a.text for a in sorted(heads, key=lambda a: a.x)]
    for word, text in zip(("MATERIAL", "COLOR", "kN/m3", "kPa", "deg"), hd):
        if word not in text:
            raise Violation(f"table headers {hd}")


GOOD_COLORS = ["#123456", "#abc", "pink", "green", "gold", "#efa59c"]
some_color = st.sampled_from(GOOD_COLORS + ["nocolour", "#12", ""])
some_name = st.sampled_from(["Clay", "Sand", "", "5", "a: 3", "<i>x</i>", "Gebräch 1", "kPa", "7 kPa", "▼"])


@st.composite
def named(draw, h):
    m = draw(small_material(h))
    if draw(st.booleans()):
        m["name"] = draw(some_name)
    if draw(st.booleans()):
        m["color"] = draw(some_color)
    return m


fine = st.one_of(
    num(0.01, 300, 2), num(0.0001, 20, 4), num(0.001, 9, 6), st.integers(1, 500), st.floats(0.002, 500),
    st.sampled_from([10.0001, 0.0004, 5.0009, 1e-7, 100.00009, 3.1000001, 12345.6789, 0.1 + 0.2, 1e5, 2.0010, 999.9995, 1e16]),
)


@st.composite
def load_u(draw, h):
    u = draw(udl(h))
    u["q"] = draw(fine)
    if draw(st.booleans()):
        u["color"] = draw(some_color)
    return u


@st.composite
def load_l(draw, h):
    p = draw(ll(h))
    p["p"] = draw(fine)
    if draw(st.booleans()):
        p["color"] = draw(some_color)
    return p


@st.composite
def case(draw):
    spec = draw(boundary())
    h = spec["h"]
    ops = []
    if draw(st.integers(0, 9)):
        ops.append(["mats", draw(st.lists(named(h), min_size=1, max_size=5))])
    if draw(st.booleans()):
        ops.append(["udls", draw(st.lists(load_u(h), min_size=1, max_size=2))])
    if draw(st.booleans()):
        ops.append(["lls", draw(st.lists(load_l(h), min_size=1, max_size=2))])
    if draw(st.booleans()):
        ops.append(["water", draw(st.one_of(num(0, 1.6).map(lambda k: round(k * h, 2)), num(0, 4).map(lambda k: k * h), st.sampled_from([0, "toe"])))])
    more = op_strategy(h, planes_ok=False, names="boundary min rm_mat rm_depth rm_udl rm_ll rm_udls rm_lls water rm_water limits rm_limits".split(), opts_ok=False)
    ops += draw(st.lists(more, max_size=4))
    if draw(st.booleans()):
        ops.append(["mats", draw(st.lists(named(h), min_size=1, max_size=3))])
    ops = ops if draw(st.booleans()) else draw(st.permutations(ops))
    if draw(st.integers(0, 2)) == 0:
        good = [draw(unit) * 0.4, 0.5 + 0.45 * draw(unit), 0.3 + 0.25 * draw(unit), 0.8 + 0.4 * draw(unit)]
        ops.append(["limits", good])
    return {
        "start": spec, "ops": [list(o) for o in ops], "table": draw(st.sampled_from([True, False, False])),
        "samples": draw(st.lists(st.tuples(unit, unit), min_size=60, max_size=60)),
    }


def run(case, rec):
    h = Hist(case["start"])
    removed = False
    for op in case["ops"]:
        r = h.apply(op)
        removed |= op[0].startswith("rm_") and r is None
    ref = h.ref()
    st_ = h.state
    udls, lls = [u for u in st_["udls"] if u["q"] != 0], [p for p in st_["lls"] if p["p"] != 0]
    check_drawing(h.s, ref, st_["mats"], h.mat_objs, udls, lls, h.limits(), rec, case["table"], case["samples"])
    if not st_["mats"]:
        rec.cls("no layers")
    rec.cls(f"{len(st_['mats'])} layers")
    if case["table"]:
        rec.cls("with table")
    low = any(ref.ext_h - m["d"] < ref.bot[1] for m in st_["mats"]) or (ref.w_rl and ref.w_rl < ref.bot[1])
    rec.nontrivial(len(st_["mats"]) >= 2 and (bool((udls or lls) and removed) or bool(low)))


SUBS = [Sub("drawing", case(), run, 1800, 60000)]
