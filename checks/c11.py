"""C11: model geometry and ground look-ups over histories of boundary, load and layer changes."""
from core import Sub, Violation, Reject
from hist import *
import figs, math

PROPERTY = "C11"
RULE = (
    "A case is a boundary (angle or length, vertical ones too) and a history of boundary changes, minimum changes, loads "
    "and layers set and removed.  After every call the outline, crest and toe and 8 look-up coordinates (ground, model "
    "edges, one float step beside them, outside) are checked against the geometric statement.  Non-trivial: a load, a "
    "layer or a boundary minimum determines the size of the model, or the boundary was changed after loads or layers."
)


def check(h, us, when):
    s, st_ = h.s, h.state
    H, L = h.dims()
    fig = s.plot_boundary(material_table=False, legend=False)
    ring = None
    for t in fig.data:
        xs, ys = figs.plain(t.x), figs.plain(t.y)
        if xs and len(xs) >= 6 and tuple(map(float, (xs[0], ys[0]))) == (0.0, 0.0) and t.fill is None:
            ring = list(zip(xs, ys))
            break
    if ring is None:
        for t in fig.data:
            xs, ys = figs.plain(t.x), figs.plain(t.y)
            if xs and (0, 0) in list(zip(xs, ys)) and len(xs) >= 6:
                ring = list(zip(xs, ys))
                break
    if ring is None:
        raise Violation(f"{when}: no outline drawn")
    top, bot = s.get_top_coordinates(), s.get_bottom_coordinates()
    ext_l, ext_h = max(x for x, _ in ring), max(y for _, y in ring)
    tol = 1e-9 * max(1, ext_l, ext_h)

    def eq(a, b):
        return abs(a - b) <= tol

    def pt(a, b):
        return eq(a[0], b[0]) and eq(a[1], b[1])

    if not pt(ring[0], ring[-1]):
        raise Violation(f"{when}: outline {ring} is not closed")
    corners = [(0, 0), (0, top[1]), top, bot, (ext_l, bot[1]), (ext_l, 0)]
    distinct = [p for i, p in enumerate(ring[:-1]) if i == 0 or not pt(p, ring[i - 1])]
    for c in corners:
        if not any(pt(c, p) for p in distinct):
            raise Violation(f"{when}: corner {c} is not on the outline {ring}")
    for p in distinct:
        if not any(pt(c, p) for c in corners):
            raise Violation(f"{when}: point {p} of the outline is not a corner of the slope")
    if not eq(top[1] - bot[1], H) or not eq(bot[0] - top[0], L):
        raise Violation(f"{when}: crest {top} and toe {bot} are not {H} high and {L} long")
    if not eq(top[0], ext_l - bot[0]):
        raise Violation(f"{when}: slope {top}-{bot} is not centred in {ext_l}")
    if not eq(top[1], ext_h):
        raise Violation(f"{when}: crest {top} is not at the top of the model {ext_h}")
    need_h, need_l = max(3 * H, 2.5 * L, st_["min_h"]), max(5 * L, 4 * H, st_["min_l"])
    if ext_h < need_h - tol or ext_l < need_l - tol:
        raise Violation(f"{when}: model {ext_l} x {ext_h} is smaller than {need_l} x {need_h}")
    grown = False
    for m in st_["mats"]:
        if m["d"] > ext_h + tol:
            raise Violation(f"{when}: layer depth {m['d']} lies outside the model of height {ext_h}")
        grown |= m["d"] > max(3 * H, 2.5 * L, 6)
    for u in st_["udls"]:
        if top[0] - u["o"] - (u["l"] or 0) < -tol:
            raise Violation(f"{when}: load {u} does not lie on the crest of length {top[0]}")
        grown |= (u["o"] + (u["l"] or 3)) * 2.5 > max(5 * L, 4 * H, 10)
    for p in st_["lls"]:
        if top[0] - p["o"] < -tol:
            raise Violation(f"{when}: load {p} does not lie on the crest of length {top[0]}")
        grown |= p["o"] * 3 > max(5 * L, 4 * H, 10)
    # look-ups
    def ground(x):
        if x <= top[0]:
            return top[1]
        if x >= bot[0]:
            return bot[1]
        return top[1] - (x - top[0]) * H / L

    gy, gx = s.get_external_y_intersection, s.get_external_x_intersection
    span = max(1, H / L)
    for u in us:
        for x in (u * ext_l, top[0] + u * L, ext_l * (1 + u + 1e-9), -u * ext_l - 1e-9):
            y = gy(x)
            if x < 0 or x > ext_l:
                if y is not None:
                    raise Violation(f"{when}: ground height {y} at {x}, outside the model of length {ext_l}")
                continue
            if y is None or abs(y - ground(x)) > tol * span * 10:
                raise Violation(f"{when}: ground height {y} at {x}, the outline is at {ground(x)}")
            if top[0] < x < bot[0] and bot[1] < y < top[1]:
                back = gx(y)
                if back is None or abs(back - x) > 1e-7 * max(1, ext_l):
                    raise Violation(f"{when}: ground height at {x} is {y}, but the ground position there is {back}")
        y = bot[1] + u * H
        x = gx(y)
        if u not in (0, 1):
            if x is None or not top[0] - tol <= x <= bot[0] + tol or abs((top[1] - y) * L / H - (x - top[0])) > tol * 10:
                raise Violation(f"{when}: ground position {x} at level {y} between crest and toe")
        y = top[1] * (1 + u) + 1e-6
        if gx(y) is not None:
            raise Violation(f"{when}: ground position {gx(y)} at {y}, above the crest {top[1]}")
        y = bot[1] * u * 0.999
        if y < bot[1] - 1e-9 and (gx(y) is None or not eq(gx(y), ext_l)):
            raise Violation(f"{when}: ground position {gx(y)} at {y}, below the toe")
    for x, want in ((0, top[1]), (top[0], top[1]), (bot[0], bot[1]), (ext_l, bot[1]), (math.nextafter(ext_l, 1e9), None), (-1e-300, None)):
        y = gy(x)
        if (y is None) != (want is None) or (y is not None and not eq(y, want)):
            raise Violation(f"{when}: ground height {y} at {x}, expected {want}")
    for y, want in ((top[1], top[0]),):
        x = gx(y)
        if x is None or not eq(x, want):
            raise Violation(f"{when}: ground position {x} at {y}, expected {want}")
    x = gx(bot[1])
    if x is None or not (eq(x, bot[0]) or eq(x, ext_l)):
        raise Violation(f"{when}: ground position {x} at the level of the toe")
    return grown


def run(case, rec):
    h = Hist(case["slope"])
    grown = check(h, case["us"], "new slope")
    if h.dims()[1] < 0.01:
        rec.cls("vertical slope")
    placed = later = False
    for op in case["ops"]:
        h.apply(op)
        g = check(h, case["us"], f"after {op} in {case['ops']}")
        if g:
            rec.cls("size set by a load or layer")
        grown |= g
        later |= placed and op[0] in ("boundary", "min")
        placed |= op[0] in ("mats", "udls", "lls")
    if later:
        rec.cls("boundary changed after loads or layers")
    rec.nontrivial(grown or later)


@st.composite
def case(draw):
    spec = draw(boundary())
    h = spec["h"]
    T = st.tuples
    far = num(0, 40)
    op = st.one_of(
        T(st.just("boundary"), st.one_of(num(0.05, 40), st.just(h)), st.one_of(num(1, 90, 1), st.sampled_from([90, 89.9999, 45])), st.none()),
        T(st.just("boundary"), num(0.5, 20), st.none(), st.one_of(num(0, 60), st.sampled_from([0, 1e-4, 0.001, 0.002]))),
        T(st.just("min"), st.one_of(st.none(), num(0.5, 120)), st.one_of(st.none(), num(0.5, 90))),
        T(st.just("mats"), st.lists(st.builds(lambda m, d: {**m, "d": d}, material(), st.one_of(num(0, 60), num(0, 10))), min_size=1, max_size=3)),
        T(st.just("rm_mat"), st.integers(0, 5)),
        T(st.just("udls"), st.lists(st.builds(lambda u, o: {**u, "o": o}, udl(h), far), min_size=1, max_size=2)),
        T(st.just("lls"), st.lists(st.builds(lambda p, o: {**p, "o": o}, ll(h), far), min_size=1, max_size=2)),
        T(st.just("rm_udl"), st.integers(0, 5), st.booleans()),
        T(st.just("rm_lls")),
        T(st.just("water"), num(0, 30)),
    ).map(list)
    return {"slope": spec, "ops": draw(st.lists(op, min_size=2, max_size=6)), "us": draw(st.lists(unit, min_size=2, max_size=2))}


SUBS = [Sub("geometry", case(), run, 2500, 60000)]
