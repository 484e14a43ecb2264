"""C09: two slopes sharing objects against two slopes with private copies."""
from core import Sub, Violation, Reject
from gen import *
import figs, random

PROPERTY = "C09"
RULE = (
    "A case is two start boundaries, a pool of materials, uniform and line loads, and a history of calls on either "
    "slope that assign pool objects, remove them, resize the model, set water and limits, analyse and draw.  The same "
    "history is run on a second pair of slopes in which every slope has private copies.  Whenever a slope is analysed or "
    "drawn, and at the end, planes, factors of safety and drawing (colours aside) must equal those of its counterpart.  "
    "Non-trivial: at least one object was in use by both slopes when results with planes were compared."
)


def compare_results(rec, a, b, when):
    a.analyse_slope()
    b.analyse_slope()
    ra = sorted((*r, *p["l_c"], *p["r_c"]) for r, p in zip(results(a), planes(a)))
    rb = sorted((*r, *p["l_c"], *p["r_c"]) for r, p in zip(results(b), planes(b)))
    if len(ra) != len(rb):
        raise Violation(f"{when}: {len(ra)} planes with shared objects, {len(rb)} with private ones")
    for p, q in zip(ra, rb):
        if not figs.same_numbers(p, q):
            raise Violation(f"{when}: plane {p} with shared objects, {q} with private ones")
    return len(ra)


def compare_figure(a, b, when):
    d = figs.diff(a.plot_boundary(), b.plot_boundary(), colors=False)
    if d:
        raise Violation(f"{when}: drawing with shared objects differs from one with private objects: {d}")


def run(case, rec):
    from pyslope.pyslope import Slope

    kinds = {"mat": make_material, "udl": make_udl, "ll": make_ll}
    pool = case["pool"]
    shared = [kinds[k](v) for k, v in pool]
    copies = [[kinds[k](v) for k, v in pool] for _ in range(2)]

    fresh = [kinds[k](v) for k, v in pool]

    def key(o):
        return o.magnitude, o.offset, getattr(o, "length", 0)

    def new(spec):
        s = Slope(height=spec["h"], angle=spec.get("angle"), length=spec.get("length"))
        s.update_analysis_options(slices=10, iterations=500)
        return s

    A = [new(b) for b in case["slopes"]]
    B = [new(b) for b in case["slopes"]]
    used = [set(), set()]
    both = compared = 0
    for op in case["ops"]:
        name, k, *a = op
        when = f"after {op} in {case['ops']}"
        if name == "set":
            i = a[0] % len(pool)
            kind = pool[i][0]
            # a load may be set twice
            if kind == "mat" and i in used[k]:
                continue
            call = {"mat": "set_materials", "udl": "set_udls", "ll": "set_lls"}[kind]
            getattr(A[k], call)(shared[i])
            getattr(B[k], call)(copies[k][i])
            used[k].add(i)
            continue
        if name == "rm":
            i = a[0] % len(pool)
            if i not in used[k]:
                continue
            kind = pool[i][0]
            call = {"mat": "remove_material", "udl": "remove_udls", "ll": "remove_lls"}[kind]
            getattr(A[k], call)(shared[i])
            getattr(B[k], call)(copies[k][i])
            # equal loads go together
            def same(j):
                return pool[j][0] == kind and (j == i or (kind != "mat" and key(fresh[j]) == key(fresh[i])))

            used[k] -= {j for j in used[k] if same(j)}
            continue
        both = used[0] & used[1]
        if name == "analyse":
            n = compare_results(rec, A[k], B[k], when)
            compared += bool(both and n)
            continue
        if name == "plot":
            compare_figure(A[k], B[k], when)
            rec.cls("drawings compared")
            continue
        for s in (A[k], B[k]):
            if name == "boundary":
                s.set_external_boundary(height=a[0], angle=a[1], length=None)
            elif name == "min":
                s.update_boundary_options(MIN_EXT_L=a[0], MIN_EXT_H=a[1])
            elif name == "water":
                s.set_water_table(a[0])
            elif name == "clear":
                s.remove_udls(remove_all=True)
                s.remove_lls(remove_all=True)
                used[k] = {i for i in used[k] if pool[i][0] == "mat"}
            elif name == "read":
                s.get_external_y_intersection(a[0])
                repr(s)
    both = used[0] & used[1]
    if both:
        for i in both:
            rec.cls("shared " + pool[i][0])
    for k in (0, 1, 0):
        n = compare_results(rec, A[k], B[k], f"slope {k} at the end of {case['ops']}")
        compared += bool(both and n)
    for k in (0, 1):
        if case["figures"]:
            compare_figure(A[k], B[k], f"slope {k} at the end of {case['ops']}")
    rec.nontrivial(compared)


@st.composite
def case(draw):
    slopes = []
    for _ in range(2):
        b = draw(boundary(vertical=False))
        b["h"] = min(b["h"], 12)
        slopes.append(b)
    h = max(s["h"] for s in slopes)
    pool = []
    for i in range(draw(st.integers(1, 3))):
        m = draw(material())
        m["d"] = round(draw(num(0.1, 2)) * h + 0.013 * i, 3)
        pool.append(["mat", m])
    depths = [m["d"] for _, m in pool]
    if len(set(depths)) < len(depths):
        for i, (_, m) in enumerate(pool):
            m["d"] = round(m["d"] + 0.1 + i * 0.7, 3)
        if len({m["d"] for _, m in pool}) < len(pool):
            pool = pool[:1]
    for _ in range(draw(st.integers(0, 2))):
        u = draw(udl(h))
        u["l"] = draw(st.sampled_from([u["l"] if u["l"] and u["l"] < 3 else 2] * 2 + [None]))
        u["dyn"] = draw(st.booleans())
        pool.append(["udl", u])
    for _ in range(draw(st.integers(0, 2))):
        pool.append(["ll", draw(ll(h))])
    # equal loads, and loads at the same place, are different objects
    for i in range(len(pool)):
        kind, v = pool[i]
        if kind != "mat" and draw(st.integers(0, 2)) == 0:
            v = dict(v)
            change = draw(st.sampled_from(["none", "q", "l"] if kind == "udl" else ["none", "p", "o"]))
            if change != "none":
                v[change] = round((v[change] or 0) * 1.5 + 0.5, 3)
            pool.append([kind, v])
    n = len(pool)
    T = st.tuples
    k = st.integers(0, 1)
    op = st.one_of(
        T(st.just("set"), k, st.integers(0, n - 1)), T(st.just("set"), k, st.integers(0, n - 1)),
        T(st.just("rm"), k, st.integers(0, n - 1)),
        T(st.just("boundary"), k, num(0.5, 12), num(15, 75, 1)),
        T(st.just("min"), k, st.one_of(st.none(), num(5, 60)), st.one_of(st.none(), num(5, 40))),
        T(st.just("water"), k, num(0, 10)),
        T(st.just("analyse"), k), T(st.just("plot"), k), T(st.just("clear"), k), T(st.just("read"), k, num(0, 10)),
    ).map(list)
    first = []
    for j in (0, 1):
        for i in range(n):
            if draw(st.integers(0, 3)):
                first.append(["set", j, i])
    first = draw(st.permutations(first))
    return {"slopes": slopes, "pool": pool, "ops": first + draw(st.lists(op, max_size=8)), "figures": draw(st.booleans())}


SUBS = [Sub("pairs", case(), run, 220, 8000)]
