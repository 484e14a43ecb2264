"""Dynamic analyses: generated slopes with dynamic loads, and the static model of each step."""
from core import Violation, Reject
from gen import *
from ref import Ref


class State:
    """what a dynamic analysis works on: the slope as last asked for, its minimum length, where the loads are"""

    def __init__(self, spec):
        self.spec = dict(spec)
        self.min_l = spec.get("min_l") or 10
        self.grow(self.spec)

    def need(self, spec):
        n = 0
        for u in spec["udls"]:
            n = max(n, (u["o"] + (u["l"] or 3)) * 2.5)
        for p in spec["lls"]:
            n = max(n, p["o"] * 3)
        return n

    def grow(self, spec):
        self.min_l = max(self.min_l, self.need(spec))

    def at(self, offset):
        """specification with all dynamic loads at the offset; the model has grown to fit them"""
        spec = dict(self.spec, min_l=self.min_l)
        spec["udls"] = [dict(u, o=offset) if u.get("dyn") else u for u in spec["udls"]]
        spec["lls"] = [dict(p, o=offset) if p.get("dyn") else p for p in spec["lls"]]
        self.grow(spec)
        spec["min_l"] = self.min_l
        return spec

    def outline(self):
        return Ref(dict(self.spec, min_l=self.min_l)).ext_l

    def far(self):
        r = Ref(dict(self.spec, min_l=self.min_l))
        left = r.L
        for u in self.spec["udls"]:
            if u.get("dyn"):
                left = max(left, r.top[0] - (u["l"] or 0))
        return max(left - 0.01, 0.0)


def add_circles(s, spec, params):
    """individual planes, in the coordinates of the slope as first built"""
    n = 0
    for c in circles_of(Ref(spec), params):
        s.add_single_circular_plane(*c)
        n += 1
    return n


def static_fos(spec, params, first):
    """critical factor of safety of a freshly built slope, None when nothing can slide"""
    s = build(spec)
    if params:
        add_circles(s, first, params)
    s.analyse_slope()
    return (s.get_min_FOS() if planes(s) else None), s


@st.composite
def dynamic_slope(draw, quick):
    """a slope with at least one dynamic load; `quick`: judged on a few individual planes"""
    spec = draw(slope(mats=(1, 3), n_udl=0, n_ll=0, vertical=not quick, ext=not quick, opts=st.just({})))
    h = spec["h"] = min(spec["h"], 12)
    for m in spec["mats"]:
        m["d"] = round(min(m["d"], 3 * h), 3)
    if len({m["d"] for m in spec["mats"]}) < len(spec["mats"]):
        spec["mats"] = spec["mats"][:1]
    if quick:
        # slopes long enough that moving loads back does not make the model longer
        spec["angle"] = None
        spec["length"] = draw(st.one_of(num(0.8, 4).map(lambda k: max(2, round(k * h, 2))), num(0.8, 2).map(lambda k: max(2.0, k * h))))
        spec["water"] = None if spec["water"] is None else min(spec["water"], 2 * h)
        spec.pop("min_l", None)
    spec["opts"] = {"slices": draw(st.integers(10, 14)), "iterations": 500}
    L = Ref(spec).L
    def load(kind):
        d = draw(udl(h) if kind == "udl" else ll(h))
        d["o"] = round(min(d["o"], 1.5 * L), 3)
        if kind == "udl" and d["l"] is not None:
            d["l"] = min(d["l"], max(0.1, round(0.4 * L, 2)))
        d["q" if kind == "udl" else "p"] *= draw(st.sampled_from([1, 1, 3]))
        return d
    spec["udls"] = [load("udl") for _ in range(draw(st.integers(0, 2)))]
    spec["lls"] = [load("ll") for _ in range(draw(st.integers(0, 2)))]
    both = spec["udls"] + spec["lls"]
    if not both:
        spec["lls"] = both = [load("ll")]
    dyn = draw(st.lists(st.booleans(), min_size=len(both), max_size=len(both)))
    if not any(dyn):
        dyn[draw(st.integers(0, len(dyn) - 1))] = True
    for d, x in zip(both, dyn):
        d["dyn"] = x
        if quick and d.get("l", 1) is None:
            d["l"] = 1.5
    params = draw(st.lists(circle_params(("entry", "toe", "crest", "toe")), min_size=4, max_size=10)) if quick else []
    return spec, params
