"""Histories of public calls on one slope, tracked by a plain model of its state.

The model knows nothing about how the code stores things: it is the list of what the
user last asked for (see `state`), plus the documented rule that the boundary minimums
grow to fit loads and layers."""
from core import Violation, Reject
from gen import *
from ref import Ref


def num_ok(v):
    return type(v) in (int, float)


class Hist:
    def __init__(self, spec):
        from pyslope.pyslope import Slope

        self.state = {
            "h": spec["h"], "angle": spec.get("angle"), "length": spec.get("length"),
            "min_l": 10, "min_h": 6, "mats": [], "udls": [], "lls": [], "water": None, "H": None,
            "opts": {"slices": 10, "iterations": 500}, "limits": None, "planes": [],
        }
        self.s = Slope(height=spec["h"], angle=spec.get("angle"), length=spec.get("length"))
        self.s.update_analysis_options(slices=10, iterations=500)
        self.mat_objs, self.udl_objs, self.ll_objs = [], [], []
        self.log = []

    # ---- model -------------------------------------------------------------
    def dims(self):
        """(h, L, ext_h, ext_l) by the documented rule"""
        st_ = self.state
        L = st_["length"]
        if L is None:
            L = st_["h"] / tan(radians(st_["angle"]))
        L = max(L, 0.001)
        return st_["h"], L

    def rebuild(self):
        """the boundary is laid out anew: returns the outline"""
        st_ = self.state
        h, L = self.dims()
        for u in st_["udls"]:
            st_["min_l"] = max(st_["min_l"], (u["o"] + (u["l"] or 3)) * 2.5)
        for p in st_["lls"]:
            st_["min_l"] = max(st_["min_l"], p["o"] * 3)
        tot_h = max(3 * h, st_["min_h"], 2.5 * L)
        for m in sorted(st_["mats"], key=lambda m: m["d"]):
            if m["d"] > tot_h:
                st_["min_h"] = tot_h = m["d"]
        tot_l = max(5 * L, st_["min_l"], 4 * h)
        return (h, L, tot_h, tot_l)

    def outline(self):
        h, L = self.dims()
        st_ = self.state
        return (h, L, max(3 * h, st_["min_h"], 2.5 * L), max(5 * L, st_["min_l"], 4 * h))

    def relayout(self, before):
        after = self.rebuild()
        if after != before:
            if max(abs(a - b) for a, b in zip(after, before)) < 1e-9:
                raise Reject("outline change within rounding")
            self.state["limits"] = None

    def ref(self):
        return Ref(self.state)

    def limits(self):
        r = self.ref()
        return self.state["limits"] or [0, r.top[0], r.top[0], r.ext_l]

    # ---- operations ----------------------------------------------------------
    def apply(self, op):
        """do one operation on the slope and on the model"""
        self.log.append(op)
        name, a = op[0], op[1:]
        return getattr(self, "op_" + name)(*a)

    def op_boundary(self, h, angle, L):
        before = self.outline()
        self.s.set_external_boundary(height=h, angle=angle, length=L)
        self.state.update(h=h, angle=angle, length=L)
        self.relayout(before)

    def op_min(self, l, h):
        before = self.outline()
        self.s.update_boundary_options(MIN_EXT_L=l, MIN_EXT_H=h)
        if l:
            self.state["min_l"] = l
        if h:
            self.state["min_h"] = h
        self.relayout(before)

    def op_mats(self, ms):
        from pyslope.pyslope import Material

        depths = [m["d"] for m in ms] + [m["d"] for m in self.state["mats"]]
        objs = [make_material(m) for m in ms]
        if len(set(depths)) < len(depths):
            self.expect_error(lambda: self.s.set_materials(*objs))
            return "rejected"
        before = self.outline()
        self.s.set_materials(*objs)
        if depths and max(depths) > before[2]:
            self.state["min_h"] = max(depths)
            self.relayout(before)
        self.state["mats"] += ms
        self.mat_objs += objs

    def op_rm_mat(self, i):
        if not self.mat_objs:
            return "nothing"
        i = i % len(self.mat_objs)
        self.s.remove_material(self.mat_objs[i])
        del self.mat_objs[i], self.state["mats"][i]

    def op_rm_depth(self, i, miss):
        if not self.mat_objs or miss:
            self.s.remove_material(depth=98.7654)
            return "nothing"
        i = i % len(self.mat_objs)
        self.s.remove_material(depth=self.state["mats"][i]["d"])
        del self.mat_objs[i], self.state["mats"][i]

    def op_rm_mats(self):
        self.s.remove_material(remove_all=True)
        self.mat_objs, self.state["mats"] = [], []

    def near(self, kind, loads):
        """the loads to set; {"near": i, key: value} is load i of the model with one value changed"""
        have = self.state[kind]
        out = []
        for d in loads:
            if "near" not in d:
                out.append(d)
            elif have:
                d = dict(d)
                out.append({**have[d.pop("near") % len(have)], **d})
        return out

    def op_udls(self, us):
        us = self.near("udls", us)
        if not us:
            return "nothing"
        objs = [make_udl(u) for u in us]
        self.s.set_udls(*objs)
        for u, o in zip(us, objs):
            if u["q"] == 0:
                continue
            before = self.outline()
            self.state["udls"].append(u)
            self.udl_objs.append(o)
            need = (u["o"] + (u["l"] or 3)) * 2.5
            if need > self.state["min_l"]:
                self.state["min_l"] = need
                self.relayout(before)

    def op_lls(self, ps):
        ps = self.near("lls", ps)
        if not ps:
            return "nothing"
        objs = [make_ll(p) for p in ps]
        self.s.set_lls(*objs)
        for p, o in zip(ps, objs):
            if p["p"] == 0:
                continue
            before = self.outline()
            self.state["lls"].append(p)
            self.ll_objs.append(o)
            if p["o"] * 3 > self.state["min_l"]:
                self.state["min_l"] = p["o"] * 3
                self.relayout(before)

    def op_rm_udl(self, i, copy):
        if not self.udl_objs:
            return "nothing"
        i = i % len(self.udl_objs)
        u = self.state["udls"][i]
        self.s.remove_udls(make_udl(u) if copy else self.udl_objs[i])
        keep = [k for k, v in enumerate(self.state["udls"]) if (v["q"], v["o"], v["l"] or None) != (u["q"], u["o"], u["l"] or None)]
        self.udl_objs = [self.udl_objs[k] for k in keep]
        self.state["udls"] = [self.state["udls"][k] for k in keep]

    def op_rm_ll(self, i, copy):
        if not self.ll_objs:
            return "nothing"
        i = i % len(self.ll_objs)
        p = self.state["lls"][i]
        self.s.remove_lls(make_ll(p) if copy else self.ll_objs[i])
        keep = [k for k, v in enumerate(self.state["lls"]) if (v["p"], v["o"]) != (p["p"], p["o"])]
        self.ll_objs = [self.ll_objs[k] for k in keep]
        self.state["lls"] = [self.state["lls"][k] for k in keep]

    def op_rm_udls(self):
        self.s.remove_udls(remove_all=True)
        self.udl_objs, self.state["udls"] = [], []

    def op_rm_lls(self):
        self.s.remove_lls(remove_all=True)
        self.ll_objs, self.state["lls"] = [], []

    def op_water(self, d):
        if d == "toe":
            d = self.state["h"]
        self.s.set_water_table(d)
        self.state["water"] = d

    def op_rm_water(self, by_none=False):
        if by_none:
            self.s.set_water_table(None)
        else:
            self.s.remove_water_table()
        self.state["water"] = None

    def op_head(self, H):
        if H is None:
            self.s.update_water_analysis_options(auto=True)
        else:
            self.s.update_water_analysis_options(auto=False, H=H)
        self.state["H"] = H

    def op_opts(self, o):
        self.s.update_analysis_options(**o)
        self.state["opts"] = {**self.state["opts"], **o}

    def op_limits(self, rel):
        r = self.ref()
        vals = [v if v is None else round(v * w, 3) for v, w in zip(rel, (r.top[0], r.top[0], r.ext_l, r.ext_l))]
        cur = self.limits()
        new = []
        ok = True
        for i, (v, c) in enumerate(zip(vals, cur)):
            if v is not None and (v < 0 or (v == 0 and i)):
                ok = False
            new.append(c if v is None else v)
        new = [max(new[0], 0), min(new[1], r.top[0]), max(new[2], r.top[0]), min(new[3], r.ext_l)]
        if abs(new[0] - new[1]) < 1e-9 or abs(new[2] - new[3]) < 1e-9:
            raise Reject("limits equal within rounding")
        if new[0] >= new[1] or new[2] >= new[3]:
            ok = False

        def call():
            self.s.set_analysis_limits(left_x=vals[0], left_x_right=vals[1], right_x_left=vals[2], right_x=vals[3])

        if not ok:
            self.expect_error(call)
            return "rejected"
        call()
        self.state["limits"] = new

    def op_rm_limits(self):
        self.s.remove_analysis_limits()
        self.state["limits"] = None

    def op_circle(self, kind, u, v, w):
        r = self.ref()
        c = circle_from(r, kind, u, v, w)
        if c is None or min(c) < 1e-3:
            return "nothing"
        pts, margin = r.crossings(*c)
        if margin < 5e-7:
            raise Reject("circle touches a ground corner")
        self.s.add_single_circular_plane(*c)
        if len(pts) >= 2:
            self.state["planes"].append(list(c))

    def op_ee(self, u, v, n):
        r = self.ref()
        x1, x2 = r.top[0] * u, r.top[0] + (r.ext_l - r.top[0]) * v
        if x2 - x1 < 0.05:
            return "nothing"
        cs = r.entry_exit_circles((x1, r.ground(x1)), (x2, r.ground(x2)), n)
        keep = []
        for c in cs:
            pts, margin = r.crossings(*c)
            if margin < 5e-7:
                raise Reject("circle touches a ground corner")
            if len(pts) >= 2:
                keep.append(list(c))
        self.s.add_single_entry_exit_plane(x1, x2, n)
        self.state["planes"] += keep

    def op_rm_planes(self):
        self.s.remove_individual_planes()
        self.state["planes"] = []

    def op_analyse(self, max_fos=None):
        if max_fos:
            self.s.analyse_slope(max_fos=max_fos)
        else:
            self.s.analyse_slope()

    def op_plot(self, table=True, legend=False):
        self.s.plot_boundary(material_table=table, legend=legend)

    def op_plot_critical(self):
        if planes(self.s):
            self.s.plot_critical()

    def op_read(self, u, v):
        r = self.ref()
        self.s.get_external_y_intersection(u * r.ext_l)
        self.s.get_external_x_intersection(v * r.ext_h)
        self.s.get_top_coordinates()
        self.s.get_bottom_coordinates()
        self.s.get_dynamic_results()
        if planes(self.s):
            self.s.get_min_FOS()
            self.s.get_min_FOS_circle()
            self.s.get_min_FOS_end_points()
        repr(self.s)

    def op_bad(self, kind, i):
        s = self.s
        from pyslope.pyslope import Material

        calls = {
            "height": lambda: s.set_external_boundary(height=[-1, 0, "3", -0.5][i % 4], length=2),
            "angle": lambda: s.set_external_boundary(height=2, angle=[0, -5, 90.5, 200, "45"][i % 5]),
            "length": lambda: s.set_external_boundary(height=2, length=[-1, "2", -0.001][i % 3]),
            "neither": lambda: s.set_external_boundary(height=2, angle=None, length=None),
            "water": lambda: s.set_water_table([-1, "a", -0.01][i % 3]),
            "min_l": lambda: s.update_boundary_options(MIN_EXT_L=[-1, "a", -20][i % 3]),
            "min_h": lambda: s.update_boundary_options(MIN_EXT_H=[-1, "a", -20][i % 3]),
            "min_both": lambda: s.update_boundary_options(MIN_EXT_L=[77, -3, "b"][i % 3], MIN_EXT_H=[-1, 55, 44][i % 3]),
            "mat_type": lambda: s.set_materials([None, "m", 3, {"a": 1}][i % 4]),
            "mat_mixed": lambda: s.set_materials(Material(20, 30, 5, 77.7), [None, "m", 3][i % 3]),
            "mat_twice": lambda: s.set_materials(Material(20, 30, 5, 66.6), Material(18, 30, 5, 66.6)),
            "head": lambda: s.update_water_analysis_options(auto=False, H=["a", None, [1]][i % 3]),
            "limits": lambda: s.set_analysis_limits(**[{"left_x": -1}, {"right_x": 0}, {"left_x_right": "a"}, {"right_x_left": -2}, {"left_x": 1e9}, {"right_x": 1e-6}][i % 6]),
        }
        self.expect_error(calls[kind], kind)
        return "rejected"

    def expect_error(self, call, what=""):
        try:
            call()
        except ValueError:
            return
        raise Violation(f"no ValueError for the rejected call {self.log[-1]} {what}")

    # ---- comparison ----------------------------------------------------------
    def fresh(self, flip=False):
        """a new slope with the current state, built in a canonical order"""
        from pyslope.pyslope import Slope

        st_ = self.state
        s = Slope(height=st_["h"], angle=st_["angle"], length=st_["length"])
        s.update_boundary_options(MIN_EXT_L=st_["min_l"], MIN_EXT_H=st_["min_h"])
        ms, us, ps = st_["mats"], st_["udls"], st_["lls"]
        if flip:
            ms, us, ps = ms[::-1], us[::-1], ps[::-1]
        if ps:
            s.set_lls(*[make_ll(p) for p in ps])
        if us:
            s.set_udls(*[make_udl(u) for u in us])
        if ms:
            s.set_materials(*[make_material(m) for m in ms])
        s.update_analysis_options(**st_["opts"])
        if st_["H"] is not None:
            s.update_water_analysis_options(auto=False, H=st_["H"])
        if st_["water"] is not None:
            s.set_water_table(st_["water"])
        if st_["limits"]:
            x = st_["limits"]
            s.set_analysis_limits(left_x=x[0], left_x_right=x[1], right_x_left=x[2], right_x=x[3])
        for c in st_["planes"]:
            s.add_single_circular_plane(*c)
        return s

    def judgeable_planes(self):
        """individual planes all cut the current ground clearly, or there are none"""
        r = self.ref()
        for c in self.state["planes"]:
            pts, margin = r.crossings(*c)
            if len(pts) < 2 or margin < 5e-7:
                return False
        return True


MUTATORS = (
    "boundary min mats rm_mat rm_depth rm_mats udls rm_udl rm_udls lls rm_ll rm_lls water rm_water head opts limits "
    "rm_limits circle ee rm_planes"
).split()
READERS = ("plot", "plot_critical", "read")


@st.composite
def small_material(draw, h):
    m = draw(material())
    m["d"] = draw(st.one_of(num(0.1, 2).map(lambda k: round(k * h, 2)), st.integers(1, 12), num(0, 25, 1)))
    if draw(st.integers(0, 9)) == 0:
        m["d"] = h
    return m


def stretch_ops(draw, h):
    """something enlarges the model's minimums, goes again, and a small boundary follows"""
    k = draw(st.sampled_from(["udl", "ll", "mat", "min"]))
    o = round(draw(num(1, 8)), 2)
    wide = [["boundary", h, None, o]] if draw(st.booleans()) else []
    if k == "udl":
        put = [["udls", [{"q": 5, "o": o, "l": draw(st.one_of(st.none(), num(0.1, 8)))}]], ["rm_udls"]]
    elif k == "ll":
        put = [["lls", [{"p": 5, "o": o * 2}]], ["rm_lls"]]
    elif k == "mat":
        put = [["mats", [{"uw": 18, "phi": 20, "c": 5, "d": round(5 + 3 * o, 2)}]], ["rm_mats"], ["mats", [{"uw": 19, "phi": 25, "c": 4, "d": 3}]]]
    else:
        put = [["min", 10 + 2 * o, 6 + o]]
    return wide + put + [["boundary", draw(num(0.5, 3)), draw(num(20, 80, 1)), None]]


def near_load(h, kind):
    """a load that differs from one already set in one value"""
    full = udl(h) if kind == "udls" else ll(h)
    keys = "qol" if kind == "udls" else "po"

    def one(x):
        i, k, d = x
        k = keys[k % len(keys)]
        return {"near": i, k: d[k]}

    return st.tuples(st.integers(0, 3), st.integers(0, 5), full).map(one)


def setup_ops(draw, h):
    """calls that fill the model, so that later calls have something to change"""
    ops = []
    rel = st.tuples(unit.map(lambda u: u * 0.4), unit.map(lambda u: 0.5 + u * 0.6), unit.map(lambda u: 0.3 + 0.25 * u), unit.map(lambda u: 0.8 + 0.4 * u)).map(list)
    if draw(st.integers(0, 4)):
        ops.append(["mats", draw(st.lists(small_material(h), min_size=1, max_size=3))])
    if draw(st.booleans()):
        ops.append(["udls", draw(st.lists(udl(h), min_size=1, max_size=2))])
        if draw(st.integers(0, 2)) == 0:
            ops.append(["udls", [draw(near_load(h, "udls"))]])
    if draw(st.booleans()):
        ops.append(["lls", draw(st.lists(ll(h), min_size=1, max_size=3))])
        if draw(st.integers(0, 2)) == 0:
            ops.append(["lls", [draw(near_load(h, "lls"))]])
    if draw(st.booleans()):
        ops.append(["water", draw(num(0, 1.5).map(lambda k: round(k * h, 2)))])
    if draw(st.integers(0, 2)) == 0:
        ops.append(["limits", draw(rel)])
    if draw(st.integers(0, 2)) == 0:
        ops.append(["analyse", None])
    return ops


def op_strategy(h, planes_ok=True, names=None, opts_ok=True):
    rel = st.lists(st.one_of(st.none(), unit), min_size=4, max_size=4)
    good = st.tuples(unit.map(lambda u: u * 0.4), unit.map(lambda u: 0.5 + u * 0.6), unit.map(lambda u: 0.3 + 0.25 * u), unit.map(lambda u: 0.8 + 0.4 * u)).map(list)
    new_h = st.one_of(num(0.5, 10), st.just(h))
    T = st.tuples
    ops = {
        "boundary": st.one_of(
            T(st.just("boundary"), new_h, num(10, 85, 1), st.none()),
            T(st.just("boundary"), new_h, st.none(), num(0.2, 20)),
        ),
        "min": st.one_of(
            T(st.just("min"), num(1, 60), st.none()), T(st.just("min"), st.none(), num(1, 40)), T(st.just("min"), num(1, 60), num(1, 40))
        ),
        "mats": T(st.just("mats"), st.one_of(*[st.lists(small_material(h), min_size=1, max_size=3)] * 7, st.lists(small_material(h), min_size=6, max_size=12, unique_by=lambda m: m["d"]))),
        "rm_mat": T(st.just("rm_mat"), st.integers(0, 5)),
        "rm_depth": T(st.just("rm_depth"), st.integers(0, 5), st.sampled_from([False, False, False, True])),
        "rm_mats": T(st.just("rm_mats")),
        "udls": T(st.just("udls"), st.lists(st.one_of(udl(h), near_load(h, "udls")), min_size=1, max_size=2)),
        "rm_udl": T(st.just("rm_udl"), st.integers(0, 5), st.booleans()),
        "rm_udls": T(st.just("rm_udls")),
        "lls": T(st.just("lls"), st.lists(st.one_of(ll(h), near_load(h, "lls")), min_size=1, max_size=2)),
        "rm_ll": T(st.just("rm_ll"), st.integers(0, 5), st.booleans()),
        "rm_lls": T(st.just("rm_lls")),
        "water": T(st.just("water"), st.one_of(num(0, 1.6).map(lambda k: round(k * h, 2)), num(0, 30, 1), num(0, 1.6).map(lambda k: round(k * h, 2)), st.sampled_from([0, "toe"]))),
        "rm_water": T(st.just("rm_water"), st.booleans()),
        "head": T(st.just("head"), st.one_of(st.none(), num(0, 1), st.sampled_from([0, 1, 1.0]))),
        "limits": T(st.just("limits"), st.one_of(good, good, rel)),
        "rm_limits": T(st.just("rm_limits")),
        "analyse": T(st.just("analyse"), st.one_of(st.none(), num(1, 5, 1))),
        "plot": T(st.just("plot"), st.booleans(), st.booleans()),
        "plot_critical": T(st.just("plot_critical")),
        "read": T(st.just("read"), unit, unit),
        "bad": T(
            st.just("bad"),
            st.sampled_from("height angle length neither water min_l min_h min_both mat_type mat_mixed mat_twice head limits".split()),
            st.integers(0, 5),
        ),
    }
    if opts_ok:
        ops["opts"] = T(
            st.just("opts"),
            st.one_of(
                st.fixed_dictionaries({"slices": st.integers(10, 30)}),
                st.fixed_dictionaries({"tolerance": st.sampled_from([0.05, 0.001, 1e-6]), "max_iterations": st.integers(3, 40)}),
                st.fixed_dictionaries({"min_failure_dist": num(0, 3)}),
                st.fixed_dictionaries({"iterations": st.integers(500, 700)}),
            ),
        )
    if planes_ok:
        ops["circle"] = T(st.just("circle"), st.sampled_from(["entry", "toe", "crest", "entry"]), unit, unit, unit)
        ops["ee"] = T(st.just("ee"), unit, unit, st.integers(1, 4))
        ops["rm_planes"] = T(st.just("rm_planes"))
    if names is not None:
        ops = {k: v for k, v in ops.items() if k in names}
    return st.one_of(*ops.values()).map(list)
