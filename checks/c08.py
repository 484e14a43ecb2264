"""C08: results after every public call: gone after a change, untouched after a read."""
from core import Sub, Violation, Reject
from hist import *
import figs, io, contextlib

PROPERTY = "C08"
RULE = (
    "A case is a start boundary and a history of public calls (setters, updaters, removers, rejected calls, analyses, "
    "drawings, getters).  After every call the three getters are read: after a change they must report nothing computed "
    "before (an error, nothing, or what a freshly built slope would report), after reads and drawings exactly what they "
    "reported before.  At the end both failure drawings are tried under the same rule.  Non-trivial: at least one change "
    "was made while results with a factor of safety were available."
)
GETTERS = ("get_min_FOS", "get_min_FOS_circle", "get_min_FOS_end_points")
CHANGES = [m for m in MUTATORS]


def read(s):
    """what the getters report, None for each that reports nothing"""
    out = []
    for g in GETTERS:
        try:
            v = getattr(s, g)()
        except Exception:
            v = None
        if v in (None, 0, (), [], {}) or v == (0, 0, 0) or v == (0, 0):
            v = None
        out.append(v)
    return out


def check_gone(h, when, figures):
    got = read(h.s)
    figs_ = {}
    if figures:
        for name in ("plot_critical", "plot_all_planes"):
            try:
                figs_[name] = getattr(h.s, name)()
            except Exception:
                pass
    if got == [None] * 3 and not figs_:
        return
    # something is reported without a new analysis: only right if it is what a new analysis gives
    if not h.judgeable_planes():
        raise Reject("an individual plane no longer cuts the ground")
    t = h.fresh()
    t.analyse_slope()
    want = read(t)
    for g, a, b in zip(GETTERS, got, want):
        if a is not None and not figs.same_numbers(a, b, 1e-7):
            raise Violation(f"{when}: {g} still reports {a}, a new analysis gives {b}")
    for name, f in figs_.items():
        n = len([t for t in f.data if t.mode == "lines"])
        if want[0] is None and n <= len(h.s.plot_boundary().data):
            continue
        if want[0] is None or figs.diff(f, getattr(t, name)(), colors=False):
            raise Violation(f"{when}: {name} still draws planes of the earlier analysis")


def run(case, rec):
    h = Hist(case["slope"])
    current = None  # None = no results, otherwise what the getters report
    last_change = None
    for i, op in enumerate(case["ops"]):
        when = f"after {op} in {case['ops']}"
        before = read(h.s)
        res = h.apply(op)
        name = op[0]
        if name == "analyse":
            current = read(h.s)
            if current[0] is not None:
                rec.cls("analysis with results")
            continue
        now = read(h.s)
        if res in ("nothing", "rejected") or (name == "mats" and not op[1]):
            # nothing changed: the results may stay or go, but not differ
            if any(a is not None and not figs.same_numbers(a, b) for a, b in zip(now, before)):
                raise Violation(f"{when}: results changed from {before} to {now}")
            if now[0] is None:
                current = None
            rec.cls("call without effect")
            continue
        if name in READERS:
            if now != before:
                raise Violation(f"{when}: a read-only call changed the results from {before} to {now}")
            if before[0] is not None:
                rec.cls("read with results: " + name)
            continue
        # a change
        if before[0] is not None:
            rec.cls("change with results: " + name)
            rec.nontrivial()
            last_change = name
        check_gone(h, when, case["figures"] and before[0] is not None)
        current = None


def reader_ops():
    T = st.tuples
    return st.one_of(
        T(st.just("plot"), st.booleans(), st.booleans()), T(st.just("plot_critical")), T(st.just("read"), unit, unit),
        T(st.just("plot_all")), T(st.just("print")),
    ).map(list)


@st.composite
def case(draw, planes_ok):
    spec = draw(boundary(vertical=False))
    spec["h"] = min(spec["h"], 12)
    h = spec["h"]
    ops = [["mats", [draw(small_material(h))]]]
    ops += setup_ops(draw, h)
    change = op_strategy(h, planes_ok, [n for n in CHANGES] + ["bad"])
    for _ in range(draw(st.integers(1, 4))):
        if planes_ok and draw(st.integers(0, 3)):
            ops.append(["circle", "entry", draw(unit), draw(unit), draw(unit)])
        ops.append(["analyse", draw(st.sampled_from([None, None, None, 3.0]))])
        if draw(st.integers(0, 2)) == 0:
            ops.append(draw(op_strategy(h, planes_ok, READERS)))
        ops.append(draw(change))
    return {"slope": spec, "ops": ops, "figures": draw(st.integers(0, 5)) == 0}


# -- every mutating method once, with results surely present -------------------
def direct_calls():
    """name -> (call that changes the model, does it change results)"""
    from pyslope.pyslope import Material, Udl, LineLoad

    return {
        "set_external_boundary": lambda s, v: s.set_external_boundary(height=3 + v, angle=40),
        "set_external_boundary (length)": lambda s, v: s.set_external_boundary(height=3, length=2 + v),
        "set_water_table": lambda s, v: s.set_water_table(0.3 + v),
        "remove_water_table": lambda s, v: s.remove_water_table(),
        "set_udls": lambda s, v: s.set_udls(Udl(magnitude=30 + v, offset=v, length=2)),
        "set_udls (two)": lambda s, v: s.set_udls(Udl(magnitude=30 + v, offset=v, length=2), Udl(5)),
        "remove_udls": lambda s, v: s.remove_udls(Udl(magnitude=20, offset=1, length=1)),
        "remove_udls (all)": lambda s, v: s.remove_udls(remove_all=True),
        "set_lls": lambda s, v: s.set_lls(LineLoad(magnitude=50 + v, offset=v)),
        "remove_lls": lambda s, v: s.remove_lls(LineLoad(magnitude=10, offset=1)),
        "remove_lls (all)": lambda s, v: s.remove_lls(remove_all=True),
        "set_materials": lambda s, v: s.set_materials(Material(21, 20, 1, 2.4 + v)),
        "remove_material (depth)": lambda s, v: s.remove_material(depth=1),
        "remove_material (object)": lambda s, v: s.remove_material(material=s._materials[0]),
        "remove_material (all)": lambda s, v: s.remove_material(remove_all=True),
        "update_water_analysis_options": lambda s, v: s.update_water_analysis_options(auto=False, H=min(1, 0.1 + v)),
        "update_water_analysis_options (auto)": lambda s, v: (s.update_water_analysis_options(auto=False, H=0.01), s.update_water_analysis_options(auto=True)),
        "update_analysis_options (slices)": lambda s, v: s.update_analysis_options(slices=11 + int(40 * v)),
        "update_analysis_options (iterations)": lambda s, v: s.update_analysis_options(iterations=700 + int(100 * v)),
        "update_analysis_options (distance)": lambda s, v: s.update_analysis_options(min_failure_dist=3 + v),
        "update_analysis_options (tolerance)": lambda s, v: s.update_analysis_options(tolerance=1e-8),
        "update_analysis_options (max_iterations)": lambda s, v: s.update_analysis_options(max_iterations=1),
        "update_boundary_options (length)": lambda s, v: s.update_boundary_options(MIN_EXT_L=33 + v),
        "update_boundary_options (height)": lambda s, v: s.update_boundary_options(MIN_EXT_H=33 + v),
        "set_analysis_limits": lambda s, v: s.set_analysis_limits(left_x=0.5 + v),
        "set_analysis_limits (inner)": lambda s, v: s.set_analysis_limits(left_x_right=s.get_top_coordinates()[0] - 0.3 - v),
        "set_analysis_limits (exit)": lambda s, v: s.set_analysis_limits(right_x_left=s.get_bottom_coordinates()[0] + v),
        "remove_analysis_limits": lambda s, v: s.remove_analysis_limits(),
        "add_single_entry_exit_plane": lambda s, v: s.add_single_entry_exit_plane(s.get_top_coordinates()[0] - 1 - v, s.get_bottom_coordinates()[0] + 1),
        "add_single_circular_plane": lambda s, v: s.add_single_circular_plane(s.get_top_coordinates()[0] + 1, s.get_top_coordinates()[1] + 1 + v, 4.5),
        "remove_individual_planes": lambda s, v: s.remove_individual_planes(),
    }


READS = {
    "get_top_coordinates": lambda s, v: s.get_top_coordinates(),
    "get_bottom_coordinates": lambda s, v: s.get_bottom_coordinates(),
    "get_external_y_intersection": lambda s, v: s.get_external_y_intersection(v * 10),
    "get_external_x_intersection": lambda s, v: s.get_external_x_intersection(v * 10),
    "get_dynamic_results": lambda s, v: s.get_dynamic_results(),
    "print_dynamic_results": lambda s, v: s.print_dynamic_results(),
    "get_min_FOS": lambda s, v: s.get_min_FOS(),
    "get_min_FOS_circle": lambda s, v: s.get_min_FOS_circle(),
    "get_min_FOS_end_points": lambda s, v: s.get_min_FOS_end_points(),
    "plot_boundary": lambda s, v: s.plot_boundary(),
    "plot_critical": lambda s, v: s.plot_critical(),
    "plot_all_planes": lambda s, v: s.plot_all_planes(max_fos=0.5 + v),
    "plot_all_planes (all)": lambda s, v: s.plot_all_planes(max_fos=None, material_table=False),
    "repr": lambda s, v: repr(s),
}


def run_direct(case, rec):
    """one analysed slope; one call; did the results go (change) or stay (read)?"""
    from pyslope.pyslope import Slope, Material, Udl, LineLoad

    s = Slope(height=3, angle=35)
    s.set_materials(Material(20, 30, 3, 1), Material(19, 25, 4, 5))
    s.set_udls(Udl(magnitude=20, offset=1, length=1, dynamic_offset=case["dynamic"]), Udl(7, offset=0.5, length=0.6))
    s.set_lls(LineLoad(magnitude=10, offset=1), LineLoad(magnitude=12, offset=0.5))
    s.set_water_table(1.5)
    s.set_analysis_limits(left_x=0.2, right_x=s.get_bottom_coordinates()[0] + 3)
    s.update_analysis_options(slices=10, iterations=500)
    if case["planes"]:
        tx, bx = s.get_top_coordinates()[0], s.get_bottom_coordinates()[0]
        s.add_single_entry_exit_plane(tx - 1.5, bx + 0.8, 4)
        s.add_single_circular_plane(tx + 1, s.get_top_coordinates()[1] + 2, 5)
    with contextlib.redirect_stdout(io.StringIO()):
        if case["dynamic"]:
            s.analyse_dynamic(critical_fos=case["critical"])
        else:
            s.analyse_slope()
        before = read(s)
        if before[0] is None:
            raise Reject("no results")
        all_before = [dict(p) for p in planes(s)]
        for name in case["reads"]:
            if name.startswith("plot_all") and not case["planes"]:
                continue  # hundreds of planes
            READS[name](s, case["v"])
            if read(s) != before or [dict(p) for p in planes(s)] != all_before:
                raise Violation(f"{name} changed the results from {before} to {read(s)}")
            rec.cls("read: " + name)
        change = direct_calls()[case["change"]]
        if case["dynamic"] and case["change"].startswith("remove_udls"):
            rec.cls("dynamic load removed")
        change(s, case["v"])
        after = read(s)
    rec.cls("change: " + case["change"])
    rec.nontrivial()
    if after == [None] * 3:
        stale_plots(s, case)
        return
    # reported without a new analysis: acceptable only if a new analysis gives the same
    s.analyse_slope()
    want = read(s)
    if any(a is not None and not figs.same_numbers(a, b, 1e-9) for a, b in zip(after, want)):
        raise Violation(f"after {case['change']} the getters still report {after}, a new analysis gives {want}")
    # the same value may be a coincidence of a change that does not matter here
    rec.cls("unchanged by: " + case["change"])


def stale_plots(s, case):
    if not case["figures"]:
        return
    base = len(s.plot_boundary().data)
    for name in ("plot_critical", "plot_all_planes"):
        try:
            f = getattr(s, name)(legend=False)
        except Exception:
            continue
        if len(f.data) > base:
            raise Violation(f"after {case['change']}: {name} draws planes although nothing was analysed since")


DIRECT = (
    "set_external_boundary|set_external_boundary (length)|set_water_table|remove_water_table|set_udls|set_udls (two)|"
    "remove_udls|remove_udls (all)|set_lls|remove_lls|remove_lls (all)|set_materials|remove_material (depth)|"
    "remove_material (object)|remove_material (all)|update_water_analysis_options|update_water_analysis_options (auto)|"
    "update_analysis_options (slices)|update_analysis_options (iterations)|update_analysis_options (distance)|"
    "update_analysis_options (tolerance)|update_analysis_options (max_iterations)|update_boundary_options (length)|"
    "update_boundary_options (height)|set_analysis_limits|set_analysis_limits (inner)|set_analysis_limits (exit)|"
    "remove_analysis_limits|add_single_entry_exit_plane|add_single_circular_plane|remove_individual_planes"
).split("|")

direct = st.fixed_dictionaries({
    "change": st.sampled_from(DIRECT),
    "reads": st.lists(st.sampled_from(sorted(READS)), max_size=2),
    "planes": st.sampled_from([True, True, True, False]),
    "dynamic": st.sampled_from([False] * 15 + [True]),
    "critical": num(0.5, 3),
    "v": st.one_of(num(0.05, 0.9), st.just(0.5)),
    "figures": st.sampled_from([False] * 9 + [True]),
})

SUBS = [Sub("history", case(True), run, 170, 12000), Sub("search", case(False), run, 45, 3000), Sub("calls", direct, run_direct, 450, 20000)]
