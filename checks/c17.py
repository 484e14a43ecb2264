"""C17: drawings inserted anywhere in a history neither fail nor change anything."""
from core import Sub, Violation, Reject
from hist import *
import figs

PROPERTY = "C17"
RULE = (
    "A case is a history of public calls, including rejected calls, analyses and a dynamic analysis, and drawings (boundary, "
    "critical plane, all planes, each with and without table) inserted between the calls.  The same history is run with and "
    "without the drawings: each drawing has to succeed, be repeatable, and leave results, dynamic results, ground look-ups "
    "and the final drawing as they are without it.  Non-trivial: at least two drawings before a later change of the model, "
    "and a drawing of planes or a final analysis with results."
)
AFTER_DYNAMIC = "analyse water rm_water head mats rm_mat opts plot_critical".split()


def dynamic(h, critical, loads):
    h.log.append(["dynamic", critical])
    try:
        h.s.analyse_dynamic(critical_fos=critical)
        return "done"
    except (IndexError, ValueError) as e:
        return type(e).__name__


def step(h, op):
    return dynamic(h, op[1], None) if op[0] == "dynamic" else h.apply(op)


def draw_one(s, kind, table, rec, where):
    if kind != "boundary" and not planes(s):
        return None
    before = results(s)
    f = {"boundary": s.plot_boundary, "critical": s.plot_critical, "all": s.plot_all_planes}[kind]
    kw = {"material_table": table}
    if kind == "all":
        kw["legend"] = False
        # few enough to draw
        kw["max_fos"] = before[min(len(before) - 1, 15)][3]
    fig = f(**kw)
    again = f(**kw) if kind != "all" else None
    if again is not None:
        d = figs.diff(fig, again, unordered=False)
        if d:
            raise Violation(f"{where}: drawn twice, the {kind} drawing differs: {d}")
    if results(s) != before:
        raise Violation(f"{where}: the {kind} drawing changed the results")
    rec.cls(f"{kind} drawn")
    return fig


def observe(s, r):
    out = {"planes": [(p["c_x"], p["c_y"], p["radius"], p["FOS"], list(p["l_c"]), list(p["r_c"])) for p in planes(s)]}
    out["dynamic"] = dict(s.get_dynamic_results())
    out["top"], out["bot"] = list(s.get_top_coordinates()), list(s.get_bottom_coordinates())
    if planes(s):
        out["min"] = (s.get_min_FOS(), s.get_min_FOS_circle(), s.get_min_FOS_end_points())
    out["ground"] = [s.get_external_y_intersection(k / 7 * r.ext_l) for k in range(8)]
    return out


def run(case, rec):
    a, b = Hist(case["start"]), Hist(case["start"])
    drawn, late = 0, False
    moved = False
    for i, op in enumerate(case["ops"]):
        if moved and op[0] not in AFTER_DYNAMIC:
            continue
        ra, rb = step(a, op), step(b, op)
        if ra != rb:
            raise Violation(f"{op} gave {ra!r} after drawings and {rb!r} without")
        if op[0] == "dynamic":
            moved = True
        if op[0] in MUTATORS and drawn >= 2:
            late = True
        for j, kind, table in case["draws"]:
            if j == i:
                draw_one(a.s, kind, table, rec, f"after {op}")
                drawn += 1
    r = a.ref()
    oa, ob = observe(a.s, r), observe(b.s, r)
    if oa != ob:
        k = [k for k in oa if oa.get(k) != ob.get(k)] or list(ob)
        raise Violation(f"drawings changed {k[0]}: {str(oa.get(k[0]))[:300]}, without them {str(ob.get(k[0]))[:300]}")
    fa, fb = a.s.plot_boundary(material_table=case["table"]), b.s.plot_boundary(material_table=case["table"])
    d = figs.diff(fa, fb, unordered=False)
    if d:
        raise Violation(f"the final drawing differs after earlier drawings: {d}")
    a.s.analyse_slope(), b.s.analyse_slope()
    if results(a.s) != results(b.s):
        raise Violation("an analysis after drawings gives other results than without them")
    for kind in ("critical", "all") if case["all"] else ("critical",):
        fig = draw_one(a.s, kind, case["table"], rec, "at the end")
        if fig is not None:
            d = figs.diff(fig, draw_one(b.s, kind, case["table"], rec, "at the end"), unordered=False)
            if d:
                raise Violation(f"the final {kind} drawing differs: {d}")
    rec.nontrivial(late and bool(planes(a.s)))


@st.composite
def case(draw):
    spec = draw(boundary())
    h = spec["h"]
    names = "boundary min mats rm_mat rm_depth rm_mats udls rm_udl rm_udls lls rm_ll rm_lls water rm_water head limits rm_limits circle circle ee rm_planes analyse analyse plot_critical bad opts".split()
    ops = setup_ops(draw, h) + draw(st.lists(op_strategy(h, names=names), min_size=2, max_size=7))
    if draw(st.integers(0, 3)) == 0:
        for op in ops:
            if op[0] in ("udls", "lls"):
                for l in op[1]:
                    l["dyn"] = draw(st.booleans())
        ops.append(["dynamic", draw(num(0.8, 2.5))])
        ops += draw(st.lists(op_strategy(h, names=AFTER_DYNAMIC), max_size=2))
    draws = draw(
        st.lists(
            st.tuples(st.integers(0, len(ops) - 1), st.sampled_from(["boundary", "boundary", "critical", "critical"]), st.sampled_from([False] * 6 + [True])),
            min_size=1, max_size=4,
        )
    )
    return {"start": spec, "ops": ops, "draws": [list(d) for d in draws], "table": draw(st.integers(0, 4)) == 0, "all": draw(st.integers(0, 80)) == 0}


# every accepted input, also at the ends of the domains, has to be drawable
odd = st.sampled_from([0, 1e-9, 1e-3, 0.5, 1, 3.14159, 50, 1e4, 1e6, 123456.789, 7, -3, -0.5])


@st.composite
def extreme(draw):
    hgt = draw(st.sampled_from([1e-3, 0.01, 0.5, 1, 3, 25, 300, 5000]))
    spec = {"h": hgt}
    if draw(st.booleans()):
        spec["angle"] = draw(st.sampled_from([0.5, 1, 5, 45, 89.9, 90]))
    else:
        spec["length"] = draw(st.sampled_from([0, 1e-5, 0.5, 2, 40, 1000]))
    color = st.sampled_from([None, "red", "teal", "#fff", "nocolour", "", "transparent", "rgb(1,2,3)", "RED", "#ABCDEF", "rgba(0,0,0,0.5)", "hsl(1,2%,3%)", "none"])
    calls = draw(
        st.lists(
            st.one_of(
                st.tuples(st.just("mat"), st.integers(1, 50), st.sampled_from([0, 30, 45, 89.9, 1e-9]), odd, odd, st.sampled_from([None, "", "A", "<b>", "x" * 200, "%{x}", "\n"]), color),
                st.tuples(st.just("udl"), odd, odd, st.one_of(st.none(), odd), color),
                st.tuples(st.just("ll"), odd, odd, color),
                st.tuples(st.just("water"), odd.map(abs)),
                st.tuples(st.just("head"), odd),
                st.tuples(st.just("limits"), odd.map(abs), odd.map(abs)),
            ).map(list),
            max_size=8,
        )
    )
    return {"start": spec, "calls": calls, "table": draw(st.integers(0, 3)) == 0, "circle": draw(circle_params())}


def run_extreme(case, rec):
    from pyslope.pyslope import Slope, Material, Udl, LineLoad

    s = Slope(height=case["start"]["h"], angle=case["start"].get("angle"), length=case["start"].get("length"))
    n = 0
    for c in case["calls"]:
        if c[0] == "mat":
            try:
                s.set_materials(Material(c[1], c[2], c[3], c[4], name=c[5], color=c[6]))
                n += 1
            except ValueError:
                rec.cls("layer depth given twice")
        elif c[0] == "udl":
            kw = {} if c[4] is None else {"color": c[4]}
            s.set_udls(Udl(c[1], c[2], c[3], **kw))
            n += c[1] != 0
        elif c[0] == "ll":
            kw = {} if c[3] is None else {"color": c[3]}
            s.set_lls(LineLoad(c[1], c[2], **kw))
            n += c[1] != 0
        elif c[0] == "water":
            s.set_water_table(c[1])
        elif c[0] == "head":
            s.update_water_analysis_options(auto=False, H=c[1])
        else:
            try:
                s.set_analysis_limits(left_x=c[1], right_x=c[2])
            except ValueError:
                rec.cls("limits rejected")
    a = s.plot_boundary(material_table=case["table"])
    d = figs.diff(a, s.plot_boundary(material_table=case["table"]), unordered=False)
    if d:
        raise Violation(f"drawn twice, the drawing differs: {d}")
    a.to_json()
    rec.cls(f"{min(n, 4)} things drawn")
    rec.nontrivial(n >= 2)
    if s._materials:
        s.update_analysis_options(iterations=500, slices=10)
        ref = Ref(case["start"])
        ref.top, ref.bot, ref.ext_l = s.get_top_coordinates(), s.get_bottom_coordinates(), s._external_length
        c = circle_from(ref, *case["circle"])
        if c and min(c) > 1e-6:
            s.add_single_circular_plane(*c)
        s.analyse_slope()
        if planes(s):
            s.plot_critical(material_table=False)
            rec.cls("critical plane drawn")


SUBS = [Sub("histories", case(), run, 330, 40000), Sub("extremes", extreme(), run_extreme, 450, 15000)]
