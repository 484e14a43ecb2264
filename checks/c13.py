"""C13: every reported dynamic result re-analysed on a freshly built static slope."""
from core import Sub, Violation, Reject
from dyn import *
import figs, io, contextlib, re

PROPERTY = "C13"
RULE = (
    "A case is a slope with dynamic and fixed, uniform and line loads (judged on individual planes, or on the whole "
    "search) and a critical value placed relative to the factors of safety at both extreme positions.  Every reported "
    "offset is re-analysed: a new slope with all dynamic loads at that offset and everything else as given must have the "
    "reported critical factor of safety.  Load objects, drawing, final results and printed lines are compared as well.  "
    "Non-trivial: at least three reported positions with different factors of safety, or fixed loads beside dynamic ones."
)


def run(case, rec):
    spec, params, t = case["slope"], case["circles"], case["t"]
    state = State(spec)
    first = dict(spec, min_l=state.min_l)
    ext0 = state.outline()
    limits = spec.get("limits")
    f0, _ = static_fos(state.at(0.0), params, first)
    far = State(spec).far()
    probe = State(spec)
    ffar, _ = static_fos(probe.at(far), params, first)
    if f0 is None or ffar is None:
        raise Reject("nothing can slide")
    if params and probe.outline() != ext0:
        raise Reject("the model grows under individual planes")
    if limits and probe.outline() != ext0:
        raise Reject("the limits are reset when the model grows")
    critical = f0 + t * (ffar - f0)
    if critical <= 0:
        critical = 0.01
    s = build(spec)
    udls = [u for u in s._udls]
    lls = [p for p in s._lls]
    given = [(o.magnitude, o.offset, getattr(o, "length", 0), o.dynamic_offset) for o in udls + lls]
    if params:
        add_circles(s, first, params)
    try:
        s.analyse_dynamic(critical_fos=critical)
    except IndexError:
        if not planes(s):
            raise Reject("nothing can slide in between")
        raise
    res = s.get_dynamic_results()
    if not res:
        raise Violation("a dynamic analysis reports nothing")
    state = State(spec)
    order = sorted(res, key=lambda k: (k != 0, k != far))
    fixed = any(not d.get("dyn") for d in spec["udls"] + spec["lls"])
    static = None
    for off in order:
        if off < 0:
            raise Violation(f"offset {off} lies beyond the crest")
        sp = state.at(off)
        f, st_ = static_fos(sp, params, first)
        if off == 0 and len(res) > 1 and not close(f, res[off], 1e-7, 1e-7):
            # analysed again after the model has grown to fit the loads at the far position
            grown = State(spec)
            grown.at(far)
            f, st_ = static_fos(grown.at(off), params, first)
        if f is None or not close(f, res[off], 1e-7, 1e-7):
            raise Violation(f"reported factor of safety {res[off]} at offset {off}, a static analysis with the loads there gives {f}")
        if off > Ref(sp).top[0] + 1e-9:
            raise Violation(f"offset {off} lies outside the model")
        rec.cls("offsets re-analysed")
    # the loads: only the dynamic ones moved, to one reported offset
    now = [(o.magnitude, o.offset, getattr(o, "length", 0), o.dynamic_offset) for o in udls + lls]
    last = {n[1] for n, g in zip(now, given) if g[3]}
    if len(last) != 1 or not last <= set(res):
        raise Violation(f"dynamic loads ended at offsets {last}, reported are {sorted(res)}")
    for n, g in zip(now, given):
        if not g[3] and n != g or (n[0], n[2], n[3]) != (g[0], g[2], g[3]):
            raise Violation(f"load {g} became {n}")
    last = last.pop()
    if not close(s.get_min_FOS(), res[last]):
        raise Violation(f"critical factor of safety {s.get_min_FOS()} after the analysis, reported at the last offset: {res[last]}")
    if case["figure"]:
        x = build(state.at(last))
        d = figs.diff(s.plot_boundary(), x.plot_boundary())
        if d:
            raise Violation(f"the slope is not drawn with the loads at {last}: {d}")
        rec.cls("drawings compared")
    # printed lines
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        s.print_dynamic_results()
    lines = [l for l in out.getvalue().splitlines() if l.strip()]
    got = [tuple(map(float, re.findall(r"-?\d+\.?\d*(?:e[-+]?\d+)?", l))) for l in lines]
    want = list(res.items())
    if len(got) != len(want) or any(len(g) != 2 or abs(g[0] - w[0]) > 0.00051 or abs(g[1] - w[1]) > 0.00051 for g, w in zip(got, want)):
        raise Violation(f"printed {lines}, reported {res}")
    rec.cls(f"{min(len(res), 4)}{'+' if len(res) > 3 else ''} positions")
    if limits:
        rec.cls("with limits")
    rec.nontrivial(fixed or len(set(res.values())) >= 3)


@st.composite
def case(draw, quick):
    spec, params = draw(dynamic_slope(quick))
    if not quick and draw(st.integers(0, 2)) == 0 and all(not (u.get("dyn")) for u in spec["udls"]):
        spec["limits"] = draw(limits_for(Ref(spec)))
    t = draw(st.one_of(num(0, 1), num(0, 1), num(-0.4, 1.4), st.sampled_from([0, 1, 0.5])))
    return {"slope": spec, "circles": params, "t": t, "figure": draw(st.sampled_from([True, False, False, False, False]))}


SUBS = [Sub("planes", case(True), run, 700, 20000), Sub("search", case(False), run, 60, 1500)]
