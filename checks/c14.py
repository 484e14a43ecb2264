"""C14: outcome, bracket and termination of dynamic analyses, also repeated ones."""
from core import Sub, Violation, Reject
from dyn import *
import signal

PROPERTY = "C14"
RULE = (
    "A case is a slope with dynamic loads and one to three dynamic analyses in a row with critical values below, between, "
    "above and exactly at the factors of safety of the two extreme positions (computed on freshly built static slopes). "
    "The outcome, the bracket, the order, the number of refinements and the stopping condition of every analysis are "
    "checked.  Non-trivial: an intermediate position was reported, or an earlier dynamic analysis had other results."
)
LIMIT_S = 150


class limited:
    def __enter__(self):
        def stop(*_):
            raise Violation(f"the dynamic analysis did not end within {LIMIT_S} s")
        self.old = signal.signal(signal.SIGALRM, stop)
        signal.alarm(LIMIT_S)

    def __exit__(self, *_):
        signal.alarm(0)
        signal.signal(signal.SIGALRM, self.old)


def run(case, rec):
    spec, params = case["slope"], case["circles"]
    state = State(spec)
    first = dict(spec, min_l=state.min_l)
    ext0 = state.outline()
    s = build(spec)
    if params:
        add_circles(s, first, params)
    calls = [0]
    analyse = s.analyse_slope

    def counted(*a, **k):
        calls[0] += 1
        if calls[0] > 12:
            raise Violation(f"more than ten refinements for critical value {critical}")
        return analyse(*a, **k)

    s.analyse_slope = counted
    earlier = None
    for t in case["ts"]:
        far = state.far()
        f0, _ = static_fos(state.at(0.0), params, first)
        probe = State(spec)
        probe.min_l = state.min_l
        ff, _ = static_fos(probe.at(far), params, first)
        if params and probe.outline() != ext0:
            raise Reject("the model grows under individual planes")
        if f0 is None or ff is None:
            raise Reject("nothing can slide")
        if isinstance(t, str):
            critical = {"f0": f0, "ff": ff, "big": 1e6, "tiny": 1e-6, "max": max(f0, ff), "f0+": f0 + 1e-5}[t]
        else:
            critical = f0 + t * (ff - f0)
        if critical <= 0:
            critical = 0.01
        calls[0] = 0
        try:
            with limited():
                s.analyse_dynamic(critical_fos=critical)
        except IndexError:
            if not planes(s):
                raise Reject("nothing can slide in between")
            raise
        res = s.get_dynamic_results()
        judge(case, rec, res, f0, ff, far, critical)
        if len(res) > 1:
            state = probe
        elif abs(f0 - critical) <= 1e-9 * max(1, critical):
            return
        if earlier is not None:
            left_over = set(earlier) - set(res)
            rec.cls("repeated")
            rec.nontrivial(left_over)
        earlier = dict(res)


def judge(case, rec, res, f0, ff, far, critical):
    what = f"critical value {critical}, {f0} at the crest, {ff} at offset {far}: reported {res}"
    tol = 1e-9 * max(1, critical)
    keys = list(res)

    def is_far(k):
        return abs(k - far) < 1e-7

    near0, nearf = abs(f0 - critical) <= tol, abs(ff - critical) <= tol
    if not any(abs(k) < 1e-12 for k in keys):
        raise Violation(f"the position at the crest is missing; {what}")
    if f0 > critical and not near0:
        rec.cls("safe at the crest")
        if len(keys) != 1 or not close(res[keys[0]], f0, 1e-7):
            raise Violation(f"the slope is safe with the loads at the crest; {what}")
        return
    if near0 and len(keys) == 1:
        return
    if not any(is_far(k) for k in keys):
        raise Violation(f"the far position is missing; {what}")
    extra = [k for k in keys if abs(k) >= 1e-12 and not is_far(k)]
    if ff < critical and not nearf:
        rec.cls("unsafe everywhere")
        if extra:
            raise Violation(f"the slope is not safe even at the far position; {what}")
        return
    if nearf and not extra:
        return
    for k in extra:
        if not -1e-12 <= k <= far + 1e-9:
            raise Violation(f"position {k} is not between the crest and {far}; {what}")
    if len(keys) > 12:
        raise Violation(f"more than ten refinements; {what}")
    fos = list(res.values())
    if fos != sorted(fos):
        raise Violation(f"results are not ordered by factor of safety; {what}")
    rec.cls("converging")
    if extra:
        rec.nontrivial()
    good = [f for f in fos if round(f, 3) >= critical - 1e-3]
    met = any(abs(f - critical) <= 0.0105 for f in good)
    stalled = any(abs(a - b) <= 0.0105 for i, a in enumerate(fos) for b in fos[i + 1:])
    if met:
        rec.cls("met closely")
    elif stalled or near0 or nearf:
        rec.cls("no difference any more")
    elif len(keys) == 12:
        rec.cls("ten refinements")
    elif len(extra) < 9:
        raise Violation(f"ended after {len(extra)} refinements without meeting the critical value; {what}")


@st.composite
def case(draw, quick):
    spec, params = draw(dynamic_slope(quick))
    t = st.one_of(num(0, 1), num(0, 1), num(0.05, 0.95), num(-0.4, 1.4), st.sampled_from(["f0", "ff", "big", "tiny", "max", "f0+", 0.5]))
    return {"slope": spec, "circles": params, "ts": draw(st.lists(t, min_size=1, max_size=3 if quick else 2))}


SUBS = [Sub("planes", case(True), run, 1000, 30000), Sub("search", case(False), run, 60, 1500)]
