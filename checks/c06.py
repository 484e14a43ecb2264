"""C06: limit setting against a model, over histories of calls."""
from core import Sub, Violation, Reject
from gen import *

PROPERTY = "C06"
RULE = (
    "A case is a slope and a history of 3-9 calls (set limits with any subset of arguments, valid or not, also at or close to the crest, toe, edges and present limits; remove "
    "limits; boundary changes that do and do not change the outline; loads, layers, water, analyses).  After every "
    "call the limit markers of the boundary drawing must show the limits of the reference model and rejected calls "
    "must raise ValueError.  Non-trivial: a partial or rejected update after limits were set, or a reset by an outline "
    "change."
)


def shown_limits(s):
    fig = s.plot_boundary(material_table=False, legend=False)
    right = sorted(a.x for a in fig.layout.annotations if a.text == "▶")
    left = sorted(a.x for a in fig.layout.annotations if a.text == "◀")
    bars = sorted(a.x for a in fig.layout.annotations if a.text == "|")
    return right, left, bars


def check_shown(s, ref, lim, when):
    right, left, bars = shown_limits(s)
    x1, x2, x3, x4 = lim
    if abs(x2 - x3) < 1e-9:
        ok_r = [[x1], sorted([x1, x3])]
        ok_l = [[x4], sorted([x2, x4])]
    else:
        ok_r, ok_l = [sorted([x1, x3])], [sorted([x2, x4])]

    def same(a, b):
        return len(a) == len(b) and all(abs(p - q) <= 1e-9 * max(1, ref.ext_l) for p, q in zip(a, b))

    if not any(same(right, w) for w in ok_r) or not any(same(left, w) for w in ok_l):
        raise Violation(f"{when}: markers show {right} and {left}, limits are {lim}")
    if not same(bars, sorted(right + left)):
        raise Violation(f"{when}: bars at {bars}, arrows at {right} and {left}")


def is_num(v):
    return type(v) in (int, float)


def apply_limits(ref, cur, args):
    """new limits, or None when the call has to be rejected"""
    new = []
    for i, (v, c) in enumerate(zip(args, cur)):
        if v is None:
            new.append(c)
            continue
        if not is_num(v) or v < 0 or (v == 0 and i != 0):
            return None
        new.append(v)
    tx, e = ref.top[0], ref.ext_l
    new = [max(new[0], 0), min(new[1], tx), max(new[2], tx), min(new[3], e)]
    for i in (0, 2):
        if abs(new[i] - new[i + 1]) < 1e-9 and not (args[i] == args[i + 1] == new[i]):
            raise Reject("limits equal within rounding")
    if new[0] >= new[1] or new[2] >= new[3]:
        return None
    return new


def run(case, rec):
    spec = {"udls": [], "lls": [], **case["slope"]}
    s = build(spec)
    ref = Ref(spec)
    lim = list(ref.limits)
    check_shown(s, ref, lim, "new slope")
    was_set = False
    from gen import make_udl, make_ll, make_material

    for op in case["ops"]:
        name, a = op[0], op[1:]
        when = f"after {op}"
        if name == "limits":
            scale = [ref.top[0], ref.top[0], ref.ext_l, ref.ext_l]
            args = []
            for v, w in zip(a[0], scale):
                if isinstance(v, list) and v[0] == "at":
                    # a place of the model or a present limit, rounded or a little beside it
                    x = [0, ref.top[0], ref.bot[0], ref.ext_l, *lim][v[1]]
                    args.append(round(x, v[2]) if isinstance(v[2], int) else x + v[2])
                    continue
                args.append(v[1] if isinstance(v, list) and v[0] == "raw" else None if v is None else v * w)
            near = [x for x in args if is_num(x)]
            new = apply_limits(ref, lim, args)
            # equality of a clamped and a given value within rounding is not judged
            try:
                s.set_analysis_limits(left_x=args[0], left_x_right=args[1], right_x_left=args[2], right_x=args[3])
                ok = True
            except ValueError:
                ok = False
            if ok != (new is not None):
                raise Violation(f"set_analysis_limits{tuple(args)} with limits {lim} was {'accepted' if ok else 'rejected'}")
            if new is None:
                rec.cls("rejected")
                rec.nontrivial(was_set)
            else:
                if any(v is None for v in args):
                    rec.cls("partial")
                    rec.nontrivial(was_set)
                lim, was_set = new, True
        elif name == "remove":
            s.remove_analysis_limits()
            lim = [0, ref.top[0], ref.top[0], ref.ext_l]
        else:
            before = (ref.top, ref.bot, ref.ext_l, ref.ext_h)
            if name == "boundary":
                h, L = a
                s.set_external_boundary(height=h, angle=None, length=L)
                spec.update(h=h, length=L, angle=None)
            elif name == "same_boundary":
                s.set_external_boundary(height=spec["h"], angle=spec.get("angle") or 30, length=spec.get("length"))
            elif name == "min_l":
                s.update_boundary_options(MIN_EXT_L=a[0])
                spec["min_l"] = a[0]
            elif name == "min_h":
                s.update_boundary_options(MIN_EXT_H=a[0])
                spec["min_h"] = a[0]
            elif name == "udl":
                s.set_udls(make_udl(a[0]))
                spec["udls"] = spec["udls"] + [a[0]]
            elif name == "ll":
                s.set_lls(make_ll(a[0]))
                spec["lls"] = spec["lls"] + [a[0]]
            elif name == "water":
                s.set_water_table(a[0])
            elif name == "options":
                s.update_analysis_options(slices=10, iterations=500, tolerance=0.01)
                s.update_water_analysis_options(auto=False, H=0.5)
            elif name == "analyse":
                s.update_analysis_options(slices=10, iterations=500)
                s.analyse_slope()
            elif name == "bad_boundary":
                try:
                    s.set_external_boundary(height=-1, length=3)
                    raise Violation("negative height accepted")
                except ValueError:
                    pass
            ref = Ref(spec)
            if (ref.top, ref.bot, ref.ext_l, ref.ext_h) != before:
                diff = max(abs(p - q) for p, q in zip((*ref.top, *ref.bot, ref.ext_l, ref.ext_h), (*before[0], *before[1], *before[2:])))
                if diff < 1e-9:
                    rec.exclude("outline change within rounding")
                    return
                new = [0, ref.top[0], ref.top[0], ref.ext_l]
                if was_set:
                    rec.cls("reset by outline change")
                    rec.nontrivial()
                lim, was_set = new, False
            elif was_set:
                rec.cls("kept by " + name)
        check_shown(s, ref, lim, when)


def at():
    return st.tuples(st.just("at"), st.sampled_from([0, 1, 1, 1, 2, 3, 4, 5, 6, 7]), st.sampled_from([2, 3, 3, 4, 0.0, 1e-6, -1e-6, 1e-4, -1e-4, 0.01, -0.01])).map(list)


def v():
    return st.one_of(
        st.none(), st.none(), unit, unit, unit.map(lambda u: 0.8 + u), st.sampled_from([0.0, 1.0, 0.5]),
        at(), at(), st.sampled_from([["raw", 0], ["raw", -1], ["raw", "a"], ["raw", 1e9], ["raw", -0.5], ["raw", 3], ["raw", 7.5], ["raw", [1]]]),
    )


near_crest = st.tuples(
    st.one_of(st.none(), st.just(0.0), at()), st.tuples(st.just("at"), st.just(1), st.sampled_from([2, 3, 4, -1e-4, -1e-6, 0.0, 1e-4])).map(list),
    st.one_of(st.none(), st.tuples(st.just("at"), st.just(1), st.sampled_from([2, 3, 4, 1e-4, 1e-6, 0.0, -1e-4])).map(list)), st.one_of(st.none(), at()),
).map(list)
good = st.tuples(unit.map(lambda u: u * 0.5), unit.map(lambda u: 0.5 + u * 0.6), unit.map(lambda u: 0.3 + 0.25 * u), unit.map(lambda u: 0.7 + 0.5 * u)).map(list)


@st.composite
def case(draw):
    spec = draw(boundary())
    spec["mats"] = [{"uw": 20, "phi": 30, "c": 5, "d": 3}]
    h = spec["h"]
    op = st.one_of(
        st.tuples(st.just("limits"), good), st.tuples(st.just("limits"), good),
        st.tuples(st.just("limits"), st.lists(v(), min_size=4, max_size=4)),
        st.tuples(st.just("limits"), st.lists(v(), min_size=4, max_size=4)),
        st.tuples(st.just("limits"), st.lists(v(), min_size=4, max_size=4)),
        st.tuples(st.just("limits"), near_crest),
        st.tuples(st.just("remove")),
        st.tuples(st.just("boundary"), num(0.5, 15), num(0.1, 20)),
        st.tuples(st.just("same_boundary")),
        st.tuples(st.just("min_l"), num(1, 100)),
        st.tuples(st.just("min_h"), num(1, 60)),
        st.tuples(st.just("udl"), udl(h)),
        st.tuples(st.just("ll"), ll(h)),
        st.tuples(st.just("water"), num(0, 8)),
        st.tuples(st.just("options")),
        st.tuples(st.just("analyse")),
        st.tuples(st.just("bad_boundary")),
    ).map(list)
    first = [["limits", draw(good)]] if draw(st.integers(0, 3)) else []
    return {"slope": spec, "ops": first + draw(st.lists(op, min_size=3, max_size=9))}


SUBS = [Sub("history", case(), run, 800, 15000)]
