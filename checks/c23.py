"""C23: the validators against a table of their documented domains."""
from core import Sub, Violation, Reject
from gen import *
from decimal import Decimal
from fractions import Fraction
import math

PROPERTY = "C23"
RULE = (
    "A case is one call of a validator with a generated value (numbers of every size, bounds and their neighbours, other "
    "types) and generated bounds or allowed items.  The verdict is compared with the documented domain; a rejection has to "
    "be a ValueError that names the parameter, an acceptance returns silently, and the arguments stay as they were.  "
    "Booleans, NaN and infinities are not judged.  Non-trivial: the value is at most one step from a bound, of another "
    "type, or a sequence that differs in one item."
)
OTHER = {
    "none": None, "text": "5", "empty": "", "bytes": b"5", "complex": 1 + 0j, "decimal": Decimal(5), "fraction": Fraction(5), "list": [5], "tuple": (5,),
    "dict": {5: 5}, "set": {5}, "object": object(), "type": float, "range": range(5), "function": math.floor,
}


def value(v):
    if isinstance(v, dict):
        if "other" in v:
            return OTHER[v["other"]]
        if "next" in v:
            return math.nextafter(value(v["next"]), math.inf * v["to"])
        return int(v["int"])
    return v


def is_number(v):
    return type(v) in (int, float)


def call(f, name, ok, *args, **kw):
    try:
        r = f(*args, **kw)
    except ValueError as e:
        if ok:
            raise Violation(f"{f.__name__}{args} {kw} is rejected: {e}")
        if name is not None and name not in str(e):
            raise Violation(f"{f.__name__}{args} {kw} is rejected without naming {name}: {e}")
        return "rejected"
    except Exception as e:
        raise Violation(f"{f.__name__}{args} {kw} raises {type(e).__name__}: {e}")
    if not ok:
        raise Violation(f"{f.__name__}{args} {kw} is accepted")
    if r is not None:
        raise Violation(f"{f.__name__}{args} {kw} returns {r!r}")
    return "accepted"


def run(case, rec):
    from pyslope import data_validation as dv

    n, name = value(case["value"]), case["name"]
    num = is_number(n)
    got = [
        call(dv.assert_integer, name, type(n) is int, n, name),
        call(dv.assert_number, name, num, n, name),
        call(dv.assert_positive_number, name, num and n >= 0, n, name),
        call(dv.assert_strictly_positive_number, name, num and n > 0, n, name),
    ]
    for k, g in zip(("integer", "number", "positive", "strict"), got):
        rec.cls(f"{k} {g}")
    rec.nontrivial(not num or abs(n) <= 1e-300 or case["value"] != n)


def run_range(case, rec):
    from pyslope import data_validation as dv

    n, lo, hi, name = value(case["value"]), value(case["low"]), value(case["high"]), case["name"]
    a, b = case["open"]
    kw = {}
    if a is not None:
        kw["not_low"] = a
    if b is not None:
        kw["not_high"] = b
    if not is_number(lo) or not is_number(hi):
        rec.cls(call(dv.assert_range, None, False, n, name, lo, hi, **kw))
        return
    ok = is_number(n) and lo <= n <= hi and not (a and n == lo) and not (b and n == hi)
    rec.cls(call(dv.assert_range, name, ok, n, name, lo, hi, **kw) + f" {'open' if a else 'closed'}-{'open' if b else 'closed'}")
    near = lambda x: n == x or math.nextafter(x, math.inf) == n or math.nextafter(x, -math.inf) == n
    rec.nontrivial(not is_number(n) or near(lo) or near(hi))


def run_contents(case, rec):
    from pyslope import data_validation as dv

    kind, items, allowed, name = case["kind"], case["items"], case["allowed"], case["name"]
    li = tuple(items) if kind == "tuple" else list(items)
    content = {"list": list, "tuple": tuple, "set": set, "dict": dict.fromkeys}[case["content"]](allowed)
    before = (list(li), list(content))
    inside = lambda x: any(x == y for y in allowed)
    rec.cls("length " + call(dv.assert_length, name, len(items) == case["num"], li, case["num"], name))
    rec.cls("list " + call(dv.assert_list_contents, name, all(map(inside, items)), li, content, name))
    for x in items[:3]:
        rec.cls("item " + call(dv.assert_contents, name, inside(x), x, content, name))
    if before != (list(li), list(content)):
        raise Violation("the arguments were changed")
    rec.nontrivial(abs(len(items) - case["num"]) == 1 or sum(not inside(x) for x in items) == 1)


number = st.one_of(
    st.integers(-5, 5), num(-100, 100), st.floats(allow_nan=False, allow_infinity=False), st.integers(-(10**30), 10**30).map(lambda i: {"int": str(i)}),
    st.sampled_from([0, 0.0, -0.0, 5e-324, -5e-324, 1e-320, 1e308, -1e308, 1, 1.0, -1]),
)
anything = st.one_of(number, number, st.sampled_from(sorted(OTHER)).map(lambda k: {"other": k}))
name = st.sampled_from(["height", "x", "the value", "left_x", "a{b}", "%s", "ä"])
single = st.fixed_dictionaries({"value": anything, "name": name})


@st.composite
def ranges(draw):
    lo, hi = draw(number), draw(number)
    if draw(st.integers(0, 5)) and value(lo) > value(hi):
        lo, hi = hi, lo
    if draw(st.integers(0, 9)) == 0:
        hi = lo
    k = draw(st.integers(0, 5))
    v = draw(anything)
    if k in (1, 2):
        v = lo if k == 1 else hi
        if draw(st.booleans()):
            v = float(value(v)) if draw(st.booleans()) else {"next": float(value(v)), "to": draw(st.sampled_from([-1, 1]))}
    elif k == 3:
        a, b = float(value(lo)), float(value(hi))
        v = a + (b - a) * draw(unit) if abs(b - a) < 1e300 else a
    if draw(st.integers(0, 19)) == 0:
        bad = {"other": draw(st.sampled_from(["none", "text", "list"]))}
        lo, hi = (bad, hi) if draw(st.booleans()) else (lo, bad)
    o = st.sampled_from([None, False, True])
    return {"value": v, "low": lo, "high": hi, "open": [draw(o), draw(o)], "name": draw(name)}


@st.composite
def contents(draw):
    item = st.one_of(st.integers(0, 6), st.sampled_from(["a", "b", "ab", "", "left"]), st.sampled_from([0.5, 1.0, 2.5]))
    allowed = draw(st.lists(item, max_size=6))
    items = draw(st.lists(st.one_of(item, st.sampled_from(allowed)) if allowed else item, max_size=5))
    num_ = draw(st.one_of(st.integers(0, 6), st.just(len(items)), st.just(len(items) + 1)))
    return {"kind": draw(st.sampled_from(["list", "tuple"])), "content": draw(st.sampled_from(["list", "tuple", "set", "dict"])), "items": items, "allowed": allowed, "num": num_, "name": draw(name)}


SUBS = [Sub("single", single, run, 4000, 200000), Sub("range", ranges(), run_range, 6000, 300000), Sub("contents", contents(), run_contents, 4000, 200000)]
