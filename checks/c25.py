"""C25: histories of row edits in the page against lists of rows."""
from core import Sub, Violation, Reject
from gen import *
import web

PROPERTY = "C25"
RULE = (
    "A case is a page with generated numbers of layer and load rows and a history of adding, deleting and filling in rows "
    "of the three tables.  The model keeps a list of rows per table; after every step each table has to show these rows in "
    "order, numbered from 0 without gaps in names and ids, with the row count in the form, and the data the browser would "
    "submit has to contain each field of each row exactly once.  Non-trivial: the history adds a row after a deletion, "
    "deletes a row that is not the last one, or works on rows with two-digit numbers."
)
TABLES = {
    "material": ("formset-row-Materials", "#add-Materials-form", "#id_material-TOTAL_FORMS", ["unit_weight", "friction_angle", "cohesion", "depth_to_bottom", "name", "color"]),
    "udl": ("formset-row-Udls", "#add-Udls-form", "#id_udl-TOTAL_FORMS", ["magnitude", "offset", "length", "color", "dynamic_offset"]),
    "lineload": ("formset-row-LineLoads", "#add-LineLoads-form", "#id_lineload-TOTAL_FORMS", ["magnitude", "offset", "color", "dynamic_offset"]),
}
KINDS = list(TABLES)
LOOK = [{"do": "tables", "tables": [[k, t[0], t[2]] for k, t in TABLES.items()]}, {"do": "submit", "sel": "#mainform"}, {"do": "submits"}]


def read(tables, when):
    """checks the numbering and returns the shown rows"""
    out = {}
    for kind, (_, _, _, fields) in TABLES.items():
        t = tables[kind]
        if int(t["total"]) != len(t["rows"]):
            raise Violation(f"the form counts {t['total']} {kind} rows, {len(t['rows'])} are shown {when}")
        rows = []
        for i, row in enumerate(t["rows"]):
            got = {}
            for f in row:
                name = f["name"]
                if name == f"{kind}-{i}-id":
                    continue
                if not name.startswith(f"{kind}-{i}-") or f["id"] != f"id_{name}":
                    raise Violation(f"{kind} row {i} has a field named {name!r} with id {f['id']!r} {when}")
                got[name[len(f"{kind}-{i}-"):]] = f["value"]
            if sorted(got) != sorted(fields):
                raise Violation(f"{kind} row {i} has the fields {sorted(got)} {when}")
            rows.append(got)
        out[kind] = rows
    return out


def same(a, b):
    if a == b:
        return True
    try:
        return float(a) == float(b)
    except (TypeError, ValueError):
        return False


def check_submit(data, model, when):
    names = [k for k, _ in data if not k.startswith("csrf")]
    twice = sorted({k for k in names if names.count(k) > 1})
    if twice:
        raise Violation(f"the form submits {twice} twice {when}")
    data = dict(data)
    for kind, rows in model.items():
        if data.get(f"{kind}-TOTAL_FORMS") != str(len(rows)):
            raise Violation(f"the form submits {data.get(f'{kind}-TOTAL_FORMS')} {kind} rows, there are {len(rows)} {when}")
        want = {f"{kind}-{i}-{k}": v for i, r in enumerate(rows) for k, v in r.items() if v is not False}
        got = {k: v for k, v in data.items() if k.startswith(f"{kind}-") and k.split("-")[1].isdigit() and not k.endswith("-id")}
        for k in sorted(set(want) | set(got)):
            if k not in got or k not in want or not (same(got[k], want[k]) or want[k] is True):
                raise Violation(f"the form submits {got.get(k)!r} for {k}, the user sees {want.get(k)!r} {when}")
        rest = [k for k in data if k.startswith(f"{kind}-") and k not in want and not k.endswith(("_FORMS", "-id"))]
        if rest:
            raise Violation(f"the form submits {rest} {when}")


def run(case, rec):
    html = web.rows_page(*case["rows"])
    req = [{"do": "load", "html": html}] + LOOK
    model_n = {k: n for k, n in zip(KINDS, case["rows"])}
    steps, n = [], dict(model_n)
    # rows are addressed by fractions, so that the case stays meaningful when it shrinks
    for op in case["ops"]:
        kind = KINDS[op[1]]
        cls, add, _, fields = TABLES[kind]
        if op[0] == "add":
            req.append({"do": "click", "sel": add})
            steps.append(("add", kind))
            n[kind] += 1
        elif op[0] == "delete":
            i = op[2] * n[kind] // 1000
            req.append({"do": "deleteRow", "row": cls, "i": i})
            steps.append(("delete", kind, i))
            n[kind] -= n[kind] > 1
        else:
            i = op[2] * n[kind] // 1000
            j = op[3] % len(fields)
            req.append({"do": "typeName", "row": cls, "i": i, "field": fields[j], "value": op[4]})
            steps.append(("type", kind, i, fields[j], op[4]))
        req += LOOK
    out = web.browser().run(req)
    model = read(out[1], "at the start")
    for k, m in model_n.items():
        if len(model[k]) != m:
            raise Violation(f"the page shows {len(model[k])} {k} rows, {m} were submitted")
    check_submit(out[2], model, "at the start")
    deleted = set()
    for i, step in enumerate(steps):
        when = f"after step {i + 1} {step}"
        tables, data, sent = out[5 + 4 * i : 8 + 4 * i]
        if sent:
            raise Violation(f"the form was submitted {when}")
        shown = read(tables, when)
        rows = model[step[1]]
        if step[0] == "add":
            if len(shown[step[1]]) == len(rows) + 1:
                rows.append(shown[step[1]][-1])  # the values of a new row are free
            rec.nontrivial(step[1] in deleted or len(rows) > 10)
        elif step[0] == "delete":
            if len(rows) > 1:
                rec.nontrivial(step[2] < len(rows) - 1)
                rows.pop(step[2])
                deleted.add(step[1])
            else:
                rec.cls("last row")
        else:
            r = rows[step[2]]
            r[step[3]] = (not r[step[3]]) if isinstance(r[step[3]], bool) else step[4]
        for kind in KINDS:
            if len(shown[kind]) != len(model[kind]):
                raise Violation(f"{len(shown[kind])} {kind} rows are shown {when}, expected {len(model[kind])}")
            for a, (x, y) in enumerate(zip(shown[kind], model[kind])):
                for k in y:
                    if not same(x[k], y[k]):
                        raise Violation(f"{kind} row {a} shows {x[k]!r} for {k} {when}, expected {y[k]!r}")
        check_submit(data, model, when)
        rec.cls(step[0])


text = st.one_of(num(0, 100).map(lambda v: f"{v:g}"), st.integers(0, 40).map(str), st.sampled_from(["", "red", "Clay", "material-7-x", "udl-3-", "a\"b", "<b>", "12.50"]))
kind = st.integers(0, 2)
frac = st.integers(0, 999)
op = st.one_of(
    st.tuples(st.just("add"), kind), st.tuples(st.just("delete"), kind, frac), st.tuples(st.just("delete"), kind, frac),
    st.tuples(st.just("type"), kind, frac, st.integers(0, 5), text), st.tuples(st.just("type"), kind, frac, st.integers(0, 5), text),
).map(list)


@st.composite
def cases(draw):
    rows = draw(st.sampled_from([[1, 1, 1], [1, 1, 1], [2, 1, 3], [4, 3, 2], [3, 2, 1], [1, 12, 1], [1, 1, 12], [1, 9, 10], [2, 2, 2]]))
    ops = draw(st.lists(op, min_size=1, max_size=14))
    if draw(st.integers(0, 5)) == 0:
        # many rows of one table
        k = draw(kind)
        ops = [["add", k]] * draw(st.integers(9, 14)) + ops
    if draw(st.integers(0, 3)) == 0:
        # mostly one table
        k = draw(kind)
        for o in ops:
            o = list(o)
        ops = [[o[0], k] + list(o[2:]) for o in ops]
    return {"rows": rows, "ops": ops}


SUBS = [Sub("rows", cases(), run, 400, 8000)]
