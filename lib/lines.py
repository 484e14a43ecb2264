"""Reading failure lines and the colour legend out of figures."""
import math
from core import Violation
import figs


def pts(t):
    xs, ys = figs.plain(t.x), figs.plain(t.y)
    return [] if xs is None or ys is None else list(zip(map(float, xs), map(float, ys)))


def norm(color):
    c = str(color).lower()
    if c.startswith("#") and len(c) == 4:
        c = "#" + "".join(2 * d for d in c[1:])
    return {"red": "#ff0000", "orange": "#ffa500", "green": "#008000", "purple": "#800080"}.get(c, c)


def legend_of(fig):
    """colours of the legend in the figure, from 0.0 to 5.0"""
    rects = [
        sh for sh in fig.layout.shapes
        if sh.type == "rect" and sh.xref == "paper" and sh.x0 is not None and min(sh.x0, sh.x1) >= 0.85
    ]
    h = lambda sh: abs(sh.y1 - sh.y0)
    if not rects:
        return None
    cells = [sh for sh in rects if h(sh) < 0.02]
    byx = sorted(cells, key=lambda sh: -(sh.y0 + sh.y1))
    rows = []
    for sh in byx:
        if rows and abs(rows[-1][0] - (sh.y0 + sh.y1)) < 1e-9:
            if norm(sh.fillcolor) != rows[-1][1]:
                raise Violation("two colours drawn at the same place of the legend")
            continue
        rows.append((sh.y0 + sh.y1, norm(sh.fillcolor)))
    if len(rows) != 51:
        raise Violation(f"the legend has {len(rows)} colours, expected 51 for 0.0 to 5.0")
    colors = [c for _, c in rows]
    marks = {}
    for a in fig.layout.annotations:
        if a.xref == "paper" and a.x is not None and a.x >= 0.85:
            try:
                marks[float(a.text)] = a.y
            except ValueError:
                pass
    if sorted(marks) != [0, 1, 2, 3, 4, 5]:
        raise Violation(f"the legend is marked {sorted(marks)}")
    for k, y in marks.items():
        # the drawn mark stands within a quarter unit of its colour
        if abs(y - rows[int(10 * k)][0] / 2) > 0.25 * abs(rows[0][0] - rows[10][0]) / 2:
            raise Violation(f"the mark {k} stands at {y}, its colour at {rows[int(10 * k)][0] / 2}")
    ends = {0: "#ff0000", 10: "#ffa500", 20: "#008000", 50: "#800080"}
    for k, c in ends.items():
        if colors[k] != c:
            raise Violation(f"the legend shows {colors[k]} at {k / 10}, expected {c}")
    if len(set(colors)) < 40:
        raise Violation(f"the legend shows only {len(set(colors))} colours")
    return colors


def legend_colors(legend, f, slack):
    """acceptable colours of a factor of safety"""
    ks = {min(50, int(round((f + d) * 10))) for d in (-slack, 0, slack)}
    return {legend[k] for k in ks}


def check_line(line, p, what, slack, step=0.0):
    """points from entry to exit along the circle of plane p (given to `step`)"""
    cx, cy, r, l, e = p["c_x"], p["c_y"], p["radius"], p["l_c"], p["r_c"]
    scale = max(1.0, abs(cx), abs(cy), r)
    near = lambda a, b: abs(a[0] - b[0]) <= 1e-9 * scale and abs(a[1] - b[1]) <= 1e-9 * scale
    if len(line) < 2:
        raise Violation(f"{what} has the points {line}")
    if not near(line[0], l) or not near(line[-1], e):
        raise Violation(f"{what} runs from {line[0]} to {line[-1]}, the plane from {l} to {e}")
    mid = line[1:-1]
    for q in mid:
        if abs(math.hypot(q[0] - cx, q[1] - cy) - r) > slack or not l[0] - 1e-9 <= q[0] <= e[0] + 1e-9:
            raise Violation(f"{what} runs through {q}, which is not on the circle ({cx}, {cy}, {r}) between its ends")
        if q[1] > max(l[1], e[1]) + max(step, 1e-9) and q[0] > l[0] + step:
            raise Violation(f"{what} runs through {q} above its ends")
    xs = [q[0] for q in line]
    if any(b < a - 1e-9 for a, b in zip(xs, xs[1:])):
        raise Violation(f"{what} runs back and forth: {xs}")
    if cy >= max(l[1], e[1]):
        for a, b in zip(line, line[1:]):
            if math.hypot(a[0] - b[0], a[1] - b[1]) > 0.11 * r + 0.003:
                raise Violation(f"{what} jumps from {a} to {b} on a circle of radius {r}")
