"""Independent scalar reference model, written from the textbook method and the
documentation.  Imports nothing from the code under test."""
from math import sqrt, atan, cos, sin, tan, radians, inf, hypot

G_W = 9.81
TOL = 1e-6  # points this close to the end of a ground line still lie on it


class Ref:
    """Model computed from a case dictionary (see gen.py)."""

    def __init__(self, spec):
        h = float(spec["h"]) if not isinstance(spec["h"], int) else spec["h"]
        if spec.get("length") is not None:
            L = spec["length"]
        else:
            L = h / tan(radians(spec["angle"]))
        L = max(L, 0.001)
        self.h, self.L = h, L
        self.grad = h / L
        mats = [dict(m) for m in spec.get("mats", [])]
        udls = [u for u in spec.get("udls", []) if u["q"] != 0]
        lls = [p for p in spec.get("lls", []) if p["p"] != 0]
        min_h, min_l = spec.get("min_h") or 6, spec.get("min_l") or 10
        for u in udls:
            min_l = max(min_l, (abs(u["o"]) + (abs(u["l"]) if u.get("l") else 3)) * 2.5)
        for p in lls:
            min_l = max(min_l, abs(p["o"]) * 3)
        self.ext_h = max(3 * h, min_h, 2.5 * L)
        self.ext_l = max(5 * L, min_l, 4 * h)
        if mats:
            self.ext_h = max(self.ext_h, max(abs(m["d"]) for m in mats))
        tx = (self.ext_l - L) / 2
        self.top = (tx, self.ext_h)
        self.bot = (tx + L, self.ext_h - h)
        mats.sort(key=lambda m: abs(m["d"]))
        self.layers = [
            (self.ext_h - abs(m["d"]), m["uw"], abs(m["c"]), tan(radians(m["phi"]))) for m in mats
        ]
        self.udls = []
        for u in udls:
            right = tx - abs(u["o"])
            left = max(0.0, right - abs(u["l"])) if u.get("l") else 0.0
            self.udls.append((left, right, abs(u["q"])))
        self.lls = [(max(0.0, tx - abs(p["o"])), abs(p["p"])) for p in lls]
        w = spec.get("water")
        self.w_rl = None if w is None else max(0.0, self.ext_h - w)
        if spec.get("H") is None:
            self.H = cos(atan(self.grad)) ** 2
        else:
            self.H = min(1.0, max(0.0, spec["H"]))
        o = spec.get("opts", {})
        self.slices = min(500, max(10, o.get("slices") or 25))
        self.iterations = min(100000, max(500, o.get("iterations") or 1000))
        self.tol = 0.005 if o.get("tolerance") is None else o["tolerance"]
        self.max_it = 15 if o.get("max_iterations") is None else o["max_iterations"]
        self.min_dist = min(o.get("min_failure_dist") or 0, self.ext_l * 0.9)
        self.limits = [0, tx, tx, self.ext_l]
        if spec.get("limits"):
            x1, x2, x3, x4 = [d if v is None else v for v, d in zip(spec["limits"], self.limits)]
            self.limits = [max(x1, 0), min(x2, tx), max(x3, tx), min(x4, self.ext_l)]

    # -- ground ---------------------------------------------------------
    def ground(self, x):
        if x < 0 or x > self.ext_l:
            return None
        if x <= self.top[0]:
            return self.top[1]
        if x >= self.bot[0]:
            return self.bot[1]
        return self.top[1] - (x - self.top[0]) * self.grad

    def ground_x(self, y):
        """x at which level y meets the ground (right model edge below the toe)"""
        if y < self.bot[1]:
            return self.ext_l
        if y > self.top[1]:
            return None
        return self.top[0] + (self.top[1] - y) / self.grad

    # -- crossings of a circle and the ground -----------------------------
    def crossings(self, cx, cy, r):
        """(points, margin): ground crossings that count, left to right, close ones
        merged; margin = how far the circle is from changing that list."""
        pts = []
        margin = inf
        (tx, ty), (bx, by) = self.top, self.bot
        # crest: left crossing
        d = r * r - (ty - cy) ** 2
        margin = min(margin, abs(r - abs(ty - cy)))
        if d >= 0:
            x = cx - sqrt(d)
            margin = min(margin, abs(x + TOL), abs(x - tx - TOL))
            if -TOL <= x <= tx + TOL:
                pts.append((x, ty))
        # toe: right crossing
        d = r * r - (by - cy) ** 2
        margin = min(margin, abs(r - abs(by - cy)))
        if d >= 0:
            x = cx + sqrt(d)
            margin = min(margin, abs(x - bx + TOL), abs(x - self.ext_l - TOL))
            if bx - TOL <= x <= self.ext_l + TOL:
                pts.append((x, by))
        # face: both crossings.  parametrise from the crest along the unit direction
        ux, uy = self.L / hypot(self.L, self.h), -self.h / hypot(self.L, self.h)
        px, py = tx - cx, ty - cy
        b = px * ux + py * uy
        off = abs(px * uy - py * ux)  # distance of the centre from the face line
        margin = min(margin, abs(r - off))
        disc = r * r - off * off
        if disc >= 0:
            tol = TOL / max(1.0, self.grad)
            for t in (-b - sqrt(disc), -b + sqrt(disc)):
                x, y = tx + t * ux, ty + t * uy
                margin = min(margin, abs(x - tx + tol) * TOL / tol, abs(x - bx - tol) * TOL / tol)
                if tx - tol <= x <= bx + tol:
                    pts.append((x, y))
        pts.sort()
        out = []
        prev = None
        for p in pts:
            if prev is not None:
                margin = min(margin, abs(abs(p[0] - prev) - 0.01))
            if prev is None or abs(p[0] - prev) > 0.01:
                out.append(p)
            prev = p[0]
        return out, margin

    # -- factor of safety --------------------------------------------------
    def slices_of(self, cx, cy, r):
        """list of (W, alpha, U_per_width, c, tanphi, b) or None"""
        pts, _ = self.crossings(cx, cy, r)
        if len(pts) < 2:
            return None
        (x0, _), (x1, _) = pts[0], pts[1]
        width = x1 - x0
        if width <= 1e-6:
            return None
        n = self.slices
        b = width / n
        res = []
        x_water = self.ground_x(self.w_rl) if self.w_rl else None
        (tx, ty), (bx, by) = self.top, self.bot
        for i in range(n):
            x = x0 + (i + 0.5) * b
            d = r * r - (x - cx) ** 2
            if d < 0:
                return None
            depth = sqrt(d)
            yb = cy - depth
            if depth == 0:
                return None
            yt = ty if x <= tx else by if x >= bx else ty - (x - tx) * self.grad
            yt = max(yt, yb)
            alpha = atan((cx - x) / depth)
            # weight: walk down the layers
            w = 0.0
            upper = self.ext_h
            for k, (rl, uw, c, tp) in enumerate(self.layers):
                lower = -inf if k == len(self.layers) - 1 else rl
                w += uw * max(0.0, min(yt, upper) - max(yb, lower))
                upper = rl
            w *= b
            xl, xr = x - b / 2, x + b / 2
            for left, right, q in self.udls:
                w += q * max(0.0, min(xr, right) - max(xl, left))
            for xc, p in self.lls:
                if xl <= xc < xr:
                    w += p
            u = 0.0
            if self.w_rl:
                u = max(0.0, min(self.w_rl, yt) - yb) * G_W
                if x_water is not None and x_water < x < bx:
                    u *= self.H
            c, tp = self.layers[-1][2:]
            for rl, _, cc, tt in self.layers:
                if rl < yb:
                    c, tp = cc, tt
                    break
            res.append((w, alpha, u, c, tp, b))
        return res

    def fos(self, cx, cy, r, slices=None):
        if not self.layers:
            return None
        s = slices or self.slices_of(cx, cy, r)
        if s is None:
            return None
        driving = sum(w * sin(a) for w, a, *_ in s)
        if not driving > 0:
            return None
        resist = sum(
            c * b / cos(a) + max(0.0, w * cos(a) - u * b / cos(a)) * tp for w, a, u, c, tp, b in s
        )
        fs = resist / driving
        if fs == 0:
            return 0.0
        for _ in range(self.max_it):
            tot = 0.0
            for w, a, u, c, tp, b in s:
                m = cos(a) + sin(a) * tp / fs
                if m == 0:
                    return None
                tot += (c * b + (w - u * b) * tp) / m
            if tot < 0:
                return None
            new = tot / driving
            if abs(new - fs) < self.tol:
                return new
            fs = new
            if fs == 0:
                # the iteration cannot go on from zero
                return 0.0
        return fs

    def robust_fos(self, cx, cy, r, eps=2e-7, spread=2e-5):
        """('ok', fos) when small changes of the circle do not matter, else ('fragile', None)"""
        f0 = self.fos(cx, cy, r)
        pts, _ = self.crossings(cx, cy, r)
        if len(pts) >= 2:
            # a line load on the edge between two slices, or on the end of the plane
            b = (pts[1][0] - pts[0][0]) / self.slices
            for x, _ in self.lls:
                k = round((x - pts[0][0]) / b) if b > 0 else 0
                if abs(pts[0][0] + min(max(k, 0), self.slices) * b - x) <= 2 * TOL:
                    return "fragile", f0
        base = self.slices_of(cx, cy, r)
        if base is not None:
            # driving moments that cancel out exactly have no meaningful sign
            total = sum(abs(w * sin(a)) for w, a, *_ in base)
            if abs(sum(w * sin(a) for w, a, *_ in base)) <= 1e-6 * total:
                return "fragile", f0
        for dx, dy, dr in ((eps, 0, 0), (-eps, 0, 0), (0, eps, eps / 2), (0, -eps, -eps / 2), (0, 0, eps), (0, 0, -eps)):
            sl = self.slices_of(cx + dx, cy + dy, r + dr)
            if (sl is None) != (base is None):
                return "fragile", f0
            if sl is not None:
                total = sum(abs(w * sin(a)) for w, a, *_ in sl)
                if abs(sum(w * sin(a) for w, a, *_ in sl)) <= 1e-6 * total:
                    return "fragile", f0
            f = self.fos(cx + dx, cy + dy, r + dr, sl)
            if (f is None) != (f0 is None):
                return "fragile", f0
            if f is not None and not abs(f - f0) <= spread * max(1.0, abs(f0)):
                return "fragile", f0
        return "ok", f0

    # -- automatic search ---------------------------------------------------
    def grid(self):
        """(entry points, exit points, radii per pair)"""
        nc = max(5, int(self.iterations / 800))
        nt = int(sqrt(self.iterations / nc))
        nb = nt
        while nt * nb * nc < self.iterations:
            nb += 1
        nt = max(2, nt - len(self.lls) - len(self.udls))
        x1, x2, x3, x4 = self.limits
        left = [x1 + (x2 - x1) * k / (nt - 1) for k in range(nt)]
        left += [x - 0.001 for x, _ in self.lls] + [x - 0.001 for x, _, _ in self.udls]
        right = [x3 + (x4 - x3) * k / nb for k in range(1, nb + 1)]
        return left, right, nc

    def entry_exit_circles(self, l, r, nc):
        """circles through two ground points, radii from just above vertical entry to flat"""
        dx, dy = r[0] - l[0], l[1] - r[1]
        half = hypot(dx, dy) / 2
        beta = atan(dy / dx)
        r0 = half / cos(beta) * 1.1
        sag0 = r0 - sqrt(r0 * r0 - half * half)
        mx, my = (l[0] + r[0]) / 2, (l[1] + r[1]) / 2
        out = []
        for i in range(nc):
            sag = sag0 * (nc - i) / nc
            rad = (half * half + sag * sag) / (2 * sag)
            k = rad - sag
            out.append((mx + sin(beta) * k, my + cos(beta) * k, rad))
        return out

    def search(self):
        """list of (cx, cy, r, l, r, sure): every circle of the automatic search"""
        left, right, nc = self.grid()
        x1, x2, x3, x4 = self.limits
        tol = 1e-6
        out = []
        for lx in left:
            for rx in right:
                l, r = (lx, self.top[1]), (rx, self.ground(rx))
                if r[1] is None:
                    # rounding put the last exit point past the model edge
                    r = (rx, self.bot[1])
                dist = hypot(l[0] - r[0], l[1] - r[1])
                near = abs(dist - self.min_dist) < 1e-7
                if dist <= self.min_dist and not near:
                    continue
                for cx, cy, rad in self.entry_exit_circles(l, r, nc):
                    pts, margin = self.crossings(cx, cy, rad)
                    sure = margin > 5e-7 and not near
                    if len(pts) < 2:
                        if not sure:
                            out.append((cx, cy, rad, None, None, False))
                        continue
                    (a, b) = pts[0], pts[1]
                    ok = (
                        x1 - tol <= a[0] <= x2 + tol
                        and x3 - tol <= b[0] <= x4 + tol
                        and hypot(a[0] - b[0], a[1] - b[1]) > self.min_dist
                    )
                    edge = min(
                        abs(a[0] - x1 + tol), abs(a[0] - x2 - tol), abs(b[0] - x3 + tol), abs(b[0] - x4 - tol),
                        abs(hypot(a[0] - b[0], a[1] - b[1]) - self.min_dist),
                    )
                    if edge < 5e-7:
                        sure = False
                    if ok or not sure:
                        out.append((cx, cy, rad, a, b, sure))
        return out
