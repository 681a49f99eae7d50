"""Ray-theory expectations for one phase, from the reference tracer."""
import math

import numpy as np

from refphase import NotAPhase

DEG = 180.0 / math.pi


def p_grid(world, zs):
    """Ray parameters where the reference curves are tabulated; returns
    (grid, critical)"""
    ref = world.ref
    key = ("grid", zs)
    cache = world.__dict__.setdefault("_grid", {})
    if key in cache:
        return cache[key]
    crit = set()
    strong = set()
    for w in "PS":
        top, bot, v0, v1 = ref.tables[w]
        for i in range(len(top)):
            a = (ref.R - top[i]) / v0[i]
            b = (ref.R - bot[i]) / v1[i]
            crit.add(a)
            crit.add(b)
            if i and v1[i - 1] != v0[i]:
                strong.add(a)
                strong.add((ref.R - top[i]) / v1[i - 1])
        for side in ("above", "below"):
            z = max(zs, 0.0)
            c = ref.slowness(z, w, side if z > 0 else "below")
            crit.add(c)
            strong.add(c)
    crit = sorted(c for c in crit if c > 0)
    pmax = crit[-1]
    pts = {0.0}
    for c in crit:
        for e in (2e-6, 5e-9, 1e-11):
            pts.add(c * (1 - e))
            pts.add(c * (1 + e))
    for c in strong:
        for f in (3e-4, 5e-3, 0.05, 0.3, 1.0):
            pts.add(c - f)
            pts.add(c + f)
    n = int(pmax / 5.0)
    pts.update(np.linspace(0.01, pmax, n).tolist())
    g = np.array(sorted(x for x in pts if 0 <= x <= pmax))
    keep = np.concatenate([[True], np.diff(g) > 1e-10])
    g = g[keep]
    if len(cache) > 8:
        cache.clear()
    cache[key] = (g, np.array(crit))
    return cache[key]


class RefCurve(object):
    """T(p), Delta(p) of a geometrical phase on a grid of ray parameters."""

    def __init__(self, world, it, zs):
        self.world, self.it = world, it
        self.p, crit = p_grid(world, zs)
        self.crit = crit
        cache = world.__dict__.setdefault("_ops", {})
        T = np.zeros_like(self.p)
        D = np.zeros_like(self.p)
        ok = np.ones(self.p.shape, bool)
        if len(cache) > 400:
            cache.clear()
        for op in it.ops:
            k = (zs, op)
            if k not in cache:
                one = type(it).__new__(type(it))
                one.ops = [op]
                cache[k] = one.curve(world.ref, self.p)
            t, d, o = cache[k]
            T = T + t
            D = D + d
            ok = ok & o
        self.T, self.D, self.ok = T, D, ok
        # a step over a critical ray parameter is no part of a branch unless
        # the curve is continuous there
        i = np.searchsorted(crit, self.p)
        over = i[1:] != i[:-1]
        jump = over & (np.abs(np.diff(D)) > 0.02 / DEG)
        self.joined = ok[1:] & ok[:-1] & ~jump

    def exists(self):
        return bool(self.ok.any())

    def eval(self, p):
        return self.it.curve(self.world.ref, np.asarray(p, float))

    def roots(self, target, margin, span=14.0):
        """[(p, T, solid)] of the rays that arrive at distance target
        (radians); solid: the branch goes on for margin on both sides, and
        does not come back to the distance within span (the sampling of ray
        parameters) or up to the next critical ray parameter, which is
        always sampled."""
        d = self.D - target
        j = np.where(self.joined & (d[:-1] * d[1:] <= 0) &
                     (d[:-1] != d[1:]))[0]
        out = []
        for i in j:
            lo, hi = self.p[i], self.p[i + 1]
            T0 = None
            for _ in range(3):
                q = np.linspace(lo, hi, 9)
                T, D, ok = self.eval(q)
                e = D - target
                k = np.where(e[:-1] * e[1:] <= 0)[0]
                if len(k) == 0 or not ok.all():
                    break
                k = k[0]
                lo, hi = q[k], q[k + 1]
                f = e[k] / (e[k] - e[k + 1]) if e[k] != e[k + 1] else 0.5
                pr = lo + f * (hi - lo)
                T0 = T[k] + f * (T[k + 1] - T[k])
            if T0 is None:
                out.append((self.p[i], self.T[i], False, 0.0))
                continue
            # walk both ways
            s = 1 if d[i + 1] > d[i] else -1
            lim = []
            for step, sign in ((1, s), (-1, -s)):
                k = i + 1 if step == 1 else i
                while True:
                    if sign * d[k] >= margin:
                        lim.append(self.p[k])
                        break
                    n = k + step
                    if n < 0 or n >= len(self.p) or \
                            not self.joined[min(k, n)] or \
                            sign * (d[n] - d[k]) < -1e-9:
                        lim.append(None)
                        break
                    k = n
            solid = None not in lim
            for step, sign in ((1, s), (-1, -s)):
                k = i + 1 if step == 1 else i
                c0 = np.searchsorted(self.crit, pr)
                while solid and 0 <= k < len(self.p) and \
                        abs(self.p[k] - pr) <= span and self.ok[k] and \
                        np.searchsorted(self.crit, self.p[k]) == c0:
                    solid = sign * d[k] > 0
                    k += step
            width = abs(lim[0] - lim[1]) if solid else 0.0
            out.append((pr, T0, solid, width))
        return out


def targets(deg, dmax):
    """Distances in radians that show up at this epicentral distance."""
    x = abs(deg) % 360.0
    if x > 180:
        x = 360.0 - x
    r = x / DEG
    out, n = [], 0
    while True:
        a, b = 2 * n * math.pi + r, 2 * (n + 1) * math.pi - r
        if a > dmax and b > dmax:
            return sorted(set(out))
        out += [t for t in (a, b) if t <= dmax]
        n += 1
