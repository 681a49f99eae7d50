"""The points of a ray in order of travel, from the reference tracer."""
import numpy as np

from rays import EPS, SPAN, TOL_P


def point_list(w, it, p, crossed):
    """[(depth, kind, key)] of a ray with parameter p; kind is "start", "end"
    (of an operation), "cross" or "turn".  key identifies the point for
    cumulative().  Points are where an operation ends, where the ray turns
    and where it crosses one of the depths in crossed.  None if there is no
    such ray."""
    out = [(it.zs, "start", None)]
    z = it.zs
    for n, op in enumerate(it.ops):
        if op[0] == "X":
            _, wv, a, b = op
            if a == b:
                continue
            end = b if abs(a - z) < abs(b - z) else a
            c = sorted(d for d in crossed if a + 1e-7 < d < b - 1e-7)
            if end == a:
                c.reverse()
            out += [(d, "cross", (n, "X", d)) for d in c]
            out.append((end, "end", (n, "X", end)))
            z = end
        elif op[0] == "T":
            _, wv, a, zmax, b = op
            _, _, zt, ok = w.ref.turn(wv, a, zmax, np.array([p]))
            zt = float(zt[0])
            if not ok[0] or not zt == zt:
                return None
            out += [(d, "cross", (n, "D", d)) for d in sorted(crossed)
                    if a + 1e-7 < d < zt - 1e-7]
            if zt > a:
                out.append((zt, "turn", (n, "T", zt)))
            out += [(d, "cross", (n, "U", d))
                    for d in sorted(crossed, reverse=True)
                    if b + 1e-7 < d < zt - 1e-7]
            if zt > b:
                out.append((b, "end", (n, "U", b)))
            z = b
        else:
            out.append((op[2], "head", (n, "H", op[2])))
    return out


class Cumulative(object):
    """Times and distances, from the source, of the points of rays with ray
    parameters q (without the part along the boundary of head waves)."""

    def __init__(self, w, it, q):
        self.w, self.it, self.q = w, it, q
        self.pre = []
        T, D, ok = np.zeros_like(q), np.zeros_like(q), np.ones(q.shape, bool)
        cache = {}
        for op in it.ops:
            self.pre.append((T, D, ok))
            if op not in cache:
                one = type(it).__new__(type(it))
                one.ops = [op]
                cache[op] = one.curve(w.ref, q)
            t, d, o = cache[op]
            T, D, ok = T + t, D + d, ok & o
        self.total = (T, D, ok)
        self.start = self._starts()

    def _starts(self):
        z, out = self.it.zs, []
        for op in self.it.ops:
            out.append(z)
            if op[0] == "X":
                z = op[3] if abs(op[2] - z) <= abs(op[3] - z) else op[2]
            elif op[0] == "T":
                z = op[4]
        return out

    def at(self, key):
        n, how, d = key
        op = self.it.ops[n]
        T, D, ok = self.pre[n]
        ref = self.w.ref
        if how == "H":
            return T, D, ok
        wv, z0 = op[1], self.start[n]
        if how in "XD":
            lo, hi = min(z0, d), max(z0, d)
            t, x, o = ref.through(wv, lo, hi, self.q)
            return T + t, D + x, ok & o
        _, _, a, zmax, b = op
        t, x, zt, o = ref.turn(wv, a, zmax, self.q)
        if how == "T":
            return T + t, D + x, ok & o
        with np.errstate(invalid="ignore"):
            o = o & (zt >= d - 1e-9)
        # up from the turning point to d
        if d >= a:
            t2, x2, o2 = ref.through(wv, a, d, np.where(o, self.q, 0.0))
            return T + 2 * t - t2, D + 2 * x - x2, ok & o
        t2, x2, o2 = ref.through(wv, d, a, self.q)
        return T + 2 * t + t2, D + 2 * x + x2, ok & o & o2


def p_near(w, crit, p):
    """Ray parameters around p, with the critical ones among them."""
    tp = TOL_P[w.params]
    ps = crit[np.abs(crit - p) <= tp]
    q = np.concatenate([p + np.linspace(-tp, tp, 25),
                        p + np.linspace(-1, 1, 21) * 0.2, [p]] +
                       [ps * (1 + e) for e in EPS])
    return np.unique(q[q >= 0])


def misfit(q, crit, T, D, ok, dist, time, tol):
    """Smallest time misfit of the rays q that arrive at dist, within tol;
    None if none does."""
    i = np.searchsorted(crit, q)
    jump = (i[1:] != i[:-1]) & (np.abs(np.diff(D)) > 0.02 * np.pi / 180)
    best = None
    for j in np.where(ok[1:] & ok[:-1] & ~jump)[0]:
        lo, hi = min(D[j], D[j + 1]), max(D[j], D[j + 1])
        off = max(lo - dist, dist - hi, 0.0)
        if off > tol:
            continue
        x = min(max(dist, lo), hi)
        f = 0.5 if lo == hi else (x - D[j]) / (D[j + 1] - D[j])
        pr = q[j] + f * (q[j + 1] - q[j])
        tr = T[j] + f * (T[j + 1] - T[j]) + pr * (dist - x)
        e = abs(tr - time)
        best = e if best is None else min(best, e)
    return best
