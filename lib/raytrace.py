"""Independent reference ray tracer for radially symmetric Earth models.

It shares no code and no algorithm with /repo: it reads the velocity-depth
pairs itself, keeps velocity linear in depth inside each layer (the documented
meaning of a .tvel file) and evaluates the ray integrals

    Delta(p) = int p / (r sqrt(eta^2 - p^2)) dr,     eta = r / v(r)
    T(p)     = int eta^2 / (r sqrt(eta^2 - p^2)) dr

by Gauss-Legendre quadrature after the substitution s = ln tan(i/2), where i is
the angle of incidence (sin i = p / eta).  With v = a + b r the substitution
gives  dT = (r / a) ds  and  dDelta = (r / a) sin^2(i) / p ds : no singularity
at the turning point.
"""
import math

import numpy as np

_X, _W = np.polynomial.legendre.leggauss(24)


class Layer(object):
    __slots__ = ("top", "bot", "vp0", "vp1", "vs0", "vs1")

    def __init__(self, top, bot, vp0, vp1, vs0, vs1):
        self.top, self.bot = top, bot
        self.vp0, self.vp1, self.vs0, self.vs1 = vp0, vp1, vs0, vs1


class RefModel(object):
    """A velocity model given as (depth, vp, vs) rows; equal consecutive
    depths are a discontinuity."""

    def __init__(self, rows, inner_core_s=True, iocb=None):
        self.rows = [tuple(float(x) for x in r[:3]) for r in rows]
        self.R = self.rows[-1][0]
        self.layers = []
        for (d0, p0, s0), (d1, p1, s1) in zip(self.rows[:-1], self.rows[1:]):
            if d0 != d1:
                self.layers.append(Layer(d0, d1, p0, p1, s0, s1))
        self.inner_core_s = inner_core_s
        self.iocb = iocb
        self.tables = {w: self._table(w) for w in "PS"}

    # -- the velocity profile that a P or an "S" ray sees.  An S leg inside a
    # fluid travels as P (the leg K is a P leg whatever comes before it).
    def _table(self, w):
        top, bot, v0, v1 = [], [], [], []
        for l in self.layers:
            a, b = (l.vp0, l.vp1) if w == "P" else (l.vs0, l.vs1)
            if w == "S" and (l.vs0 == 0 or (not self.inner_core_s and
                                            self.iocb is not None and
                                            l.top >= self.iocb)):
                a, b = l.vp0, l.vp1
            top.append(l.top)
            bot.append(l.bot)
            v0.append(a)
            v1.append(b)
        return tuple(np.array(x) for x in (top, bot, v0, v1))

    def discontinuities(self):
        out = []
        for a, b in zip(self.layers[:-1], self.layers[1:]):
            if a.vp1 != b.vp0 or a.vs1 != b.vs0:
                out.append(a.bot)
        return out

    def velocity(self, depth, w, side):
        """Velocity just above ('above') or just below ('below') depth."""
        top, bot, v0, v1 = self.tables[w]
        if side == "above":
            i = int(np.searchsorted(bot, depth, side="left"))
        else:
            i = int(np.searchsorted(top, depth, side="right")) - 1
        i = min(max(i, 0), len(top) - 1)
        return float(v0[i] + (v1[i] - v0[i]) * (depth - top[i]) /
                     (bot[i] - top[i]))

    def slowness(self, depth, w, side):
        return (self.R - depth) / self.velocity(depth, w, side)

    # -- integrals
    def _cross(self, p, rt, rb, vt, vb):
        """(T, Delta) for ray parameters p (1-d) and one slab crossed from
        radius rt down to rb, with v linear; p*vb/rb <= 1 assumed (clipped).
        rb and vb may be arrays (rays that turn inside of the slab)."""
        p = np.asarray(p, dtype=float)
        rb = np.broadcast_to(np.asarray(rb, dtype=float), p.shape)
        vb = np.broadcast_to(np.asarray(vb, dtype=float), p.shape)
        T = np.zeros(p.shape)
        D = np.zeros(p.shape)
        h = rt - rb
        thick = h > 1e-9
        if not thick.any():
            return T, D
        with np.errstate(all="ignore"):
            b = np.where(thick, (vt - vb) / np.where(thick, h, 1.0), 0.0)
        a = vt - b * rt
        z = thick & (p <= 1e-9)
        if z.any():
            # straight down
            bz, hz, vz = b[z], h[z], vb[z]
            with np.errstate(all="ignore"):
                T[z] = np.where(np.abs(bz) * hz < 1e-12 * vt, hz / vt,
                                np.log(vt / vz) / np.where(bz == 0, 1, bz))
        lin = np.abs(a) > 1e-6 * vt
        q = thick & ~z & lin
        if q.any():
            pq, aq, bq = p[q], a[q], b[q]
            st = np.clip(pq * vt / rt, 1e-300, 1)
            with np.errstate(all="ignore"):
                sb = np.where(rb[q] > 0, np.clip(pq * vb[q] / np.where(
                    rb[q] > 0, rb[q], 1), 1e-300, 1), 1.0)
            # s = ln tan(i/2) = -acosh(1/sin i)
            s0 = -np.arccosh(1.0 / st)
            s1 = -np.arccosh(1.0 / sb)
            half = (s1 - s0) / 2
            s = (s0 + s1)[:, None] / 2 + half[:, None] * _X[None, :]
            sini = 1.0 / np.cosh(s)
            ra = pq[:, None] / (sini - pq[:, None] * bq[:, None])   # r / a
            T[q] = np.sum(ra * _W, axis=1) * half
            D[q] = np.sum(ra * sini ** 2 * _W, axis=1) * half / pq
        q = thick & ~z & ~lin
        if q.any():
            # eta constant: v = b r
            si = np.clip(p[q] * vt / rt, 0, 1)
            co = np.sqrt(np.maximum(1 - si * si, 0))
            L = np.log(rt / rb[q])
            with np.errstate(all="ignore"):
                T[q] = L / (b[q] * co)
                D[q] = si / co * L
        return T, D

    def through(self, w, d0, d1, p):
        """(T, Delta, ok) for rays crossing the whole depth interval d0 < d1
        (either direction) as wave w; ok False where the ray cannot."""
        p = np.asarray(p, dtype=float)
        T = np.zeros_like(p)
        D = np.zeros_like(p)
        ok = np.ones(p.shape, dtype=bool)
        top, bot, v0, v1 = self.tables[w]
        R = self.R
        for i in range(len(top)):
            a, b = max(top[i], d0), min(bot[i], d1)
            if b <= a:
                continue
            f = (v1[i] - v0[i]) / (bot[i] - top[i])
            va, vb = v0[i] + f * (a - top[i]), v0[i] + f * (b - top[i])
            lim = min((R - a) / va, (R - b) / vb)
            ok &= p <= lim * (1 + 1e-12)
            t, d = self._cross(np.minimum(p, lim), R - a, R - b, va, vb)
            if b >= R:
                d = np.where(p <= 1e-9, math.pi / 2, d)
            T += t
            D += d
        return T, D, ok

    def turn(self, w, d0, dmax, p):
        """One way (T, Delta, turning depth, ok) from depth d0 down to where a
        ray of parameter p turns or is totally reflected, not deeper than
        dmax.  ok is False for rays that go through dmax or cannot leave d0."""
        p = np.asarray(p, dtype=float)
        T = np.zeros_like(p)
        D = np.zeros_like(p)
        zt = np.full(p.shape, np.nan)
        live = np.ones(p.shape, dtype=bool)
        bad = np.zeros(p.shape, dtype=bool)
        top, bot, v0, v1 = self.tables[w]
        R = self.R
        for i in range(len(top)):
            a, b = max(top[i], d0), min(bot[i], dmax)
            if b <= a or not live.any():
                continue
            f = (v1[i] - v0[i]) / (bot[i] - top[i])
            va, vb = v0[i] + f * (a - top[i]), v0[i] + f * (b - top[i])
            ea, eb = (R - a) / va, (R - b) / vb
            # reflected at the top of this slab
            refl = live & (p > ea)
            zt[refl] = a
            if a == d0:
                bad |= refl
            live &= ~refl
            # turns inside
            ins = live & (p >= eb)
            if ins.any():
                # (R - z)/(va + f (z - a)) = p
                with np.errstate(divide="ignore", invalid="ignore"):
                    z = (R - p[ins] * (va - f * a)) / (1 + p[ins] * f)
                z = np.clip(np.where(np.isfinite(z), z, b), a, b)
                tt, dd = self._cross(p[ins], R - a, R - z, va,
                                     va + f * (z - a))
                dd = np.where((z >= R) & (p[ins] <= 1e-9),
                              dd + math.pi / 2, dd)
                T[ins] += tt
                D[ins] += dd
                zt[ins] = z
                live &= ~ins
            if live.any():
                t, d = self._cross(np.minimum(p[live], min(ea, eb)), R - a,
                                   R - b, va, vb)
                T[live] += t
                D[live] += d
        ok = ~live & ~bad
        return T, D, zt, ok


def read_tvel(path):
    rows = []
    with open(path) as f:
        for n, line in enumerate(f):
            if n < 2:
                continue
            c = line.partition("#")[0].split()
            if c:
                rows.append(tuple(float(x) for x in c))
    return rows
