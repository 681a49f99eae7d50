"""Comparison of the arrivals of a phase with ray theory (C01, C02)."""
import math

import numpy as np

import oracle
from common import DEG, Skip, Violation, taup, world
from refphase import MAX_DIFF, MAX_HEAD, NotAPhase

# tolerance on the travel time per piece of the ray, by sampling
TOL_T = {"fine": 0.06, "default": 0.08, "coarse": 1.0, "very": 0.02}
# offsets around the critical ray parameters
EPS = [s * e for e in (2e-6, 1e-7, 5e-9, 2e-10, 1e-11) for s in (1, -1)]
SPAN = {"fine": 14.0, "default": 14.0, "coarse": 45.0, "very": 5.0}
TOL_P = {"fine": 12.0, "default": 12.0, "coarse": 40.0, "very": 2.0}


def expected(w, name, zs):
    """("none" | "head" | "geo", object)"""
    try:
        it = w.itinerary(name, zs)
    except NotAPhase as e:
        return "none", str(e)
    if it.head == "mixed":
        raise Skip("head and diffracted wave in one phase")
    if it.head:
        p = it.head_p(w.ref)
        if p is None:
            return "none", "no head wave"
        T, D, ok = it.curve(w.ref, np.array([p]))
        # a ray that grazes the source or a layer on its way is on the edge
        Te, De, oke = it.curve(w.ref, np.array([p - 1e-3, p + 1e-3]))
        if not ok[0] and not oke[0]:
            return "none", "cannot reach the boundary"
        if not (ok[0] and oke[0]):
            return "edge", None
        return "head", (p, float(T[0]), float(D[0]), it)
    c = oracle.RefCurve(w, it, zs)
    if not c.exists():
        return "none", "no ray"
    return "geo", c


def head_range(it):
    return MAX_DIFF if it.head == "diff" else MAX_HEAD


def resolve(exp, deg):
    """The distance in degrees that an aimed distance stands for."""
    if not isinstance(deg, list):
        return deg
    kind, obj = exp
    how, f, k = deg
    if kind == "head":
        p, T, D, it = obj
        x = D + (1.5 * f - 0.2) * head_range(it)
    elif kind == "geo":
        i = np.where(obj.ok)[0]
        if how == "p":
            x = obj.D[i[int(round(f * (len(i) - 1)))]]
        else:
            # gaps (both sides valid) and ends of the curve
            j = [n for n in range(len(obj.p) - 1) if not obj.joined[n] and
                 (obj.ok[n] or obj.ok[n + 1])]
            j = [n for n in j if not (obj.ok[n] and obj.ok[n + 1]) or
                 abs(obj.D[n] - obj.D[n + 1]) > 0.1 / DEG]
            g = [n for n in j if obj.ok[n] and obj.ok[n + 1]]
            if g and k < 5:
                n = g[k % len(g)]
                x = obj.D[n] + f * (obj.D[n + 1] - obj.D[n])
            elif j:
                n = j[k % len(j)]
                x = obj.D[n if obj.ok[n] else n + 1] + (f - 0.5) * 0.1
            else:
                x = f * math.pi
    else:
        x = f * math.pi
    x = abs(x) * DEG % 360.0
    x = round(360.0 - x if x > 180 else x, 4)
    return min(max(x, 0.05), 179.95)


def check_sound(w, zs, name, deg, arrivals, exp):
    """Every arrival is a ray.  -> number of arrivals"""
    kind, obj = exp
    tp, tt = TOL_P[w.params], TOL_T[w.params]
    for a in arrivals:
        what = "%s from %r km at %r deg: arrival t=%.4f p=%.5f dist=%.5f deg" \
            % (name, zs, deg, a.time, a.rayParam, a.dist * DEG)
        if a.name != name:
            raise Violation("%s is named %r" % (what, a.name))
        x = (a.dist * DEG) % 360.0
        y = abs(deg) % 360.0
        if min(abs(x - y), abs(x - (360 - y)), abs(x + y - 720),
               abs(x - y - 360), abs(x - y + 360)) > 1e-6:
            raise Violation("%s does not belong to the distance" % what)
        if kind == "none":
            raise Violation("%s, but there is no such ray (%s)" % (what, obj))
        if kind == "edge":
            continue
        if kind == "head":
            p, T, D, it = obj
            n = len(it.ops)
            if abs(a.rayParam - p) > 1e-3:
                raise Violation("%s, head wave has p=%.5f" % (what, p))
            if not -0.1 / DEG * n <= a.dist - D <= \
                    head_range(it) + 0.1 / DEG * n:
                raise Violation("%s, head wave starts at %.4f deg" % (
                    what, D * DEG))
            if abs(a.time - T - p * (a.dist - D)) > tt * max(n, 2):
                raise Violation("%s, expected time %.4f" % (
                    what, T + p * (a.dist - D)))
            continue
        c = obj
        n = len(c.it.ops)
        ps = c.crit[np.abs(c.crit - a.rayParam) <= tp]
        q = np.concatenate([
            a.rayParam + np.linspace(-tp, tp, 25),
            a.rayParam + np.linspace(-1, 1, 21) * 0.2] + [ps * (1 + e) for e in EPS])
        q = np.unique(q[q >= 0])
        T, D, ok = c.eval(q)
        if not ok.any():
            raise Violation("%s, but no ray has such a ray parameter" % what)
        i = np.searchsorted(c.crit, q)
        jump = (i[1:] != i[:-1]) & (np.abs(np.diff(D)) > 0.02 / DEG)
        seg = ok[1:] & ok[:-1] & ~jump
        tol = 0.1 * n / DEG
        best, bestd = None, None
        for j in np.where(seg)[0]:
            lo, hi = min(D[j], D[j + 1]), max(D[j], D[j + 1])
            off = max(lo - a.dist, a.dist - hi, 0.0)
            bestd = off if bestd is None else min(bestd, off)
            if off > tol:
                continue
            x = min(max(a.dist, lo), hi)
            f = 0.5 if lo == hi else (x - D[j]) / (D[j + 1] - D[j])
            pr = q[j] + f * (q[j + 1] - q[j])
            tr = T[j] + f * (T[j + 1] - T[j]) + pr * (a.dist - x)
            err = abs(tr - a.time)
            if best is None or err < best[0]:
                best = (err, tr, pr)
        if best is None:
            raise Violation("%s, but rays with ray parameters near to it "
                            "arrive at %s deg" % (what, ", ".join(
                                "%.3f" % (x * DEG) for x in D[ok][::6])))
        if best[0] > tt * max(n, 2):
            raise Violation("%s, but that ray has t=%.4f p=%.4f" % (
                what, best[1], best[2]))
    return len(arrivals)


def check_complete(w, zs, name, deg, arrivals, exp, margin=0.3):
    """Every solid root has its arrival, exactly once. -> number of roots"""
    kind, obj = exp
    tp, tt = TOL_P[w.params], TOL_T[w.params]
    if kind in ("none", "edge"):
        if kind == "none" and arrivals:
            raise Violation("%s from %r km at %r deg: %d arrivals, but there "
                            "is no such ray (%s)" % (
                                name, zs, deg, len(arrivals), obj))
        return 0
    m = margin / DEG
    if kind == "head":
        p, T, D, it = obj
        lo, hi = D + m, D + head_range(it) - m
        n = 0
        for t in oracle.targets(deg, hi):
            k = [a for a in arrivals if abs(a.dist - t) < 1e-6]
            if lo <= t <= hi:
                n += 1
                if len(k) != 1:
                    raise Violation(
                        "%s from %r km at %r deg: %d arrivals over %.4f deg, "
                        "expected one (p=%.4f)" % (name, zs, deg, len(k),
                                                   t * DEG, p))
        return n
    c = obj
    nops = len(c.it.ops)
    dmax = float(c.D[c.ok].max())
    count = 0
    # none in a shadow zone
    check_sound(w, zs, name, deg, arrivals, exp)
    for t in oracle.targets(deg, dmax):
        roots = c.roots(t, m, SPAN[w.params])
        arr = [a for a in arrivals if abs(a.dist - t) < 1e-6]
        # most similar first, each arrival for one root
        pairs = sorted(
            (abs(a.time - r[1]) / (tt * max(nops, 2)) + abs(a.rayParam - r[0]) / tp,
             i, j) for i, a in enumerate(arr) for j, r in enumerate(roots))
        usedA, usedR = {}, {}
        for s, i, j in pairs:
            if i in usedA or j in usedR:
                continue
            a, r = arr[i], roots[j]
            if abs(a.time - r[1]) > tt * max(nops, 2) or abs(a.rayParam - r[0]) > tp:
                continue
            usedA[i], usedR[j] = j, i
        for j, r in enumerate(roots):
            if not r[2] or r[3] < 0.4:
                continue
            count += 1
            if j not in usedR:
                raise Violation(
                    "%s from %r km at %r deg: the ray with p=%.4f over "
                    "%.4f deg arriving at %.4f s is missing; arrivals: %s" % (
                        name, zs, deg, r[0], t * DEG, r[1],
                        [(round(a.time, 3), round(a.rayParam, 3))
                         for a in arr]))
        for i, a in enumerate(arr):
            if i in usedA:
                continue
            # left over: twice the same ray?
            for j, r in enumerate(roots):
                if r[2] and r[3] >= 0.4 and abs(a.rayParam - r[0]) < tp / 4 \
                        and abs(a.time - r[1]) <= tt * max(nops, 2) and not any(
                            k != j and abs(s[0] - r[0]) < tp
                            for k, s in enumerate(roots)):
                    raise Violation(
                        "%s from %r km at %r deg: the ray with p=%.4f over "
                        "%.4f deg is reported twice" % (
                            name, zs, deg, r[0], t * DEG))
    return count
