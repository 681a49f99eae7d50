import numpy as np
from hypothesis import strategies as st

import oracle
import rays
import strat
from c03 import same
from c07 import near_turn, show
from common import BUILTIN, DEG, Check, Skip, Violation, taup, world
from trace import p_near, point_list


def legs(it, pts):
    """[(wave, from, to, kind of the end)] out of a point list"""
    out = []
    for (d0, k0, _), (d1, k1, key) in zip(pts[:-1], pts[1:]):
        out.append((it.ops[key[0]][1], d0, d1, k1))
    return out


def check_path(w, zs, what, a, pts, exp):
    kind, obj = exp
    it = obj[3] if kind == "head" else obj.it
    p = obj[0] if kind == "head" else a.rayParam
    ref = w.ref
    if kind == "head" and abs(p - a.rayParam) > 1e-3:
        raise Violation("%s has p=%.5f, should be %.5f" % (
            what, a.rayParam, p))
    f, l = pts[0], pts[-1]
    if abs(f.depth - zs) > 1e-6 or f.time != 0 or f.distRadian != 0:
        raise Violation("%s starts at %s" % (what, show([f])))
    n, tt = len(it.ops), rays.TOL_T[w.params]
    off = l.distRadian - a.dist
    room = 0.15 * n / DEG
    if kind == "geo":
        # between two samples the distance is not linear in p
        _, D, ok = it.curve(ref, p_near(w, obj.crit, p))
        room += max(D[ok]) - min(D[ok]) if ok.any() else 0.0
    if abs(l.depth) > 1e-9 or abs(off) > room or \
            abs(l.time - a.time - p * off) > tt * max(n, 2):
        raise Violation("%s ends at %s, not at %.4f s %.4f deg" % (
            what, show([l]), a.time, a.dist * DEG))
    # drop repeated points
    q = [f]
    for v in pts[1:]:
        u = q[-1]
        if v.time < u.time - 1e-9 or v.distRadian < u.distRadian - 1e-11:
            raise Violation("%s goes back: %s" % (what, show([u, v])))
        if abs(u.depth - v.depth) > 1e-9 or v.time - u.time > 1e-9 or \
                v.distRadian - u.distRadian > 1e-12:
            q.append(v)
    e = point_list(w, it, p, w.discon[1:-1])
    if e is None:
        return 0
    turns = [d for d, k, _ in e if k == "turn"]
    if any(near_turn(e, j) for j in range(len(e)) if e[j][1] == "turn"):
        return 0
    # grazing a boundary within the accuracy of turning depths
    ls = legs(it, e)
    nh = sum(1 for s in it.ops if s[0] == "H")
    k, count, turned = 0, 0, False
    for wv, z0, z1, kd in ls:
        u = q[k]
        if kd == "head":
            along = (a.dist - obj[2]) / nh
            if along < 1e-9 and (k + 1 >= len(q) or q[k + 1].depth !=
                                 u.depth):
                continue
            v = q[k + 1] if k + 1 < len(q) else u
            x, t = v.distRadian - u.distRadian, v.time - u.time
            if abs(v.depth - z1) > 1e-6 or abs(x - along) > 0.1 * n / DEG \
                    or abs(t - p * x) > 1e-6:
                raise Violation(
                    "%s: %s should run along %.3f km for %.4f deg" % (
                        what, show([u, v]), z1, along * DEG))
            k += 1
            count += 1
            turned = False
            continue
        s = 1 if z1 > z0 else -1
        tol = 2.0 if kd == "turn" else 1e-6
        start = k
        while k + 1 < len(q) and s * (q[k + 1].depth - q[k].depth) > 0 and \
                s * (q[k].depth - z1) < -tol:
            # near the turning point, pieces may be left or start elsewhere
            k += 1
        # the deepest point of a turning ray
        while kd == "turn" and k + 1 < len(q) and \
                s * (q[k + 1].depth - q[k].depth) > 0:
            k += 1
        if abs(q[k].depth - z1) > tol and not (
                kd == "turn" and s * (q[k].depth - z1) > -tol):
            raise Violation(
                "%s: %s piece from %.4f to %.4f km (%s) is %s" % (
                    what, wv, z0, z1, kd, show(q[start:k + 2])))
        if abs(q[k].depth - z1) > tol:
            raise Violation("%s: turns at %.4f km, not at %.4f km" % (
                what, q[k].depth, z1))
        for m in range(start, k):
            u, v = q[m], q[m + 1]
            lo, hi = sorted((u.depth, v.depth))
            turning = kd == "turn" and m == k - 1 or \
                turned and m == start
            pp = np.array([p, max(0.0, p - 1e-9), p * (1 - 1e-6)])
            if turning:
                zt = z1 if kd == "turn" else z0
                T, D, _, ok = ref.turn(wv, lo, min(zt + 3.0, w.R), pp)
            else:
                T, D, ok = ref.through(wv, lo, hi, pp)
            t, x = v.time - u.time, v.distRadian - u.distRadian
            i = 0 if ok[0] else 1 if ok[1] else 2
            if not ok[i]:
                if turning or any(abs(v.depth - z) < .1 or
                                  abs(u.depth - z) < .1 for z in turns):
                    continue
                # horizontal at one end (slowness there as in the layers)
                if ref.through(wv, lo, hi, np.array([p * (1 - 1e-4)]))[2][0]:
                    continue
                raise Violation("%s: no %s ray between %.4f and %.4f km" % (
                    what, wv, lo, hi))
            # p*dx is stationary
            et = abs((t - p * x) - (T[i] - p * D[i]))
            ex = abs(x - D[i])
            slack = 0.01 if turning else 0.002
            # thin or strongly bent pieces: sensitivity of the distance
            sens = abs(D[i] - D[2]) / 1e-6 * 2e-4 if ok[2] else 0.0
            if et > 0.02 + 0.002 * t or \
                    ex * DEG > slack + 0.02 * D[i] * DEG + sens * DEG:
                raise Violation(
                    "%s: the %s piece %s takes %.4f s %.5f deg, should take "
                    "%.4f s %.5f deg" % (what, wv, show([u, v]), t, x * DEG,
                                         T[i], D[i] * DEG))
            count += 1
        turned = kd == "turn"
    if k != len(q) - 1:
        raise Violation("%s: goes on with %s" % (what, show(q[k:k + 4])))
    return count


class C(Check):
    id = "C08"
    quick, thorough = 400, 10000
    rule = ("a case is a model (iasp91, ak135 or generated), source depth, "
            "1-3 phases and a distance, in part aimed at a feature of the "
            "curve of the first; non-trivial: at least one arrival whose "
            "path was compared piece by piece with ray theory")
    technique = ("property-based testing of the pieces of the ray path "
                 "against an independent ray tracer")

    def cases(self):
        @st.composite
        def case(draw):
            m = draw(strat.models(self))
            n = draw(st.integers(1, 3))
            return {"model": m, "zs": draw(strat.depths(m)),
                    "phases": [draw(strat.phases(m)) for _ in range(n)],
                    "deg": draw(st.one_of(strat.distances(),
                                          strat.aimed())),
                    "lazy": draw(st.booleans())}
        return case()

    def run(self, case):
        w = world(case["model"])
        zs, names = case["zs"], case["phases"]
        if not 0 <= zs < w.cmb:
            raise Skip("outside of the domain")
        exps = {}
        for x in names:
            try:
                exps[x] = rays.expected(w, x, zs)
            except Skip:
                exps[x] = None
        deg = rays.resolve(exps[names[0]] or ("none", ""), case["deg"])
        tts = taup("travel times", w.tau.get_travel_times, zs, deg, names)
        arr = taup("ray paths", w.tau.get_ray_paths, zs, deg, names)
        if not same(tts, arr):
            raise Violation(
                "%s from %r km at %r deg: ray paths for %s, travel times "
                "for %s" % (names, zs, deg,
                            [(a.name, a.time) for a in arr],
                            [(a.name, a.time) for a in tts]))
        n = 0
        for a in arr:
            what = "%s from %r km at %r deg (t=%.4f p=%.4f)" % (
                a.name, zs, deg, a.time, a.rayParam)
            if not a.path:
                raise Violation("%s has no path" % what)
            e = exps.get(a.name)
            if e is None or e[0] not in ("geo", "head"):
                continue
            n += check_path(w, zs, what, a, a.path, e)
        if case["lazy"]:
            for a, b in zip(sorted(tts, key=lambda a: (a.name, a.time)),
                            sorted(arr, key=lambda a: (a.name, a.time))):
                got = taup("getPath", a.getPath)
                x = [(t.time, t.distRadian, t.depth) for t in got]
                y = [(t.time, t.distRadian, t.depth) for t in b.path]
                if x != y:
                    raise Violation("%s: getPath of %s gives %s" % (
                        names, a.name, show(got[:9])))
        return n > 0, "%d arrivals, %d pieces" % (len(arr), n)


CHECK = C
