import numpy as np
from hypothesis import strategies as st

import oracle
import rays
import strat
from c03 import same
from common import BUILTIN, DEG, Check, Skip, Violation, taup, world
from trace import Cumulative, misfit, p_near, point_list


def show(pts):
    return " ".join("(%.3f km %.4f s %.4f)" % (
        t.depth, t.time, t.distRadian * DEG) for t in pts)


def check_list(what, a, pts, zs):
    if not pts:
        raise Violation("%s has no pierce points" % what)
    f, l = pts[0], pts[-1]
    if abs(f.depth - zs) > 1e-6 or f.time != 0 or f.distRadian != 0:
        raise Violation("%s starts at %s" % (what, show([f])))
    if l.depth != 0 or abs(l.time - a.time) > 1e-6 or \
            abs(l.distRadian - a.dist) > 1e-8:
        raise Violation("%s ends at %s, not at %.4f s %.4f deg" % (
            what, show([l]), a.time, a.dist * DEG))
    for u, v in zip(pts[:-1], pts[1:]):
        if v.time < u.time - 1e-9 or v.distRadian < u.distRadian - 1e-11:
            raise Violation("%s goes back: %s" % (what, show([u, v])))


def check_points(w, zs, what, a, pts, exp, more=()):
    """Compare a list of pierce points with ray theory.  -> number of points
    compared"""
    kind, obj = exp
    it = obj[3] if kind == "head" else obj.it
    p = obj[0] if kind == "head" else a.rayParam
    disc = set(w.discon[1:-1]) | set(more)
    rowd = sorted(set(r[0] for r in w.rows) | {zs} | set(more))
    optional = [d for d in rowd if d not in disc and 0 < d < w.R]
    if kind == "head":
        # a ray that just grazes has no definite turning point
        pr = p
    else:
        pr = p
    exp_pts = point_list(w, it, pr, sorted(disc | set(optional)))
    if exp_pts is None:
        return 0
    # the entry and exit of a boundary that a head wave runs along
    req = lambda e: e[1] != "cross" or any(abs(e[0] - d) < 1e-7 for d in disc)
    crit = oracle.p_grid(w, zs)[1]
    q = p_near(w, crit, p) if kind != "head" else \
        np.array([p - 1e-9 * p, p, p + 1e-9 * p])
    cum = Cumulative(w, it, q)
    nh = sum(1 for o in it.ops if o[0] == "H")
    along = (a.dist - obj[2]) / nh if kind == "head" else 0.0
    tt, n = rays.TOL_T[w.params], len(it.ops)
    # merge expected points that coincide
    k = 0
    count = 0
    for j, (d, kd, key) in enumerate(exp_pts):
        # does the next observed point belong to this one?
        tol = 1e-6 if kd != "turn" else 3.0
        hit = k < len(pts) and abs(pts[k].depth - d) <= tol
        if not hit:
            if req((d, kd)) and not (
                    kd == "turn" and near_turn(exp_pts, j)) and not (
                    kd == "head" and abs(along) < 1e-9) and not (
                    abs(exp_pts[j - 1][0] - d) < 1e-6):
                raise Violation(
                    "%s: point %d at %.4f km (%s) is missing: %s" % (
                        what, j, d, kd, show(pts)))
            continue
        o = pts[k]
        k += 1
        if key is None:
            continue
        count += 1
        T, D, ok = cum.at(key)
        h = sum(1 for op in it.ops[:key[0] + (key[1] == "H")]
                if op[0] == "H")
        if kind == "head":
            T, D = T + h * along * p, D + h * along
            off = min(abs(D[ok] - o.distRadian)) if ok.any() else 0.0
            err = min(abs(T[ok] - o.time - p * (D[ok] - o.distRadian))) \
                if ok.any() else 0.0
            if off * DEG > 0.1 * n:
                err = None
        else:
            if not ok.any():
                continue
            err = misfit(q, crit, T, D, ok, o.distRadian, o.time,
                         0.1 * n / DEG)
        if err is None or err > tt * max(n, 2):
            raise Violation(
                "%s: point %s should have %.4f s %.4f deg (%s): %s" % (
                    what, show([o]), T[len(T) // 2],
                    D[len(D) // 2] * DEG, err, show(pts)))
    if k < len(pts):
        raise Violation("%s: point %s does not belong there: %s; expected "
                        "%s" % (what, show([pts[k]]), show(pts),
                                [(round(e[0], 4), e[1]) for e in exp_pts]))
    return count


def near_turn(pts, j):
    """A turning point within reach of a boundary may be lost in it."""
    d = pts[j][0]
    return any(abs(pts[i][0] - d) < 1e-3 for i in (j - 1, j + 1)
               if 0 <= i < len(pts))


class C(Check):
    id = "C07"
    quick, thorough = 500, 15000
    rule = ("a case is a model (iasp91, ak135 or generated), source depth, "
            "1-4 phases and a distance, in part aimed at a feature of the "
            "curve of the first; non-trivial: at least one arrival whose "
            "points were compared with ray theory")
    technique = ("property-based testing of the list of pierce points "
                 "against an independent ray tracer")

    def cases(self):
        @st.composite
        def case(draw):
            m = draw(strat.models(self))
            n = draw(st.integers(1, 4))
            return {"model": m, "zs": draw(strat.depths(m)),
                    "phases": [draw(strat.phases(m)) for _ in range(n)],
                    "deg": draw(st.one_of(strat.distances(),
                                          strat.aimed())),
                    "lazy": draw(st.booleans()),
                    "add": draw(st.lists(st.integers(1, 2800).map(float),
                                         max_size=2))
                    if draw(st.integers(0, 4)) == 0 else []}
        return case()

    def run(self, case):
        w = world(case["model"])
        zs, names = case["zs"], case["phases"]
        if not 0 <= zs < w.cmb:
            raise Skip("outside of the domain")
        exps = {}
        for x in names:
            try:
                exps[x] = rays.expected(w, x, zs)
            except Skip:
                exps[x] = None
        deg = rays.resolve(exps[names[0]] or ("none", ""), case["deg"])
        tts = taup("travel times", w.tau.get_travel_times, zs, deg, names)
        more = []
        if case["add"]:
            from taupy.TauP_Pierce import TauP_Pierce
            more = [d for d in case["add"]
                    if min(abs(d - b) for b in w.discon + [zs]) > .5]
            t = TauP_Pierce(w.tmod, names, zs, deg)
            t.addDepth = list(more)
            taup("pierce points with addDepth", t.run, False)
            arr = t.arrivals
        else:
            arr = taup("pierce points", w.tau.get_pierce_points, zs, deg,
                       names)
            if not same(tts, arr):
                raise Violation(
                    "%s from %r km at %r deg: pierce points for %s, travel "
                    "times for %s" % (names, zs, deg, [
                        (a.name, a.time) for a in arr], [
                        (a.name, a.time) for a in tts]))
        n = 0
        for a in arr:
            what = "%s from %r km at %r deg (t=%.4f p=%.4f)" % (
                a.name, zs, deg, a.time, a.rayParam)
            if more:
                what += " with added depths %r" % more
            check_list(what, a, a.pierce, zs)
            e = exps.get(a.name)
            if e is None or e[0] not in ("geo", "head"):
                continue
            n += check_points(w, zs, what, a, a.pierce, e, more)
        if case["lazy"] and not more:
            for a, b in zip(sorted(tts, key=lambda a: (a.name, a.time)),
                            sorted(arr, key=lambda a: (a.name, a.time))):
                got = taup("getPierce", a.getPierce)
                x = [(t.time, t.distRadian, t.depth) for t in got]
                y = [(t.time, t.distRadian, t.depth) for t in b.pierce]
                if x != y:
                    raise Violation("%s: getPierce of %s gives %s" % (
                        names, a.name, show(got)))
        return n > 0, "%d arrivals, %d points" % (len(arr), n)


CHECK = C
