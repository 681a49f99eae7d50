import numpy as np
from hypothesis import strategies as st

import rays
import strat
from common import DEG, Check, Skip, Violation, taup, world
from refphase import tokens, NotAPhase


class C(Check):
    id = "C24"
    quick, thorough = 1000, 40000
    rule = ("a case is a model, source depth, distance and 1-3 phases; all "
            "adjacent samples of the phase's travel-time curve and all "
            "arrivals at the distance are tested; non-trivial: the phase "
            "has samples or arrivals")
    technique = ("property-based testing of the relation between time, "
                 "distance and ray parameter")

    def cases(self):
        @st.composite
        def case(draw):
            m = draw(strat.models(self))
            return {"model": m, "zs": draw(strat.sources(m)),
                    "deg": draw(strat.distances()),
                    "step": draw(st.sampled_from([1e-4, 1e-3, 0.01, 0.1])),
                    "phases": draw(st.lists(strat.phases(m), min_size=1,
                                            max_size=3))}
        return case()

    def run(self, case):
        from taupy.SeismicPhase import SeismicPhase
        from taupy.TauModel import TauModelError
        w = world(case["model"])
        zs, deg = w.source(case["zs"]), case["deg"]
        if not 0 <= zs < w.cmb:
            raise Skip("outside of the domain")
        dc = w.depth_corrected(zs)
        n = 0
        vmax = max(max(r[1], r[2]) for r in w.rows)
        for name in case["phases"]:
            what = "%s from %r km" % (name, zs)
            try:
                ph = taup(what, SeismicPhase, name, dc)
            except Violation as e:
                if "TauModelError" in str(e):
                    continue
                raise
            p, d, t = (np.array(x, dtype=float) for x in (
                ph.rayParams, ph.dist, ph.time))
            head = len(p) == 2 and p[0] == p[1] or any(
                x in name for x in ("diff", "Pn", "Sn"))
            lim = self.limit(w, name, zs)
            if not (len(p) == len(d) == len(t)):
                raise Violation("%s: %d, %d and %d values" % (
                    what, len(p), len(d), len(t)))
            if len(p) == 0:
                continue
            n += len(p)
            i = np.arange(len(p) - 1)
            dp, dd, dt = np.diff(p), np.diff(d), np.diff(t)
            if (dp > 1e-9).any():
                raise Violation("%s: ray parameters increase: %s" % (
                    what, p[int(np.argmax(dp)):][:2]))
            if (p < 0).any() or lim is not None and \
                    (p > lim * (1 + 1e-4)).any():
                raise Violation("%s: ray parameters %r to %r, the slowness "
                                "at the ends is %r" % (
                                    what, p.min(), p.max(), lim))
            # the mean distance between two rays is -d(tau)/dp; it may lie
            # beyond both distances next to an extremum of the distance (the
            # gradient changes at the table's depths make small ones)
            tau = t - p * d
            slack = np.zeros(len(dd))
            for k in range(len(dd)):
                nb = [dd[j] for j in range(max(0, k - 2), min(
                    len(dd), k + 3)) if dp[j] < 0]
                if nb and min(nb) * max(nb) <= 0:
                    slack[k] = max(abs(x) for x in nb)
                slack[k] = max(slack[k], 0.05 * abs(dd[k]),
                               0.05 / DEG * len(ph.branchSeq) ** .5)
            use = dp < 0
            with np.errstate(all="ignore"):
                mean = np.where(use, -np.diff(tau) / np.where(use, dp, 1), 0)
            tol = slack + 1e-7 + 1e-7 / np.maximum(-dp, 1e-9)
            bad = use & ((mean < np.minimum(d[:-1], d[1:]) - tol) |
                         (mean > np.maximum(d[:-1], d[1:]) + tol))
            if head:
                # the part along the boundary
                bad = ~use & (np.abs(dt - p[1:] * dd) > 1e-6)
            exp = None
            for k in np.where(bad)[0]:
                if not head:
                    # scallops: the distance between two samples may well
                    # be less or more than at both, the sampling allows it
                    try:
                        exp = exp or rays.expected(w, name, zs)
                    except Skip:
                        break
                    if exp[0] == "geo" and self.scallop(
                            exp[1], p[k + 1], p[k], d[k + 1], d[k], mean[k]):
                        continue
                    if exp[0] == "edge":
                        continue
                raise Violation(
                    "%s: from p=%.6f, %.6f s, %.6f deg to p=%.6f, %.6f s, "
                    "%.6f deg the slope is %.6f" % (
                        what, p[k], t[k], d[k] * DEG, p[k + 1], t[k + 1],
                        d[k + 1] * DEG, dt[k] / dd[k] if dd[k] else 0))
        arr = [taup("%s at %r deg" % (case["phases"], x),
                    w.tau.get_travel_times, zs, x, case["phases"])
               for x in (deg, deg + case["step"])]
        if arr[0] != sorted(arr[0], key=lambda a: a.time):
            raise Violation("%s from %r km at %r deg: arrivals out of order"
                            % (case["phases"], zs, deg))
        for a in arr[0]:
            n += 1
            what = "%s from %r km at %r deg (t=%.5f p=%.5f)" % (
                a.name, zs, deg, a.time, a.rayParam)
            lim = self.limit(w, a.name, zs)
            if a.rayParam < 0 or lim is not None and \
                    a.rayParam > lim * (1 + 1e-4):
                raise Violation("%s: the slowness at the ends is %r" % (
                    what, lim))
            rs = w.R - zs
            chord = np.sqrt(max(0.0, w.R ** 2 + rs ** 2 -
                                2 * w.R * rs * np.cos(deg / DEG)))
            if not a.time > 0 or a.time < chord / vmax * (1 - 1e-9):
                raise Violation("%s is faster than %r km/s along the chord" %
                                (what, vmax))
            # the same branch a little further on
            for b in arr[1]:
                if b.name != a.name or b.rayParamIndex != a.rayParamIndex:
                    continue
                dd = b.dist - a.dist
                if abs(abs(dd) * DEG - case["step"]) > 1e-7:
                    continue
                n += 1
                s = (b.time - a.time) / dd
                i = slice(a.rayParamIndex, a.rayParamIndex + 2)
                q = list(a.phase.rayParams[i])
                if not min(q) - 1e-6 <= a.rayParam <= max(q) + 1e-6:
                    raise Violation("%s: between rays with p=%s" % (what, q))
                # in a scallop between two samples: as good as their chord
                dd, dt = np.diff(a.phase.dist[i]), np.diff(a.phase.time[i])
                if len(dd) and dd[0]:
                    q.append(dt[0] / dd[0])
                if len(q) > 2 and not min(q) - 1e-3 <= s <= max(q) + 1e-3:
                    raise Violation("%s: slope %.6f to %r deg" % (
                        what, s, deg + case["step"]))
        return n > 0, "%d samples and arrivals" % n

    @staticmethod
    def scallop(c, p0, p1, d0, d1, mean):
        """Is the mean distance one of those in between?"""
        T, D, ok = c.eval(np.linspace(p0, p1, 25))
        i = np.where(ok)[0]
        if len(i) < 2:
            return False
        ends = D[i[0]], D[i[-1]]
        tol = max(abs(ends[0] - d0), abs(ends[1] - d1)) + 0.1 / DEG
        return D[i].min() - tol <= mean <= D[i].max() + tol

    def limit(self, w, name, zs):
        """Largest ray parameter that can leave the source and arrive."""
        try:
            tk = tokens(name)
        except NotAPhase:
            return None
        legs = [x[0].upper() for x in tk if x[0] in "PSps"]
        if not legs or tk[0][0] not in "PSps":
            return None
        first = max(w.ref.slowness(zs, legs[0], s) for s in (
            ("above", "below") if zs > 0 else ("below",)))
        return min(first, w.ref.slowness(0.0, legs[-1], "below"))


CHECK = C
