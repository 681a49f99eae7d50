import numpy as np
from hypothesis import strategies as st

import bullen
import strat
from common import DEG, PARAMS, Check, KnownSite, Violation, world

DEFAULT = {"min_delta_p": 0.1, "max_delta_p": 11.0,
           "max_depth_interval": 115.0, "max_range_interval": 2.5,
           "max_interp_error": 0.05}


def segments(w, wave, inner_core_s=True):
    """[(z0, z1, p0, p1)]: slowness between the depths of the table, for S
    that of P in a fluid and, on demand, in the inner core."""
    out = []
    for a, b in zip(w.rows[:-1], w.rows[1:]):
        if a[0] == b[0]:
            continue
        k = 1
        if wave == "S" and a[2] > 0 and (inner_core_s or a[0] < w.iocb):
            k = 2
        out.append((a[0], b[0], (w.R - a[0]) / a[k], (w.R - b[0]) / b[k],
                    a[k], b[k]))
    return out


def zones(w, segs):
    """[(top, bottom, least slowness above)] where slowness exceeds the least
    slowness above."""
    out, zone = [], None
    least = segs[0][2]
    for z0, z1, p0, p1, v0, v1 in segs:
        if zone is not None and p0 < least:
            out.append((zone[0], z0, zone[1]))
            zone = None
        least = min(least, p0)
        if zone is None and (p0 > least or p1 > p0):
            zone = z0, least
        if zone is not None and p1 < least:
            # r / v = least, v linear in depth
            g = (v1 - v0) / (z1 - z0)
            z = (w.R - least * (v0 - g * z0)) / (1 + least * g)
            out.append((zone[0], z, zone[1]))
            zone = None
        least = min(least, p1)
    if zone is not None:
        out.append((zone[0], w.R, zone[1]))
    return out


def critical(w, both):
    """Depths of jumps and extrema of either slowness."""
    out = {0.0, w.R}
    for segs in both:
        for a, b in zip(segs[:-1], segs[1:]):
            if a[3] != b[2] or (a[2] - a[3]) * (b[2] - b[3]) < 0:
                out.add(b[0])
    return sorted(out)


# Models and settings whose slowness steps are all within the limit, in spite
# of the recorded finding, and would not be without the splitting of layers.
STRICT = (24, 48, 61, 89, 20, 55)


def settled(k):
    m = strat.gen_desc("C14-%d" % k)
    m["par"] = "default"
    m["create"] = strat.sampling(str(k))
    return m


class C(Check):
    id = "C14"
    quick, thorough = 100, 3000
    rule = ("a case is a model (generated, iasp91 or ak135) and settings of "
            "its sampling; all its slowness layers are tested; non-trivial: "
            "all of them")
    technique = ("property-based testing of the created slowness layers "
                 "against the velocity table and closed-form distances")

    def fixed(self):
        return [{"model": "iasp91"}, {"model": "ak135"}] + [
            {"model": settled(k), "strict": True} for k in STRICT]

    def cases(self):
        @st.composite
        def case(draw):
            k = draw(st.integers(0, 10 ** 6))
            m = settled(k)
            if k % 40 == 0:
                m = {"builtin": draw(st.sampled_from(["iasp91", "ak135"])),
                     "par": m["par"], "create": m["create"]}
            if k % 5 == 0:
                m["create"]["allow_inner_core_s"] = False
            return {"model": m}
        return case()

    def run(self, case):
        m = case["model"]
        w = world(m)
        par = dict(DEFAULT)
        if isinstance(m, dict):
            par.update(PARAMS[m.get("par", "default")])
            par.update(m.get("create", {}))
        s = w.tmod.sMod
        ics = par.get("allow_inner_core_s", True)
        segs = {x: segments(w, x, ics) for x in "PS"}
        layers = {"P": s.PLayers, "S": s.SLayers}
        crit = critical(w, segs.values())
        what = str(m)
        n, steps = 0, []
        for wv in "PS":
            n += self.layers(what, w, wv, layers[wv], segs[wv], crit, par,
                             steps)
        for name, got in (
                ("critical depths", [c.depth for c in s.criticalDepths]),
                ("ends of the depth ranges",
                 [0.0] + [b.botDepth for b in w.tmod.tauBranches[0]])):
            if [float(x) for x in got] != crit:
                raise Violation("%s: %s %s, the table has %s" % (
                    what, name, got, crit))
        for wv, got in (("P", s.highSlownessLayerDepthsP),
                        ("S", s.highSlownessLayerDepthsS)):
            exp = zones(w, segs[wv])
            got = [(float(x.topDepth), float(x.botDepth), float(x.rayParam))
                   for x in got]
            if len(got) != len(exp) or not np.allclose(
                    got, exp, rtol=1e-9, atol=1e-6):
                raise Violation("%s: %s high slowness zones (top, bottom, "
                                "slowness) %s, the table has %s" % (
                                    what, wv, got, exp))
        fl = []
        for a, b in zip(w.rows[:-1], w.rows[1:]):
            if a[2] == 0 and a[0] < b[0]:
                if fl and fl[-1][1] == a[0]:
                    fl[-1][1] = b[0]
                else:
                    fl.append([a[0], b[0]])
        got = [[float(x.topDepth), float(x.botDepth)]
               for x in s.fluidLayerDepths]
        if got != fl:
            raise Violation("%s: fluid zones %s, the table has %s" % (
                what, got, fl))
        steps = [x[1] for x in sorted(steps)
                 if not (x[0] and case.get("strict"))]
        if steps and case.get("strict"):
            raise Violation("%s: %d layers exceed the slowness step, e.g. "
                            "%s" % (what, len(steps), steps[0]))
        if steps:
            raise KnownSite("max_delta_p", "%s: %d layers exceed the "
                            "slowness step, e.g. %s" % (what, len(steps),
                                                        steps[0]))
        return True, "%d layers" % n

    def layers(self, what, w, wv, ls, segs, crit, par, steps):
        z, p = 0.0, segs[0][2]
        R = w.R
        ends = {0.0}
        for l in ls:
            at = "%s: %s layer from %r to %r km, slowness %r to %r" % (
                what, wv, float(l.topDepth), float(l.botDepth),
                float(l.topP), float(l.botP))
            if l.topDepth != z or l.botDepth < z:
                raise Violation("%s follows on %r km" % (at, z))
            if l.topP != p and abs(l.topP - p) > 1e-9 * p:
                raise Violation("%s follows on slowness %r" % (at, p))
            z, p = float(l.botDepth), float(l.botP)
            ends.add(z)
            if l.botDepth - l.topDepth > par["max_depth_interval"] * (
                    1 + 1e-9):
                raise Violation("%s is thicker than %r km" % (
                    at, par["max_depth_interval"]))
            if abs(l.topP - l.botP) > par["max_delta_p"] * (1 + 1e-9):
                steps.append((l.botDepth == l.topDepth,
                              "%s, step more than %r" % (
                                  at, par["max_delta_p"])))
        if z != R:
            raise Violation("%s: %s layers end at %r km" % (what, wv, z))
        miss = [c for c in crit if c not in ends]
        if miss:
            raise Violation("%s: %s layers do not end at the critical depths "
                            "%s" % (what, wv, miss))
        # slowness on both sides
        k = 0
        for l in ls:
            if l.topDepth == l.botDepth and \
                    abs(l.topP - l.botP) <= 1e-12 * l.topP:
                continue        # samples that differ by rounding
            if l.topDepth == l.botDepth:
                lo, hi = self.jump(segs, l.topDepth, R)
                for q in (l.topP, l.botP):
                    if not min(lo, hi) - 1e-9 * lo <= q <= \
                            max(lo, hi) + 1e-9 * hi:
                        raise Violation(
                            "%s: %s slowness %r at %r km, where it jumps "
                            "from %r to %r" % (what, wv, float(q),
                                               float(l.topDepth), lo, hi))
                continue
            while segs[k][1] <= l.topDepth:
                k += 1
            z0, z1, _, _, v0, v1 = segs[k]
            if l.botDepth > z1:
                raise Violation("%s: %s layer from %r to %r km goes across "
                                "%r km" % (what, wv, float(l.topDepth),
                                           float(l.botDepth), z1))
            for zz, q in ((l.topDepth, l.topP), (l.botDepth, l.botP)):
                v = v0 + (v1 - v0) * ((zz - z0) / (z1 - z0))
                e = (R - zz) / v
                if abs(q - e) > 1e-9 * e + 1e-9:
                    raise Violation("%s: %s slowness %r at %r km, that of "
                                    "the table is %r" % (
                                        what, wv, float(q), float(zz), e))
        self.distances(what, w, wv, ls, par)
        return len(ls)

    @staticmethod
    def jump(segs, depth, R):
        lo = [s[3] for s in segs if s[1] == depth]
        hi = [s[2] for s in segs if s[0] == depth]
        lo = lo or hi
        hi = hi or lo
        if not lo:
            raise Violation("a layer of no thickness at %r km" % depth)
        return lo[0], hi[0]

    def distances(self, what, w, wv, ls, par):
        R = w.R
        least = ls[0].topP
        use = []
        for j, l in enumerate(ls):
            if l.topP <= least and l.botP < l.topP and \
                    l.topP - l.botP > 2 * par["min_delta_p"] * (1 + 1e-9):
                use.append(j)
            least = min(least, l.topP, l.botP)
        p = np.array([ls[j].topP for j in use] + [ls[j].botP for j in use])
        m = len(use)
        last = np.array([j - 1 for j in use] + use)
        D = np.zeros_like(p)
        for j, l in enumerate(ls):
            i = np.where(last >= j)[0]
            if not len(i) or l.topDepth == l.botDepth:
                continue
            q = np.minimum(p[i], min(l.topP, l.botP))
            D[i] += 2 * bullen.layer(R - l.topDepth, R - l.botDepth, l.topP,
                                     l.botP, q)[1]
        d = np.abs(D[:m] - D[m:]) * DEG
        lim = par["max_range_interval"]
        bad = d > lim * self.slack[wv] + 1e-6
        self.worst = float(max(d / lim)) if m else 0
        if bad.any():
            i = int(np.argmax(d))
            l = ls[use[i]]
            raise Violation(
                "%s: %s rays that turn between %r and %r km (p=%r to %r) "
                "arrive at %.5f to %.5f deg, more than %r deg" % (
                    what, wv, float(l.topDepth), float(l.botDepth),
                    float(l.topP), float(l.botP), D[i] * DEG,
                    D[m + i] * DEG, lim))

    slack = {"P": 1.0, "S": 1.0}


CHECK = C
