import numpy as np
from hypothesis import strategies as st

import bullen
import strat
from common import Check, Skip, Violation, world


class C(Check):
    id = "C15"
    quick, thorough = 600, 20000
    rule = ("a case is a model (iasp91, ak135 or generated, with random "
            "settings of the sampling) and a source depth or none; all "
            "depth ranges and ray parameters of the tabulated model are "
            "tested for both wave types; non-trivial: all of them")
    technique = ("property-based testing against closed-form integrals, and "
                 "of the source correction against the uncorrected model")

    def cases(self):
        @st.composite
        def case(draw):
            m = draw(st.sampled_from(
                ["iasp91", "ak135"] + strat.pool(self, 4) +
                [dict(d, create=strat.sampling("%s-%s" % (
                    self.seed, d["gen"]))) for d in
                 strat.pool(self, 4, par="coarse")]))
            return {"model": m, "zs": draw(st.one_of(
                st.none(), strat.sources(m), strat.sources(m),
                strat.sources(m), strat.sources(m)))}
        return case()

    def run(self, case):
        w = world(case["model"])
        zs = w.source(case["zs"])
        if zs is not None and not 0 <= zs < w.cmb:
            raise Skip("outside of the domain")
        t = w.tmod if zs is None else w.depth_corrected(zs)
        what = "%s, source at %r km" % (case["model"], zs)
        p = np.array([float(x) for x in t.rayParams])
        if not (np.diff(p) < 0).all():
            raise Violation("%s: ray parameters are not decreasing" % what)
        if p[-1] != 0:
            raise Violation("%s: least ray parameter %r" % (what, p[-1]))
        s = t.sMod
        n, moved = 0, zs is not None and any(
            0 < abs(l.botDepth - zs) < 2e-6
            for l in w.tmod.sMod.PLayers + w.tmod.sMod.SLayers)
        for k, (wv, layers) in enumerate((("P", s.PLayers),
                                          ("S", s.SLayers))):
            n += self.tables(w, what, wv, layers, t.tauBranches[k], p,
                             moved)
        a, b = t.tauBranches
        if [(x.topDepth, x.botDepth) for x in a] != \
                [(x.topDepth, x.botDepth) for x in b]:
            raise Violation("%s: P and S have different ranges" % what)
        if zs is not None:
            self.corrected(w, what, t, zs)
        return True, "%d values" % n

    def tables(self, w, what, wv, layers, branches, p, moved):
        z, n, total = 0.0, 0, (0.0, 0.0)
        for b in branches:
            if b.topDepth != z or not b.botDepth > z:
                raise Violation("%s: %s range from %r to %r km follows on "
                                "%r km" % (what, wv, b.topDepth, b.botDepth,
                                           z))
            z = b.botDepth
            rng = "%s: %s, %.4f to %.4f km" % (what, wv, b.topDepth,
                                               b.botDepth)
            above = [x for l in layers if l.botDepth <= b.topDepth
                     for x in (l.topP, l.botP)] or [layers[0].topP]
            pmax = min(above)
            inside = [x for l in layers if l.botDepth <= b.botDepth and
                      l.topDepth < b.botDepth for x in (l.topP, l.botP)]
            under = [x for l in layers if l.botDepth <= b.botDepth
                     for x in (l.topP, l.botP)]
            for name, got, exp in (
                    ("largest", b.maxRayParam, pmax),
                    ("least turning", b.minTurnRayParam, min(inside)),
                    ("least", b.minRayParam, min(under))):
                if not abs(got - exp) <= 1e-9 * (1 + exp):
                    raise Violation("%s: %s ray parameter %r, that of the "
                                    "slowness layers is %r" % (
                                        rng, name, got, exp))
            val = [np.array([float(x) for x in v]) for v in (
                b.time, b.dist, b.tau)]
            if [len(v) for v in val] != [len(p)] * 3:
                raise Violation("%s: %s values for %d ray parameters" % (
                    rng, [len(v) for v in val], len(p)))
            T, D, m, c = bullen.branch(w.R, layers, b.topDepth, b.botDepth,
                                       p, pmax)
            # ranges are subtracted from each other
            total = (total[0] + c[0], total[1] + c[1])
            c = total
            # a layer boundary next to the source is moved there
            e = (1e-4, 1e-6) if moved else (1e-10, 1e-12)
            for name, got, exp, tol in (
                    ("time", val[0], T, 10 * c[0] + 1e-10 * T + e[0]),
                    ("distance", val[1], D, 10 * c[1] + 1e-10 * D + e[1]),
                    ("tau", val[2], T - p * D,
                     10 * (c[0] + p * c[1]) + 1e-9 * T + e[0])):
                bad = ~(np.abs(got - exp) <= tol)
                if bad.any():
                    i = int(np.argmax(bad))
                    raise Violation(
                        "%s: the ray with p=%r has %s %r, the sum over %d "
                        "slowness layers is %r" % (rng, p[i], name, got[i],
                                                   m[i], exp[i]))
            n += 3 * len(p)
        if z != w.R:
            raise Violation("%s: %s ranges end at %r km" % (what, wv, z))
        return n

    def corrected(self, w, what, t, zs):
        """The source correction adds what turns at the source, no more."""
        if not any(b.topDepth == zs or b.botDepth == zs
                   for b in t.tauBranches[0]):
            raise Violation("%s: not at the end of a depth range" % what)
        o = w.tmod
        new = set(float(x) for x in t.rayParams) - set(
            float(x) for x in o.rayParams)
        if len(t.rayParams) != len(o.rayParams) + len(new):
            raise Violation("%s: lost ray parameters" % what)
        ends = {}
        for wv, was, now in (("P", o.sMod.PLayers, t.sMod.PLayers),
                             ("S", o.sMod.SLayers, t.sMod.SLayers)):
            # layers of the corrected model, in pieces of the original ones
            k, tol = 0, 2e-6
            for l in was:
                piece = []
                while k < len(now) and now[k].botDepth <= l.botDepth + tol \
                        and (now[k].topDepth < l.botDepth - tol or
                             l.botDepth - l.topDepth < tol and
                             now[k].botDepth - now[k].topDepth < tol):
                    piece.append(now[k])
                    k += 1
                    if abs(piece[-1].botP - l.botP) < 1e-9 and abs(
                            piece[-1].botDepth - l.botDepth) <= tol:
                        break
                if not piece or abs(piece[0].topP - l.topP) > 1e-9 or \
                        abs(piece[-1].botP - l.botP) > 1e-9 or \
                        abs(piece[0].topDepth - l.topDepth) > tol or \
                        abs(piece[-1].botDepth - l.botDepth) > tol:
                    raise Violation(
                        "%s: the %s layer %r to %r km (%r to %r) became %s" %
                        (what, wv, l.topDepth, l.botDepth, l.topP, l.botP,
                         [(float(x.topDepth), float(x.botDepth),
                           float(x.topP), float(x.botP)) for x in piece]))
                for a, b in zip(piece[:-1], piece[1:]):
                    if a.botP != b.topP or a.botDepth != b.topDepth:
                        raise Violation("%s: %s layers with a gap at %r km" %
                                        (what, wv, a.botDepth))
                    # p = A r^B within the layer
                    if l.botDepth - l.topDepth < tol or l.botP == 0:
                        continue
                    f = np.log((w.R - a.botDepth) / (w.R - l.topDepth)) / \
                        np.log((w.R - l.botDepth) / (w.R - l.topDepth))
                    q = l.topP * (l.botP / l.topP) ** f
                    if abs(q - a.botP) > 1e-6 * q + 1e-6 * abs(
                            (l.topP - l.botP) / (l.botDepth - l.topDepth)):
                        raise Violation(
                            "%s: %s slowness %r at %r km, in the layer that "
                            "was split it is %r" % (
                                what, wv, a.botP, a.botDepth, q))
            if k != len(now):
                raise Violation("%s: %d %s layers more" % (
                    what, len(now) - k, wv))
            at = [float(l.botP) for l in now if l.botDepth == zs] or [
                float(now[0].topP)]
            ends[wv] = at
            lowest = min([min(l.topP, l.botP) for l in now
                          if l.botDepth <= zs] or [at[0]])
            # the ray that leaves horizontally
            for q in at[-1:] if zs > 0 else []:
                if q <= lowest and q not in t.rayParams:
                    raise Violation("%s: the %s slowness at the source, %r, "
                                    "is no ray parameter" % (what, wv, q))
        extra = [q for q in new if q not in ends["P"] + ends["S"]]
        if extra:
            raise Violation("%s: new ray parameters %r" % (what, extra))


CHECK = C
