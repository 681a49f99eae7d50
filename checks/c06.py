import numpy as np
from hypothesis import strategies as st

import strat
from c03 import key
from common import DEG, Check, Skip, Violation, taup, world

PH = ["P", "S", "PcP", "ScS", "PKP", "PKIKP", "SKS", "PP", "SS", "PcS", "ScP",
      "PKiKP", "SKP", "PS", "SP", "PPP", "ScSScS", "PKKP", "SKIKS", "PKS",
      "PSP", "SKKS", "PcPPcP", "P^mP", "S^mS", "SKiKS", "PKJKP", "PKPPcP"]
TYPES = {"float": float, "int": int, "float64": np.float64,
         "int64": np.int64, "int32": np.int32, "float32": np.float32}


class Curve(object):
    """Samples of a phase by ray parameter, without the shadow zones'."""

    def __init__(self, name, w, zs):
        from taupy.SeismicPhase import SeismicPhase
        ph = taup("phase %s from %r km" % (name, zs), SeismicPhase, name,
                  w.depth_corrected(zs))
        p = np.array(ph.rayParams, dtype=float)
        self.n = len(p)
        if self.n == 0:
            return
        u, first, cnt = np.unique(p, return_index=True, return_counts=True)
        keep = cnt == 1
        self.p = u[keep]
        self.t = np.array(ph.time, dtype=float)[first[keep]]
        self.d = np.array(ph.dist, dtype=float)[first[keep]]
        self.lim = (p.min(), p.max())


def common_p(*curves):
    if any(c.n == 0 for c in curves):
        return None
    p = curves[0].p
    for c in curves[1:]:
        p = np.intersect1d(p, c.p)
    out = [p]
    for c in curves:
        i = np.searchsorted(c.p, p)
        out += [c.t[i], c.d[i]]
    return out if len(p) else None


class C(Check):
    id = "C06"
    quick, thorough = 300, 8000
    rule = ("a case is a model, a source depth (also at and near "
            "discontinuities, table depths and slowness samples), a phase, "
            "a small change of depth and a number type; times and distances "
            "are compared at all common ray parameters with those from the "
            "surface, of the depth phase and from the changed depth; "
            "non-trivial: there are common ray parameters")
    technique = ("metamorphic property-based testing of source depths, with "
                 "an independent ray tracer for the piece above the source")

    def cases(self):
        @st.composite
        def case(draw):
            m = draw(strat.models(self))
            near = None
            if draw(st.integers(0, 2)) == 0:
                near = [draw(st.floats(0, 1).map(lambda x: round(x, 3))),
                        draw(st.sampled_from([0.0, 1e-9, 1e-7, 1e-6, 1e-4,
                                              -1e-9, -1e-7, -1e-6, -1e-4]))]
            return {"model": m, "zs": draw(strat.depths(m)), "near": near,
                    "phase": draw(st.sampled_from(PH)),
                    "eps": draw(st.sampled_from(
                        [1e-9, 1e-7, 1e-6, 1e-5, 1e-3, 0.1, -1e-9, -1e-7,
                         -1e-6, -1e-5, -1e-3, -0.1])),
                    "type": draw(st.sampled_from(sorted(TYPES))),
                    "deg": draw(strat.distances())}
        return case()

    def depth(self, w, case):
        zs = case["zs"]
        if case["near"]:
            ls = getattr(w, "_sampledepths", None)
            if ls is None:
                s = w.tmod.sMod
                ls = w._sampledepths = sorted(set(
                    float(s.getSlownessLayer(j, x).botDepth)
                    for x in (True, False)
                    for j in range(s.getNumLayers(x))))
                ls = w._sampledepths = [z for z in ls if z < w.cmb - 1]
            f, off = case["near"]
            zs = ls[int(f * (len(ls) - 1))] + off
        return zs

    def run(self, case):
        w = world(case["model"])
        zs, name = self.depth(w, case), case["phase"]
        if not 0 <= zs < w.cmb:
            raise Skip("outside of the domain")
        n = 0
        what = "%s from %.12g km" % (name, zs)
        X0, Xz = Curve(name, w, 0.0), Curve(name, w, zs)
        wt = name[0]
        for y in "PS":
            if zs == 0:
                break
            Yz = Curve(y.lower() + name, w, zs)
            r = common_p(X0, Xz, Yz)
            if r is None:
                continue
            p, t0, d0, t1, d1, t2, d2 = r
            n += len(p)
            if y == wt:
                e = np.abs(t1 + t2 - 2 * t0)
                f = np.abs(d1 + d2 - 2 * d0)
                i = int(np.argmax(np.maximum(e, f * 100)))
                if e[i] > 1e-5 or f[i] > 1e-7:
                    raise Violation(
                        "%s and %s%s, p=%.6f: %.6f s + %.6f s, %.6f deg + "
                        "%.6f deg; from the surface %.6f s, %.6f deg" % (
                            what, y.lower(), name, p[i], t1[i], t2[i],
                            d1[i] * DEG, d2[i] * DEG, t0[i], d0[i] * DEG))
            # the piece between the source and the surface
            self.piece(w, "%s%s from %.12g km" % (y.lower(), name, zs), y, zs,
                       p, t2 - t0, d2 - d0)
            if y == wt:
                self.piece(w, "piece above the source of " + what, wt, zs, p,
                           t0 - t1, d0 - d1)
        # small change of depth
        z2 = zs + case["eps"]
        if 0 <= z2 < w.cmb - 1e-3:
            r = common_p(Xz, Curve(name, w, z2))
            if r is not None:
                p, t1, d1, t2, d2 = r
                n += len(p)
                lo = min(w.ref.velocity(z, wt, s) for z in (zs, z2)
                         for s in ("above", "below"))
                e = np.abs((t1 - p * d1) - (t2 - p * d2))
                bad = e > 1e-6 + 1.5 * abs(case["eps"]) / lo
                if bad.any():
                    i = int(np.argmax(e))
                    raise Violation(
                        "%s, p=%.6f: %.7f s %.7f deg, but %.7f s %.7f deg "
                        "from %.12g km" % (what, p[i], t1[i], d1[i] * DEG,
                                           t2[i], d2[i] * DEG, z2))
        # number types
        zt = zs
        T = TYPES[case["type"]]
        if "int" in case["type"] or case["type"] == "float32":
            zt = float(round(zs))
        if zt < w.cmb:
            ref = taup("travel times", w.tau.get_travel_times, zt,
                       case["deg"], [name, "pP", "sS"])
            got = taup("travel times from %s depth" % case["type"],
                       w.tau.get_travel_times, T(zt), case["deg"],
                       [name, "pP", "sS"])
            if [key(a)[:7] for a in ref] != [key(a)[:7] for a in got]:
                raise Violation("%s at %r deg: %s from a depth of type %s, "
                                "but %s from a float" % (
                                    what, case["deg"],
                                    [key(a)[2:5] for a in got],
                                    case["type"],
                                    [key(a)[2:5] for a in ref]))
            n += len(ref)
        return n > 0, "%d ray parameters" % n

    def piece(self, w, what, wv, zs, p, dt, dd):
        T, D, ok = w.ref.through(wv, 0.0, zs, p)
        e = np.abs((dt - p * dd) - (T - p * D))
        bad = ok & (e > 2e-3 + 0.005 * T)
        if bad.any():
            i = int(np.argmax(np.where(ok, e, 0)))
            raise Violation(
                "%s, p=%.6f: the %s piece to the surface takes %.6f s %.6f "
                "deg, should take %.6f s %.6f deg" % (
                    what, p[i], wv, dt[i], dd[i] * DEG, T[i], D[i] * DEG))
        # distance where the ray does not graze
        lim = min(w.ref.slowness(z, wv, s) for z in w.discon + [zs]
                  if z <= zs for s in ("above", "below"))
        good = ok & (p < 0.97 * lim)
        f = np.abs(dd - D)
        bad = good & (f > 1e-4 / DEG + 0.02 * D)
        if bad.any():
            i = int(np.argmax(np.where(good, f, 0)))
            raise Violation(
                "%s, p=%.6f: the %s piece to the surface spans %.6f deg, "
                "should span %.6f deg" % (what, p[i], wv, dd[i] * DEG,
                                          D[i] * DEG))


CHECK = C
