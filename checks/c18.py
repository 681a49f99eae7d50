import math

from hypothesis import strategies as st

import c07
import c08
import oracle
import rays
import strat
from common import DEG, Check, Skip, Violation, taup, world

PH = ["Pn", "Sn", "Pdiff", "Sdiff", "pPn", "sPn", "pSn", "sSn", "pPdiff",
      "sPdiff", "pSdiff", "sSdiff"]
MORE = ["PnPn", "SnSn", "PPn", "SSn", "PnP", "SnS", "PPdiff", "PdiffP",
        "PdiffPdiff", "SdiffS", "SdiffSdiff", "PSn", "SPn", "PSdiff",
        "SPdiff", "PnS", "PcPPdiff", "PKPPdiff", "SKSSdiff", "ScSSn",
        "PnPcP", "PdiffPKP", "SnSKS"]


class C(Check):
    id = "C18"
    quick, thorough = 900, 60000
    rule = ("a case is a model (with or without low-velocity zones), a source "
            "depth and a head or diffracted phase with up to one depth phase "
            "or other leg; existence, extent, slope and time along the branch "
            "are compared with an independent ray tracer, as are the pierce "
            "points and the path at one distance; non-trivial: the wave "
            "exists, or it must not")
    technique = ("differential property-based testing against an independent "
                 "ray tracer")

    def cases(self):
        @st.composite
        def case(draw):
            m = draw(strat.models(self, 4))
            d, moho, cmb, iocb, R, rowd = strat.info(m)
            near = [x for x in sorted(set(rowd)) if x > moho][:2] + [moho]
            return {"model": m, "zs": draw(st.one_of(
                        strat.sources(m), strat.depths(m), st.tuples(
                            st.sampled_from(near), st.sampled_from(
                                [0.0, 0.5, 1e-3, -0.5, 5.0, -2.0])).map(
                                    lambda x: max(sum(x), 0.0)),
                        st.sampled_from([0.0, 10.0, 30.0]))),
                    "phase": draw(st.one_of(
                        st.sampled_from(PH), st.sampled_from(PH),
                        st.sampled_from(MORE))),
                    "f": [round(draw(st.floats(0, 1)), 4) for _ in range(3)],
                    "more": draw(st.sampled_from(["", "", "", "pierce",
                                                  "path"]))}
        return case()

    def run(self, case):
        w = world(case["model"])
        zs, x = w.source(case["zs"]), case["phase"]
        if not 0 <= zs < w.cmb:
            raise Skip("outside of the domain")
        what = "%s from %r km" % (x, zs)
        kind, obj = rays.expected(w, x, zs)
        ask = lambda d: taup("%s at %r deg" % (what, d),
                             w.tau.get_travel_times, zs, d, [x])
        if kind == "edge":
            raise Skip("grazes the source")
        if kind == "none":
            for d in [f * 180.0 for f in case["f"]] + \
                    [f * 20.0 for f in case["f"]]:
                arr = ask(d)
                if arr:
                    raise Violation("%s at %r deg: t=%.4f p=%.5f, but %s" % (
                        what, d, arr[0].time, arr[0].rayParam, obj))
            return True, "none: %s" % obj
        if kind != "head":
            raise Skip("no head wave")
        p, T, D, it = obj
        n = len(it.ops)
        m = 0.1 / DEG * n if w.params != "coarse" else 0.5 / DEG * n
        ext = rays.head_range(it)
        lo, hi = D + m, D + ext - m
        inside = sorted(lo + f * (hi - lo) for f in case["f"])
        got = []
        for t in inside + [lo, hi, D - m, D + ext + m]:
            if t < 0:
                continue
            arr = [a for a in ask(t * DEG % 360.0) if abs(a.dist - t) < 1e-6]
            k = 1 if lo - 1e-9 <= t <= hi + 1e-9 else 0
            if len(arr) != k:
                raise Violation(
                    "%s over %.4f deg: %d arrivals, expected %d; the branch "
                    "goes from %.4f deg on for %.4f deg" % (
                        what, t * DEG, len(arr), k, D * DEG, ext * DEG))
            if k:
                a = arr[0]
                if abs(a.rayParam - p) > 1e-6 * p:
                    raise Violation("%s over %.4f deg: p=%.6f, the boundary "
                                    "has %.6f" % (what, t * DEG, a.rayParam,
                                                  p))
                e = T + p * (t - D)
                if abs(a.time - e) > rays.TOL_T[w.params] * max(n, 2):
                    raise Violation("%s over %.4f deg: t=%.4f, expected "
                                    "%.4f" % (what, t * DEG, a.time, e))
                got.append((t, a.time))
        for a, b in zip(got[:-1], got[1:]):
            if abs(b[1] - a[1] - p * (b[0] - a[0])) > 1e-6 + 1e-9 * b[1]:
                raise Violation(
                    "%s: time grows by %.6f s from %.4f to %.4f deg, with "
                    "p=%.6f by %.6f" % (what, b[1] - a[1], a[0] * DEG,
                                        b[0] * DEG, p, p * (b[0] - a[0])))
        if case["more"]:
            c = (c07 if case["more"] == "pierce" else c08).CHECK(
                self.tier, self.seed)
            d = inside[1] * DEG % 360.0
            c.run({"model": case["model"], "zs": zs, "phases": [x],
                   "deg": d, "add": [], "lazy": False})
        return True, "%.3f to %.3f deg" % (D * DEG, (D + ext) * DEG)


CHECK = C
