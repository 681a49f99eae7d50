from hypothesis import strategies as st

import c07
import c08
import rays
import strat
from common import BUILTIN, Check, Skip, Violation, taup, world

CORE = ["PKP", "PKIKP", "PKiKP", "SKS", "SKIKS", "SKiKS", "PKIKS", "SKIKP",
        "PKKP", "PKIKKIKP", "SKIKKIKS", "PKIKPPKIKP", "SKIKSSKIKS", "PKIIKP",
        "SKIIKS", "PKIKPPKP", "pPKIKP", "sPKIKP", "pSKIKS", "sSKIKS",
        "PKIKPPcP", "ScSSKIKS", "PcPPKIKP", "PKiKPPKIKP", "SKKS", "PKIIIKP",
        "PKIKKIIKP", "PcP", "ScS", "Pdiff", "SKiKP", "PKIKSSKIKP"]
J = ["PKJKP", "SKJKS", "PKJKS", "SKJKP", "pPKJKP", "sSKJKS", "PKJJKP",
     "PKIJKP", "PKJIKP", "SKJIKS", "PKIJIKP", "PKJKPPKIKP", "PKIKPPKJKP",
     "PKJKKIKP", "SKJKSSKJKS", "PPKJKP", "PcPPKJKP", "PKJKPPcP", "SSKJKS",
     "PKJJJKP", "PKIKKJKP"]


class C(Check):
    id = "C22"
    quick, thorough = 700, 20000
    rule = ("a case is a model made without inner-core S waves (iasp91, ak135 "
            "or a generated planet), a source depth, a distance and phases "
            "with and without a J leg; the arrivals, their pierce points or "
            "paths are compared with an independent ray tracer; non-trivial: "
            "a ray was compared or a J phase was asked for")
    technique = ("differential property-based testing against an independent "
                 "ray tracer")

    def no_s(self, m):
        d = dict(m) if isinstance(m, dict) else {"builtin": m,
                                                 "par": "default"}
        d["create"] = {"allow_inner_core_s": False}
        return d

    def cases(self):
        @st.composite
        def case(draw):
            m = self.no_s(draw(strat.models(
                self, 3 if self.tier == "quick" else 10)))
            how = draw(st.sampled_from(["sound", "complete", "sound",
                                        "complete", "pierce", "path", "J",
                                        "mixed"]))
            ph = st.one_of(st.sampled_from(CORE), st.sampled_from(CORE),
                           strat.phases(m))
            if how == "J":
                ph = st.sampled_from(J)
            names = draw(st.lists(ph, min_size=1, max_size=3, unique=True))
            if how == "mixed":
                names.insert(draw(st.integers(0, len(names))),
                             draw(st.sampled_from(J)))
            return {"model": m, "zs": draw(strat.depths(m)), "how": how,
                    "lazy": False, "add": [], "phases": names,
                    "deg": draw(st.one_of(strat.distances(),
                                          strat.aimed()))}
        return case()

    def fixed(self):
        return [{"model": self.no_s(m), "zs": zs, "how": "J", "phases": J,
                 "deg": deg} for m in BUILTIN for zs in (0.0, 100.0, 660.0)
                for deg in (120.0, 150.0, 175.0, 10.0)]

    def run(self, case):
        w = world(case["model"])
        zs, deg, how = case["zs"], case["deg"], case["how"]
        if not 0 <= zs < w.cmb:
            raise Skip("outside of the domain")
        names = case["phases"]
        if isinstance(deg, list):
            exp = ("none", None)
            for x in names:
                if "J" not in x:
                    try:
                        exp = rays.expected(w, x, zs)
                        break
                    except Skip:
                        pass
            deg = rays.resolve(exp, deg)
        if how in ("J", "mixed"):
            arr = taup("get_travel_times(%r, %r, %r)" % (zs, deg, names),
                       w.tau.get_travel_times, zs, deg, names)
            for a in arr:
                if "J" in a.name:
                    raise Violation(
                        "%s from %r km at %r deg: t=%.4f p=%.5f in a model "
                        "without inner-core S" % (a.name, zs, deg, a.time,
                                                  a.rayParam))
            if how == "J":
                return True, "%d J phases" % len(names)
            for x in names:
                one = taup("get_travel_times", w.tau.get_travel_times, zs,
                           deg, [x])
                a = [(b.time, b.rayParam) for b in arr if b.name == x]
                b = [(b.time, b.rayParam) for b in one]
                if a != b:
                    raise Violation(
                        "%s from %r km at %r deg: %s alone, %s among %s" % (
                            x, zs, deg, b, a, names))
            return True, "mixed"
        names = [x for x in names if "J" not in x]
        if not names:
            raise Skip("J phases only")
        if how in ("pierce", "path"):
            c = (c07 if how == "pierce" else c08).CHECK(self.tier, self.seed)
            return c.run(dict(case, deg=deg, phases=names))
        n = 0
        for x in names:
            try:
                exp = rays.expected(w, x, zs)
            except Skip:
                continue
            arr = taup("get_travel_times(%r, %r, [%r])" % (zs, deg, x),
                       w.tau.get_travel_times, zs, deg, [x])
            if how == "sound":
                n += rays.check_sound(w, zs, x, deg, arr, exp)
            else:
                n += rays.check_complete(w, zs, x, deg, arr, exp)
        return n > 0, "%d compared" % n


CHECK = C
