from hypothesis import strategies as st

import rays
import strat
from common import Check, Skip, Violation, taup, world

SURE = ["P", "S", "PP", "SS", "PKP", "SKS", "PcP", "ScS", "PKIKP", "SKIKS"]


class C(Check):
    id = "C23"
    quick, thorough = 500, 20000
    case_limit = 120.0
    rule = ("a case is a planet (generated, iasp91 or ak135) created with "
            "random coarse settings or with very fine ones, a source depth, "
            "a distance and phases; the arrivals are compared with the same "
            "independent ray tracer, whatever the settings, within the error "
            "they allow: 1 s per piece of the ray for the coarse ones, 0.02 s "
            "and 2 s/rad for the fine ones; non-trivial: a ray was compared")
    technique = ("differential and convergence property-based testing "
                 "against an independent ray tracer")

    def planets(self):
        w = getattr(self, "worker", 0)
        out = []
        n = 1 if self.tier == "quick" else 3
        for i in range(n):
            k = "C23-%s-%s-%s" % (self.seed, w, i)
            if (w + i) % 4 == 0:
                m = {"builtin": ["iasp91", "ak135"][(w // 4 + i) % 2]}
            else:
                m = strat.gen_desc(k)
            out.append(dict(m, par="very"))
            out.append(dict(m, par="very"))
            for j in range(2):
                out.append(dict(m, par="coarse",
                                create=strat.sampling("%s-%d" % (k, j))))
        return out

    def cases(self):
        pool = self.planets()

        @st.composite
        def case(draw):
            m = draw(st.sampled_from(pool))
            return {"model": m, "zs": draw(strat.depths(m)),
                    "how": draw(st.sampled_from(["sound", "complete"])),
                    "phases": draw(st.lists(st.one_of(
                        strat.phases(m), st.sampled_from(SURE)),
                        min_size=1, max_size=3, unique=True)),
                    "deg": draw(st.one_of(strat.distances(),
                                          strat.aimed()))}
        return case()

    def run(self, case):
        w = world(case["model"])
        zs, deg = case["zs"], case["deg"]
        if not 0 <= zs < w.cmb:
            raise Skip("outside of the domain")
        n, exps = 0, []
        for x in case["phases"]:
            try:
                exps.append((x, rays.expected(w, x, zs)))
            except Skip:
                continue
        deg = rays.resolve(exps[0][1] if exps else ("none", ""), deg)
        for x, exp in exps:
            arr = taup("get_travel_times(%r, %r, [%r])" % (zs, deg, x),
                       w.tau.get_travel_times, zs, deg, [x])
            if case["how"] == "sound":
                n += rays.check_sound(w, zs, x, deg, arr, exp)
            else:
                n += rays.check_complete(w, zs, x, deg, arr, exp)
        return n > 0, "%s: %d compared" % (w.params, n)


CHECK = C
