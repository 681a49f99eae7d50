from hypothesis import strategies as st

import rays
import strat
from common import Check, Skip, taup, world


class C(Check):
    id = "C01"
    quick, thorough = 800, 20000
    rule = ("a case is a model (iasp91, ak135 or a generated planet with or "
            "without low-velocity zones and other radius), a source depth in "
            "[0, CMB), a distance and up to 4 phases; every arrival is "
            "compared with an independent ray tracer; non-trivial: at least "
            "one arrival was compared")
    technique = ("differential property-based testing against an independent "
                 "ray tracer")

    def cases(self):
        @st.composite
        def case(draw):
            m = draw(strat.models(self, 3 if self.tier == "quick" else 10))
            return {"model": m, "zs": draw(strat.sources(m)),
                    "deg": draw(st.one_of(strat.distances(),
                                         strat.aimed(), strat.aimed())),
                    "phases": draw(st.lists(strat.phases(m), min_size=1,
                                            max_size=3, unique=True))}
        return case()

    def fixed(self):
        out = []
        for m in ("iasp91", "ak135"):
            for zs in (0.0, 35.0, 210.0, 410.0, 660.0, 600.0, 33.3, 2200.5):
                for deg in (1.5, 12.0, 20.0, 35.0, 85.0, 105.0, 144.0, 165.0):
                    for i in range(0, len(strat.TTALL), 19):
                        out.append({"model": m, "zs": zs, "deg": deg,
                                    "phases": strat.TTALL[i:i + 19]})
        import random
        rnd = random.Random("%s%s" % (self.id, self.seed))
        out = rnd.sample(out, 64 if self.tier == "quick" else len(out))
        # gaps of planets with low-velocity zones, one planet per worker
        gaps = []
        for w in range(self.workers):
            m = dict(strat.gen_desc("gap-%s-%s-%s" % (self.id, self.seed, w)),
                     lvz=0.95)
            top = round(rnd.uniform(1, 12), 2)
            gaps.append([
                {"model": m, "zs": zs, "deg": ["jump", f, k], "phases": [ph]}
                for zs in (0.0, top) for ph in ("P", "S", "PP", "SS", "PS",
                                                "P" * 6, "S" * 7, "P" * 12)
                for f in (0.3, 0.7) for k in range(3)])
        # conversions and reflections at boundaries in the mantle
        conv = [{"model": m, "zs": zs, "deg": float(deg) + 0.5,
                 "phases": [t % z for t in strat.NUMBERED]}
                for m in ("iasp91", "ak135") for zs in (0.0, 50.0, 500.0)
                for z in ("410", "660", "35" if m == "iasp91" else "20")
                for deg in list(range(0, 60, 3)) + list(range(60, 180, 9))]
        out += rnd.sample(conv, 48 if self.tier == "quick" else len(conv))
        return out + [g[i] for i in range(len(gaps[0])) for g in gaps]

    def run(self, case):
        w = world(case["model"])
        zs, deg = w.source(case["zs"]), case["deg"]
        n, seen = 0, []
        if isinstance(deg, list):
            try:
                first = rays.expected(w, case["phases"][0], zs)
            except Skip:
                first = ("none", None)
            deg = rays.resolve(first, deg)
        for name in case["phases"]:
            try:
                exp = rays.expected(w, name, zs)
            except Skip:
                continue
            arr = taup("get_travel_times(%r, %r, [%r])" % (zs, deg, name),
                       w.tau.get_travel_times, zs, deg, [name])
            k = self.compare(w, zs, name, deg, arr, exp)
            n += k
            if k:
                seen.append("%s: %d" % (name, k))
        return n > 0, ", ".join(seen)

    def compare(self, w, zs, name, deg, arr, exp):
        return rays.check_sound(w, zs, name, deg, arr, exp)


CHECK = C
