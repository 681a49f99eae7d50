import random

from hypothesis import strategies as st

import strat
from c03 import key, same
from common import Check, Violation, taup, world

METHODS = {"times": "get_travel_times", "pierce": "get_pierce_points",
           "path": "get_ray_paths"}


def expand(names):
    out = []
    for n in (["ttall"] if names is None else names):
        out += strat.GROUPS.get(n.lower(), [n])
    return [n for i, n in enumerate(out) if n not in out[:i]]


class C(Check):
    id = "C04"
    quick, thorough = 480, 12000
    rule = ("a case is a model, source depth, distance, kind of query and a "
            "phase list (None, or up to 6 of: group names in random letter "
            "case, phases of ttall, composite phases, numbered phases, "
            "kmps, an invalid name, with repetitions); its arrivals are "
            "compared with the union of one query per documented member; "
            "non-trivial: at least two members have arrivals")
    technique = "metamorphic property-based testing of phase lists"

    def setup(self):
        self.single = {}

    def cases(self):
        rnd = random.Random("C04-%s-%s" % (self.seed, self.worker))
        m = strat.pool(self, 1) + ["iasp91", "ak135"]
        places = []
        for _ in range(6 if self.tier == "quick" else 60):
            mod = rnd.choice(m)
            zs = rnd.choice([0.0, 0.0, round(rnd.uniform(1, 700), 1),
                             float(rnd.randint(1, 2500)), 35.0, 410.0])
            places.append([mod, zs, round(rnd.choice([
                rnd.uniform(0.5, 30), rnd.uniform(30, 179)]), 2)])
        group = st.tuples(
            st.sampled_from(sorted(strat.GROUPS)),
            st.lists(st.booleans(), min_size=8, max_size=8)).map(
                lambda x: "".join(c.upper() if b else c
                                  for c, b in zip(x[0], x[1])))

        @st.composite
        def case(draw):
            mod, zs, deg = draw(st.sampled_from(places))
            single = st.one_of(strat.phases(mod),
                               st.sampled_from(strat.TTALL),
                               st.sampled_from(["3kmps", "P0x", "Kq", "pg"]))
            lst = draw(st.one_of(
                st.none(), st.lists(st.one_of(group, single, single),
                                    min_size=1, max_size=5)))
            if lst and draw(st.booleans()):
                lst = lst + [draw(st.sampled_from(lst))]
            return {"model": mod, "zs": zs, "deg": deg, "list": lst,
                    "kind": draw(st.sampled_from(
                        ["times", "times", "times", "pierce", "path"]))}
        return case()

    def run(self, case):
        w = world(case["model"])
        zs, deg, lst = case["zs"], case["deg"], case["list"]
        f = getattr(w.tau, METHODS[case["kind"]])
        arg = None if lst is None else list(lst)
        got = taup("%s(%r, %r, %r)" % (METHODS[case["kind"]], zs, deg, lst),
                   f, zs, deg, arg)
        if arg != lst:
            raise Violation("the caller's phase list %r became %r" % (
                lst, arg))
        want, live = [], 0
        for n in expand(lst):
            k = (str(case["model"]), zs, deg, n)
            if k not in self.single:
                self.single[k] = taup(
                    "get_travel_times(%r, %r, [%r])" % (zs, deg, n),
                    w.tau.get_travel_times, zs, deg, [n])
            want += self.single[k]
            live += bool(self.single[k])
            for a in self.single[k]:
                if a.name != n:
                    raise Violation("asked for %r, got %r" % (n, a.name))
        if not same(got, want):
            g, x = sorted(map(key, got)), sorted(map(key, want))
            raise Violation(
                "%s for %r from %r km at %r deg: %d arrivals, one by one %d; "
                "only in the list: %s; missing: %s" % (
                    METHODS[case["kind"]], lst, zs, deg, len(g), len(x),
                    [(k[0], round(k[2], 3)) for k in g if k not in x][:4],
                    [(k[0], round(k[2], 3)) for k in x if k not in g][:4]))
        if case["kind"] == "times":
            t = [a.time for a in got]
            if t != sorted(t):
                raise Violation("%r from %r km at %r deg: times not in order"
                                " %s" % (lst, zs, deg, t))
        return live >= 2, "%d arrivals of %d phases" % (len(got), live)


CHECK = C
