import math

from hypothesis import strategies as st

import strat
from common import DEG, Check, Skip, Violation, taup, world
from refphase import NotAPhase


class C(Check):
    id = "C09"
    quick, thorough = 1000, 30000
    rule = ("a case is a model, a source depth in [0, CMB) (often on or next "
            "to a discontinuity), a distance and up to 3 phases; the angles "
            "of every arrival are compared with Snell's law for the "
            "velocities of the table on the side that the ray leaves to; "
            "non-trivial: at least one arrival of a phase with legs")
    technique = ("property-based testing against Snell's law on the "
                 "velocity table")

    def cases(self):
        @st.composite
        def case(draw):
            m = draw(strat.models(self, 2))
            return {"model": m, "zs": draw(strat.depths(m)),
                    "deg": draw(strat.distances()),
                    "kind": draw(st.sampled_from(["times", "times", "pierce",
                                                  "path"])),
                    "phases": draw(st.lists(strat.phases(m), min_size=1,
                                            max_size=3, unique=True))}
        return case()

    def fixed(self):
        out = []
        for m in ("iasp91", "ak135"):
            for zs in strat.info(m)[0][:-1] + [0.0, 15.0, 500.0, 2500.0]:
                if zs < strat.info(m)[2]:
                    for deg in (2.0, 18.0, 60.0, 150.0):
                        out.append({"model": m, "zs": zs, "deg": deg,
                                    "kind": "times",
                                    "phases": strat.TTALL})
        return out

    def run(self, case):
        w = world(case["model"])
        zs, deg, n = case["zs"], case["deg"], 0
        f = {"times": w.tau.get_travel_times,
             "pierce": w.tau.get_pierce_points,
             "path": w.tau.get_ray_paths}[case["kind"]]
        arr = taup("query of %r from %r km at %r" % (case["phases"], zs, deg),
                   f, zs, deg, case["phases"])
        for a in arr:
            what = "%s from %r km at %r deg (p=%.5f)" % (
                a.name, zs, deg, a.rayParam)
            if a.name.endswith("kmps"):
                continue
            try:
                it = w.itinerary(a.name, zs)
            except NotAPhase:
                continue
            n += 1
            first, last = a.name[0].upper(), None
            for c in a.name:
                if c in "PSps":
                    last = c.upper()
            op = it.ops[0]
            # up or down?
            down = not (op[0] == "X" and op[3] == zs and op[2] < zs)
            if zs == 0:
                down = True
            # a source within 1e-6 km of a boundary counts as on it
            z = min(w.discon, key=lambda b: abs(b - zs))
            z = z if abs(z - zs) < 1e-6 else zs
            v = w.ref.velocity(z, first, "below" if down else "above")
            want = a.rayParam * v / (w.R - z) * (1 if down else -1)
            self.angle(what + ": takeoff", a.takeoffAngle, want)
            if down and not a.takeoffAngle >= 0 or \
                    not down and not a.takeoffAngle <= 0:
                raise Violation("%s: takeoff angle %r of a ray that leaves "
                                "%s" % (what, a.takeoffAngle,
                                        "downwards" if down else "upwards"))
            v0 = w.ref.velocity(0.0, last, "below")
            self.angle(what + ": incident", a.incidentAngle,
                       a.rayParam * v0 / w.R)
            if not 0 <= a.incidentAngle <= 90:
                raise Violation("%s: incident angle %r" % (
                    what, a.incidentAngle))
        return n > 0, "%d arrivals" % n

    def angle(self, what, got, sine):
        if abs(sine) > 1 + 1e-6:
            raise Violation("%s: no angle has the sine %r" % (what, sine))
        sine = max(-1.0, min(1.0, sine))
        if not abs(got) <= 90 or abs(math.sin(got / DEG) - sine) > 1e-7:
            raise Violation("%s angle %r has sine %.9f, Snell's law gives "
                            "%.9f" % (what, got, math.sin(got / DEG), sine))


CHECK = C
