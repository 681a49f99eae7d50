import math

from hypothesis import strategies as st

import strat
from c03 import same
from common import DEG, Check, Skip, Violation, taup, world


class C(Check):
    id = "C19"
    quick, thorough = 1500, 60000
    rule = ("a case is a model, a velocity written in some notation, a "
            "distance (also negative and beyond 360 degrees), a depth and "
            "other phases; time, distance, ray parameter, pierce points and "
            "path are compared with the motion along the surface; "
            "non-trivial: every case that is not skipped (the two directions are told apart)")
    technique = "property-based testing against the closed-form solution"

    def cases(self):
        v = st.one_of(
            st.floats(1e-3, 1e4).map(repr),
            st.integers(1, 100).map(str),
            st.integers(1, 100).map(lambda x: "%d." % x),
            st.floats(0.5, 9).map(lambda x: "%.2f" % x),
            st.floats(0.5, 9).map(lambda x: "0%.1f" % x),
            st.floats(0.5, 9).map(lambda x: "%.3e" % x),
            st.sampled_from([".5", "1e3", "1e-2", "1E1"]))

        @st.composite
        def case(draw):
            m = draw(strat.models(self))
            return {"model": m, "zs": draw(st.one_of(
                        st.just(0.0), strat.depths(m))),
                    "v": draw(v), "deg": draw(st.one_of(
                        strat.distances(), strat.distances(),
                        st.floats(-720, 1500).map(lambda x: round(x, 3)),
                        st.integers(-4, 8).map(lambda i: i * 180.0))),
                    "more": draw(st.lists(strat.phases(m), max_size=2)),
                    "last": draw(st.booleans())}
        return case()

    def fixed(self):
        return [{"model": "iasp91", "zs": zs, "v": v, "deg": deg,
                 "more": more, "last": True}
                for deg in (0.0, 180.0, 360.0, -180.0, 540.0, 720.0, 0, 1e-6,
                            179.999)
                for zs, v, more in ((0.0, "2", []), (100.0, "3.5", ["P"]))]

    def run(self, case):
        w = world(case["model"])
        zs, deg = case["zs"], case["deg"]
        if not 0 <= zs < w.cmb:
            raise Skip("outside of the domain")
        name, v = case["v"] + "kmps", float(case["v"])
        q = case["more"] + [name] if case["last"] else [name] + case["more"]
        what = "%s over %r deg from %r km" % (name, deg, zs)
        x = abs(deg) % 360.0
        if 0 < min(x, abs(x - 180), 360 - x) < 1e-9:
            raise Skip("arrivals of both directions nearly coincide")
        x = min(x, 360 - x) / DEG
        # once half around both directions are one
        exp = [math.pi] if x == 180 / DEG else [x, 2 * math.pi - x]
        for m in ("get_travel_times", "get_pierce_points", "get_ray_paths"):
            arr = taup("%s: %s" % (m, what), getattr(w.tau, m), zs, deg, q)
            if case["more"]:
                rest = taup("%s" % m, getattr(w.tau, m), zs, deg,
                            case["more"])
                if not same([a for a in arr if a.name != name], rest):
                    raise Violation("%s: %s changes the arrivals of %r" % (
                        m, what, case["more"]))
            got = sorted((a for a in arr if a.name == name),
                         key=lambda a: a.dist)
            if len(got) != len(exp):
                raise Violation("%s: %s: %d arrivals: %s" % (
                    m, what, len(got), [(a.time, a.dist * DEG)
                                        for a in got]))
            for a, d in zip(got, exp):
                t, p = d * w.R / v, w.R / v
                if abs(a.dist - d) > 1e-9 or abs(a.time - t) > 1e-9 * t + \
                        1e-9 * p or abs(a.rayParam - p) > 1e-9 * p or \
                        a.puristName != name or a.takeoffAngle != 0 or \
                        a.incidentAngle != 0:
                    raise Violation(
                        "%s: %s: arrival %r s %r deg p=%r %s angles %r %r, "
                        "expected %r s %r deg p=%r" % (
                            m, what, a.time, a.dist * DEG, a.rayParam,
                            a.puristName, a.takeoffAngle, a.incidentAngle,
                            t, d * DEG, p))
                pts = {"get_pierce_points": a.pierce,
                       "get_ray_paths": a.path}.get(m)
                if pts is None:
                    continue
                f, l = (pts[0], pts[-1]) if pts else (None, None)
                if len(pts) < 2 or f.time != 0 or f.distRadian != 0 or \
                        abs(f.depth - zs) > 2e-6 or l.depth != 0 or \
                        abs(l.time - t) > 1e-9 * t + 1e-9 or \
                        abs(l.distRadian - d) > 1e-9:
                    raise Violation("%s: %s: points %s" % (m, what, [
                        (u.depth, u.time, u.distRadian) for u in pts]))
                for u in pts[1:]:
                    if u.depth != 0 or abs(u.time - u.distRadian * p) > \
                            1e-9 * t + 1e-9:
                        raise Violation("%s: %s: points %s" % (m, what, [
                            (u.depth, u.time, u.distRadian) for u in pts]))
        return True, "%d arrivals" % len(got)


CHECK = C
