import math

from hypothesis import strategies as st

import strat
from common import DEG, Check, Skip, Violation, quiet, taup, world


def angle(a, b, c, d):
    """Angle in degrees between two points, accurate for all angles."""
    a, b, c, d = (math.radians(x) for x in (a, b, c, d))
    u = (math.cos(a) * math.cos(b), math.cos(a) * math.sin(b), math.sin(a))
    v = (math.cos(c) * math.cos(d), math.cos(c) * math.sin(d), math.sin(c))
    cr = (u[1] * v[2] - u[2] * v[1], u[2] * v[0] - u[0] * v[2],
          u[0] * v[1] - u[1] * v[0])
    return math.degrees(math.atan2(math.sqrt(sum(x * x for x in cr)),
                                   sum(x * y for x, y in zip(u, v))))


class C(Check):
    id = "C20"
    quick, thorough = 1500, 60000
    models = ("iasp91",)
    rule = ("a case is two points (any, equal, antipodal, polar, on the date "
            "line, nearly equal), a source depth, phases and a change of the "
            "coordinates (swap, other longitude branch, rotation, mirroring, "
            "missing values); arrivals are compared with those of the "
            "independently computed angle; non-trivial: the query has "
            "arrivals or has to be refused")
    technique = ("metamorphic and differential property-based testing of "
                 "coordinates")

    def cases(self):
        lat = st.one_of(st.floats(-90, 90), st.integers(-90, 90).map(float),
                        st.sampled_from([90.0, -90.0, 0.0, 45.0, 89.999999]))
        lon = st.one_of(st.floats(-180, 180), st.floats(-400, 760),
                        st.integers(-180, 360).map(float),
                        st.sampled_from([180.0, -180.0, 0.0, 179.999999,
                                         -179.999999, 360.0]))

        @st.composite
        def case(draw):
            a, b = draw(lat), draw(lon)
            k = draw(st.integers(0, 6))
            if k == 0:
                c, d = a, b + draw(st.sampled_from([0.0, 360.0, -360.0]))
            elif k == 1:
                c, d = -a, b + draw(st.sampled_from([180.0, -180.0, 540.0]))
            elif k == 2:
                e = draw(st.sampled_from([1e-9, 1e-6, 1e-3, 0.1]))
                c, d = max(-90.0, min(90.0, a + e)), b + e
            else:
                c, d = draw(lat), draw(lon)
            return {"at": [a, b, c, d],
                    "how": draw(st.sampled_from(
                        ["none", "swap", "branch", "rotate", "mirror",
                         "flip", "missing", "nothing", "both", "tuple"])),
                    "x": draw(st.floats(-360, 360)),
                    "k": draw(st.integers(0, 15)),
                    "zs": draw(strat.depths("iasp91")),
                    "method": draw(st.sampled_from(
                        ["get_travel_times", "get_travel_times",
                         "get_pierce_points", "get_ray_paths"])),
                    "phases": draw(st.lists(strat.phases("iasp91"),
                                            min_size=1, max_size=3))}
        return case()

    def run(self, case):
        w = world("iasp91")
        zs, ph, how = case["zs"], case["phases"], case["how"]
        if not 0 <= zs < w.cmb:
            raise Skip("outside of the domain")
        c = list(case["at"])
        fn = getattr(w.tau, case["method"])
        if how in ("missing", "nothing"):
            if how == "missing":
                m = case["k"] % 15 + 1
                c = [None if m >> i & 1 else x for i, x in enumerate(c)]
                kw = {"coordinate_list": c}
            else:
                kw = {} if case["k"] % 2 else {"coordinate_list": None}
            try:
                with quiet():
                    r = fn(zs, phase_list=ph, **kw)
            except Exception:
                return True, "refused"
            raise Violation("%s with %r and no distance is answered: %r" % (
                case["method"], kw, r))
        x, k = case["x"], case["k"]
        if how == "swap":
            c = [c[2], c[3], c[0], c[1]]
        elif how == "branch":
            c[1] += 360.0 * (k % 5 - 2)
            c[3] += 360.0 * (k // 5 - 1)
        elif how == "rotate":
            c[1] += x
            c[3] += x
        elif how == "mirror":
            c[0], c[2] = -c[0], -c[2]
        elif how == "flip":
            c[1], c[3] = -c[1], -c[3]
        deg = angle(*case["at"])
        deg = min(max(deg, 0.0), 180.0)
        kw = {"coordinate_list": tuple(c) if how == "tuple" else c}
        if how == "both":
            deg = abs(x) / 2
            kw["distance_in_degree"] = deg
        what = "%s(%r, %r) with coordinates %r" % (
            case["method"], zs, ph, c)
        got = taup(what, fn, zs, phase_list=ph, **kw)
        # accuracy of the cosine formula near to 0 and 180 degrees
        err = max(1e-9, min(3e-6, 2e-13 / max(math.sin(deg / DEG), 1e-9)))
        far = [deg]
        for a in got:
            m = a.dist * DEG % 360.0
            m = 360.0 - m if m > 180 else m
            if abs(m - deg) > err:
                raise Violation("%s: %s arrives at %.9f deg, the points are "
                                "%.9f deg apart" % (what, a.name, m, deg))
        if 0.001 < deg < 179.999:
            ref = taup("%s at %r deg" % (ph, deg), fn, zs, deg, ph)
            ka = sorted((a.name, a.time, a.dist, a.rayParam) for a in got)
            kb = sorted((a.name, a.time, a.dist, a.rayParam) for a in ref)
            if [x[0] for x in ka] != [x[0] for x in kb]:
                # an end of a branch may lie in between
                near = [len(taup("", fn, zs, d, ph)) for d in
                        (deg - 2 * err, deg + 2 * err)]
                if near[0] == near[1] == len(kb):
                    raise Violation("%s: arrivals %s, but %s at %r deg" % (
                        what, ka, kb, deg))
            else:
                for u, v in zip(ka, kb):
                    if abs(u[1] - v[1]) > 2000 * err + 1e-9 * v[1]:
                        raise Violation("%s: arrival %s, but %s at %r deg" % (
                            what, u, v, deg))
        return len(got) > 0, "%.6f deg, %d arrivals" % (deg, len(got))


CHECK = C
