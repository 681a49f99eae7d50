import math

from hypothesis import strategies as st

import oracle
import strat
from common import DEG, Check, Violation, taup, world


def key(a):
    return (a.name, a.puristName, a.time, a.rayParam, a.dist, a.takeoffAngle,
            a.incidentAngle, a.sourceDepth)


def close(x, y, tol=1e-8):
    for u, v in zip(x, y):
        if isinstance(u, str):
            if u != v:
                return False
        elif not abs(u - v) <= tol * max(1.0, abs(u), abs(v)):
            return False
    return True


def same(la, lb, tol=1e-8):
    la, lb = sorted(map(key, la)), sorted(map(key, lb))
    if len(la) != len(lb):
        return False
    if all(close(x, y, tol) for x, y in zip(la, lb)):
        return True
    # rounding may swap neighbours
    rest = list(lb)
    for x in la:
        for i, y in enumerate(rest):
            if close(x, y, tol):
                del rest[i]
                break
        else:
            return False
    return True


def crossings(ph, target):
    """Expected (time, rayParam) of a tabulated curve at a distance."""
    d, t, p = list(ph.dist), list(ph.time), list(ph.rayParams)
    out = []
    for i in range(len(d) - 1):
        if p[i] == p[i + 1] and len(p) > 2:
            continue
        if (d[i] < target < d[i + 1]) or (d[i] > target > d[i + 1]):
            f = (target - d[i]) / (d[i + 1] - d[i])
            out.append((t[i] + f * (t[i + 1] - t[i]),
                        p[i] + f * (p[i + 1] - p[i])))
    return out


class C(Check):
    id = "C03"
    quick, thorough = 400, 20000
    rule = ("a case is a model, source depth, phases, a distance d (a "
            "multiple of 1/1024 degree in 0..180) and numbers of turns; the "
            "arrivals of d are compared with those of -d, 360-d, 360k+d, "
            "360k-d, and with the crossings of the phase's tabulated curve; "
            "non-trivial: there are arrivals")
    technique = "metamorphic property-based testing of equivalent distances"

    def cases(self):
        deg = st.one_of(
            st.integers(0, 180 * 1024).map(lambda i: i / 1024.0),
            st.integers(0, 180).map(float),
            st.sampled_from([0.0, 180.0, 1 / 1024., 180 - 1 / 1024., 90.0]))
        long_ = ["PKKKKP", "SKKKKS", "PKIKPPKIKPPKIKP", "SSSS", "PPPPP",
                 "PKIKPPKIKP", "ScSScSScS", "SKSSKS", "SKIKSSKIKS", "SSS",
                 "PKPPKPPKP"]

        @st.composite
        def case(draw):
            m = draw(strat.models(self, 2))
            return {"model": m, "zs": draw(strat.depths(m)),
                    "deg": draw(deg), "k": draw(st.integers(1, 6)),
                    "phases": draw(st.lists(st.one_of(
                        strat.phases(m), strat.phases(m),
                        st.sampled_from(long_)), min_size=1, max_size=3,
                        unique=True))}
        return case()

    def fixed(self):
        out = []
        for deg in (0.0, 180.0, 0.5, 60.0, 179.75, 135.0):
            for zs in (0.0, 100.0):
                out.append({"model": "iasp91", "zs": zs, "deg": deg, "k": 3,
                            "phases": ["PKIKPPKIKPPKIKP", "SKKKKS", "PcP",
                                       "PKIKP", "SSS", "PKKKKP"]})
        return out

    def run(self, case):
        w = world(case["model"])
        zs, d, k, phs = case["zs"], case["deg"], case["k"], case["phases"]

        def q(x):
            return taup("get_travel_times(%r, %r, %r)" % (zs, x, phs),
                        w.tau.get_travel_times, zs, x, phs)
        base = q(d)
        for x in (-d, 360.0 - d, 360.0 * k + d, 360.0 * k - d,
                  -(360.0 * k + d), d - 360.0 * k):
            r = q(x)
            if not same(base, r):
                raise Violation(
                    "%s from %r km: distance %r gives %s but %r gives %s" % (
                        phs, zs, d, [(a.name, round(a.time, 4))
                                     for a in base][:8], x,
                        [(a.name, round(a.time, 4)) for a in r][:8]))
        # every ray once
        for i, a in enumerate(base):
            for b in base[:i]:
                if a.name == b.name and close(key(a)[2:5], key(b)[2:5],
                                              1e-12):
                    raise Violation("%s from %r km at %r deg: the ray of %r "
                                    "s over %r deg is reported twice" % (
                                        a.name, zs, d, a.time,
                                        math.degrees(a.dist)))
        for a in base:
            x = math.degrees(a.dist)
            y = x % 360.0
            if min(abs(y - d), abs(y - (360 - d)), abs(y - d - 360),
                   abs(y - d + 360)) > 1e-9 * max(1, x):
                raise Violation("%s: distance %r has an arrival over %r" % (
                    a.name, d, x))
            if abs(a.getModuloDistDeg() - d) > 1e-7:
                raise Violation("%s at %r: modulo distance %r" % (
                    a.name, d, a.getModuloDistDeg()))
            for nm, v in (("purist_distance", a.purist_distance),
                          ("getDistDeg", a.getDistDeg())):
                if abs(v - x) > 1e-9 * max(1, x):
                    raise Violation("%s at %r: %s is %r, distance %r" % (
                        a.name, d, nm, v, x))
            if abs(a.rayParam_sec_degree - a.rayParam * math.pi / 180) > \
                    1e-9 * max(1, abs(a.rayParam)):
                raise Violation("%s at %r: ray parameter in s/deg %r, in "
                                "s/rad %r" % (a.name, d,
                                              a.rayParam_sec_degree,
                                              a.rayParam))
            if a.time < 0 or a.dist < 0:
                raise Violation("%s at %r: negative time or distance" % (
                    a.name, d))
        # the tabulated curve
        if 0 < d < 180:
            from taupy.SeismicPhase import SeismicPhase
            from taupy.helper_classes import TauModelError
            tm = w.depth_corrected(zs)
            for name in phs:
                try:
                    ph = SeismicPhase(name, tm)
                except TauModelError:
                    continue
                if name.endswith("kmps") or len(ph.dist) == 0:
                    continue
                mine = [a for a in base if a.name == name]
                want = []
                for t in oracle.targets(d, max(ph.dist)):
                    if min(abs(t - x) for x in ph.dist) < 1e-9:
                        break
                    want += [(t,) + c for c in crossings(ph, t)]
                else:
                    got = sorted((a.dist, a.time, a.rayParam) for a in mine)
                    want.sort()
                    if len(got) != len(want) or not all(
                            close(x, y, 1e-7) for x, y in zip(got, want)):
                        raise Violation(
                            "%s from %r km at %r deg: arrivals %s, crossings "
                            "of its curve %s" % (name, zs, d, got[:4],
                                                 want[:4]))
        return len(base) > 0, "%d arrivals" % len(base)


CHECK = C
