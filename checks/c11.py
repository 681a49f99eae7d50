import re

from hypothesis import strategies as st

import strat
from c03 import close, same
from common import Check, Skip, Violation, taup, world

NUM = re.compile(r"\d+\.?\d*|\.\d+")
LETTERS = [("P^mP", "P^%sP", "m"), ("S^mS", "S^%sS", "m"),
           ("Pvmp", "Pv%sp", "m"), ("Pms", "P%ss", "m"),
           ("Smp", "S%sp", "m"), ("PvmS", "Pv%sS", "m"),
           ("PmS", "P%sS", "m"), ("p^mP", "p^%sP", "m"),
           ("P^cP", "P^%sP", "c"), ("SvcS", "Sv%sS", "c"),
           ("PvcP", "Pv%sP", "c"), ("PKP^mPKP", "PKP^%sPKP", "m")]


class C(Check):
    id = "C11"
    quick, thorough = 500, 20000
    rule = ("a case is a model, source depth, distance and a phase with one "
            "or two discontinuity depths in its name; the numbers are "
            "replaced by others that are closest to the same discontinuity "
            "and by the exact depth, or a letter m, c by the depth it means; "
            "non-trivial: there are arrivals")
    technique = "metamorphic property-based testing of discontinuity names"

    def cases(self):
        @st.composite
        def case(draw):
            m = draw(strat.models(self, 2))
            d, moho, cmb, iocb, R, rowd = strat.info(m)
            zs = draw(strat.depths(m))
            deg = draw(strat.distances())
            if draw(st.integers(0, 4)) == 0:
                return {"model": m, "zs": zs, "deg": deg,
                        "letter": list(draw(st.sampled_from(LETTERS))),
                        "phase": None, "to": None}
            t = draw(st.sampled_from(strat.NUMBERED + [
                "P^%sP^%sP", "S%spv%sP", "PP^%sP^%sP", "Pv%sp^%sP",
                "P%sS^%sS", "P^%sP%ss", "Pv%sP%ss"]))
            nums, alt = [], []
            for _ in range(t.count("%s")):
                z = draw(st.sampled_from([x for x in d if x < cmb + 1]))
                k = sorted([0.0] + d + [R])
                i = k.index(z)
                lo, hi = (k[i - 1] + z) / 2, (z + k[i + 1]) / 2
                x = draw(st.floats(0.01, 0.99).map(
                    lambda f: lo + f * (hi - lo)))
                form = draw(st.sampled_from(["%d", "%.1f", "%.3f", "%r",
                                             "%04d", "%d."]))
                s = form % x
                if not lo + 1e-6 < float(s) < hi - 1e-6:
                    s = "%r" % x
                nums.append(s if "e" not in s else "%r" % z)
                alt.append("%r" % z)
            return {"model": m, "zs": zs, "deg": deg, "letter": None,
                    "phase": t % tuple(nums), "to": t % tuple(alt)}
        return case()

    def run(self, case):
        w = world(case["model"])
        zs, deg = case["zs"], case["deg"]
        if case["letter"]:
            a, b, c = case["letter"]
            depth = {"m": w.moho, "c": w.cmb, "i": w.iocb}[c]
            if c == "m" and not depth:
                raise Skip("no Moho")
            b = b % repr(depth)
        else:
            a, b, c = case["phase"], case["to"], None
        q = lambda n: taup("get_travel_times(%r, %r, [%r])" % (zs, deg, n),
                           w.tau.get_travel_times, zs, deg, [n])
        ra, rb = q(a), q(b)
        ka = sorted((x.time, x.rayParam, x.dist, x.takeoffAngle,
                     x.incidentAngle) for x in ra)
        kb = sorted((x.time, x.rayParam, x.dist, x.takeoffAngle,
                     x.incidentAngle) for x in rb)
        if len(ka) != len(kb) or not all(close(x, y, 1e-9)
                                         for x, y in zip(ka, kb)):
            raise Violation(
                "%s and %s mean the same boundary, but from %r km at %r deg "
                "they have the arrivals %s and %s" % (
                    a, b, zs, deg, [round(x[0], 3) for x in ka],
                    [round(x[0], 3) for x in kb]))
        for name, res in ((a, ra), (b, rb)):
            for x in res:
                if x.name != name:
                    raise Violation("%s is named %r" % (name, x.name))
                self.purist(w, name, x.puristName, c if name == a else None)
        # a phase without numbers is its own purist name
        plain = q("P")
        for x in plain:
            if x.puristName != "P":
                raise Violation("the purist name of P is %r" % x.puristName)
        return len(ra) > 0, "%s: %d arrivals, purist name %s" % (
            a, len(ra), ra[0].puristName if ra else None)

    def purist(self, w, name, purist, letter):
        """Every number (and every ^m, vc ...) becomes the real depth."""
        parts = re.split(r"(\d+\.?\d*|\.\d+|(?<=[\^v])[mci])", name)
        pos = 0
        for k, part in enumerate(parts):
            if k % 2 == 0:
                if purist[pos:pos + len(part)] != part:
                    raise Violation("purist name of %s is %r" % (name,
                                                                 purist))
                pos += len(part)
                continue
            m = NUM.match(purist, pos)
            if m is None:
                raise Violation("purist name of %s is %r" % (name, purist))
            pos = m.end()
            if part in "mci":
                want = {"m": w.moho, "c": w.cmb, "i": w.iocb}[part]
            else:
                want = min(w.discon, key=lambda b: abs(b - float(part)))
            if abs(float(m.group()) - want) > 1e-6:
                raise Violation("purist name of %s is %r; the boundary is "
                                "at %r km" % (name, purist, want))
        if pos != len(purist):
            raise Violation("purist name of %s is %r" % (name, purist))


CHECK = C
