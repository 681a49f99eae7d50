import math
import re

from hypothesis import strategies as st

import strat
from c03 import same
from common import DEG, Check, Skip, Violation, quiet, taup, world

NUM = r"(-?\d+\.(\d+)|-?inf|nan)"
MODES = ["", "", "", "onlyTurnPoints", "onlyRevPoints", "onlyUnderPoints",
         "onlyAddPoints"]


def near(what, col, text, value, digits):
    """A printed number against the value, to the printed precision."""
    m = re.match(r"^-?\d+\.(\d+)$", text)
    if not m or len(m.group(1)) < digits:
        raise Violation("%s: %s is printed as %r (the value is %r)" % (
            what, col, text, value))
    if abs(float(text) - value) > 0.5001 * 10 ** -len(m.group(1)) + \
            1e-12 * abs(value):
        raise Violation("%s: %s is printed as %s, the value is %r" % (
            what, col, text, value))


def folded(a):
    x = a.dist * DEG % 360.0
    return 360.0 - x if x > 180 else x


class C(Check):
    id = "C21"
    quick, thorough = 1500, 40000
    rule = ("a case is a model, a depth, a distance or coordinates, a list of "
            "phases and one of the three queries with printing on (pierce "
            "points also restricted to turning, reversing, underside or "
            "added points); the text is parsed and compared with the "
            "arrivals; non-trivial: at least one arrival was printed")
    technique = ("round-trip property-based testing: the printed tables are "
                 "parsed and compared with the arrivals")

    def cases(self):
        @st.composite
        def case(draw):
            m = draw(strat.models(self, 2))
            ph = st.one_of(strat.phases(m), strat.phases(m), st.sampled_from(
                ["ttall", "ttp", "tts+", "2kmps", "4.5kmps", "Pdiff", "Pn",
                 "P410s", "PP", "SKSSKS", "ScSScSScS", "PKKKKP", "Qx",
                 "P^660P"]))
            ps = draw(st.lists(ph, min_size=1, max_size=4, unique=True))
            if draw(st.integers(0, 9)) == 0:
                ps = None
            pos = None
            if draw(st.integers(0, 5)) == 0:
                lat, lon = st.floats(-90, 90), st.floats(-180, 360)
                pos = [round(draw(x), 2) for x in (lat, lon, lat, lon)]
            return {"model": m, "zs": draw(st.one_of(
                        strat.depths(m), st.integers(0, 700))),
                    "kind": draw(st.sampled_from(["times", "pierce", "path",
                                                  "pierce"])),
                    "deg": draw(st.one_of(
                        strat.distances(), st.sampled_from(
                            [0.0, 180.0, 360.0, 0, 90, 200.0, -40.0, 500.0]))),
                    "pos": pos, "phases": ps,
                    "mode": draw(st.sampled_from(MODES)),
                    "add": draw(st.lists(st.integers(1, 2800).map(float),
                                         max_size=2, unique=True))}
        return case()

    def run(self, case):
        w = world(case["model"])
        zs, deg, names, kind = (case[k] for k in (
            "zs", "deg", "phases", "kind"))
        if not 0 <= zs < w.cmb:
            raise Skip("outside of the domain")
        pos = case["pos"]
        if pos:
            deg = None
        fn = {"times": w.tau.get_travel_times,
              "pierce": w.tau.get_pierce_points,
              "path": w.tau.get_ray_paths}[kind]
        what = "%s for %r from %r km at %r deg" % (
            kind, names, zs, pos if pos else deg)
        arr = taup(what, fn, zs, deg, names, coordinate_list=pos)
        if str(arr).split(None, 1)[0] != str(len(arr)) or \
                len(str(arr).strip().split("\n")) != max(len(arr) + 1, 1):
            raise Violation("%s: str() of %d arrivals is %r" % (
                what, len(arr), str(arr)[:200]))
        if kind == "pierce" and case["mode"]:
            return self.some_points(what, w, case, arr)
        out = [""]

        def shown():
            with quiet() as o:
                r = fn(zs, deg, names, coordinate_list=pos, print_output=True)
            out[0] = o.getvalue()
            return r
        taup("printing " + what, shown)
        lines = out[0].split("\n")
        if kind == "times":
            self.times(what, w, zs, arr, lines)
        else:
            got = self.blocks(what, lines)
            if len(got) != len(arr):
                raise Violation("%s: %d arrivals are printed, there are %d" % (
                    what, len(got), len(arr)))
            for a, (head, rows) in zip(arr, got):
                self.head(what, w, zs, a, head)
                if kind == "pierce":
                    self.points(what, a, a.pierce, rows)
                else:
                    self.path(what, w, a, rows)
        return len(arr) > 0, "%d arrivals" % len(arr)

    def times(self, what, w, zs, arr, lines):
        top = [i for i, l in enumerate(lines) if l.startswith("Model:")]
        if len(top) != 1:
            raise Violation("%s: no title" % what)
        if lines[top[0]].split(":", 1)[1].strip() != \
                w.tmod.sMod.vMod.modelName:
            raise Violation("%s: the title is %r" % (what, lines[top[0]]))
        rule = [i for i, l in enumerate(lines) if re.match(r"^-{20,}$", l)]
        if len(rule) != 1 or rule[0] < top[0]:
            raise Violation("%s: no header" % what)
        rows = [l for l in lines[rule[0] + 1:] if l.strip()]
        if len(rows) != len(arr):
            raise Violation("%s: %d arrivals are printed, there are %d" % (
                what, len(rows), len(arr)))
        for a, l in zip(arr, rows):
            x = l.split()
            at = "%s, line %r" % (what, l)
            if len(x) != 10 or x[8] not in "=*":
                raise Violation("%s: not 10 columns" % at)
            if x[2] != a.name or x[9] != a.puristName:
                raise Violation("%s: names %s and %s" % (
                    at, a.name, a.puristName))
            if (x[8] == "=") != (a.name == a.puristName):
                raise Violation("%s: purist name marked %s" % (at, x[8]))
            near(at, "distance", x[0], folded(a), 2)
            near(at, "distance", x[0], a.getModuloDistDeg(), 2)
            near(at, "depth", x[1], zs, 1)
            near(at, "time", x[3], a.time, 2)
            near(at, "ray parameter", x[4], a.rayParam / DEG, 3)
            near(at, "takeoff angle", x[5], a.takeoffAngle, 2)
            near(at, "incident angle", x[6], a.incidentAngle, 2)
            near(at, "purist distance", x[7], a.dist * DEG, 2)

    @staticmethod
    def blocks(what, lines):
        out = []
        for l in lines:
            if l.startswith(">"):
                out.append((l, []))
            elif out and l.strip():
                try:
                    [float(x) for x in l.split()]
                except ValueError:
                    raise Violation("%s: line %r" % (what, l))
                out[-1][1].append(l.split())
        return out

    def head(self, what, w, zs, a, line):
        m = re.match(r"^> (\S+) at +(\S+) seconds at +(\S+) degrees for an? +"
                     r"(\S+) km deep source in the +(.*) model with rayParam "
                     r"(\S+) s/deg\.$", line)
        at = "%s, line %r" % (what, line)
        if not m:
            raise Violation("%s is not understood" % at)
        name = a.name
        if a.puristName != a.name:
            name += "(%s)" % a.puristName
        if m.group(1) != name:
            raise Violation("%s: the phase is %s" % (at, name))
        near(at, "time", m.group(2), a.time, 2)
        near(at, "distance", m.group(3), a.dist * DEG, 2)
        if abs(float(m.group(4)) - zs) > 1e-6:
            raise Violation("%s: the depth is %r" % (at, zs))
        near(at, "ray parameter", m.group(6), a.rayParam / DEG, 3)
        if m.group(5) != w.tmod.sMod.vMod.modelName:
            raise Violation("%s: the model is %r" % (
                at, w.tmod.sMod.vMod.modelName))

    def points(self, what, a, pts, rows):
        if len(pts) != len(rows):
            raise Violation("%s, %s: %d points are printed, there are %d" % (
                what, a.name, len(rows), len(pts)))
        long_way = a.dist * DEG % 360.0 > 180
        for t, x in zip(pts, rows):
            at = "%s, %s, line %s" % (what, a.name, " ".join(x))
            if len(x) != 3:
                raise Violation("%s: not 3 columns" % at)
            d = t.distRadian * DEG
            near(at, "distance", x[0], -d if long_way else d, 2)
            near(at, "depth", x[1], t.depth, 1)
            near(at, "time", x[2], t.time, 1)

    def some_points(self, what, w, case, arr):
        from taupy.TauP_Pierce import TauP_Pierce
        mode, zs = case["mode"], case["zs"]
        add = [d for d in case["add"]
               if min(abs(d - b) for b in w.discon + [zs]) > .5]
        what += ", " + mode
        if mode != "onlyAddPoints":
            add = []
        deg = case["deg"]
        if case["pos"]:
            deg = None
        out = [""]

        def shown():
            t = TauP_Pierce(w.tmod, ["ttall"] if case["phases"] is None
                            else case["phases"], zs, deg, case["pos"])
            t.addDepth = list(add)
            setattr(t, mode, True)
            with quiet() as o:
                t.run(True)
            out[0] = o.getvalue()
            return t.arrivals
        arr = taup("printing " + what, shown)
        got = self.blocks(what, out[0].split("\n"))
        if len(got) != len(arr):
            raise Violation("%s: %d arrivals are printed, there are %d" % (
                what, len(got), len(arr)))
        n = 0
        for a, (head, rows) in zip(arr, got):
            self.head(what, w, zs, a, head)
            pts = a.pierce
            k = 0
            for j, t in enumerate(pts):
                if mode == "onlyAddPoints":
                    need = ok = t.depth in add
                elif 0 < j < len(pts) - 1:
                    x, y = t.depth - pts[j - 1].depth, \
                        pts[j + 1].depth - t.depth
                    turn, under = x > 0 > y, x < 0 < y
                    need = ok = {"onlyTurnPoints": turn,
                                 "onlyUnderPoints": under,
                                 "onlyRevPoints": turn or under}[mode]
                    if x == 0 or y == 0:
                        need, ok = False, True
                else:
                    need, ok = False, True      # ends: not laid down
                hit = k < len(rows) and len(rows[k]) == 3 and abs(
                    abs(float(rows[k][0])) - t.distRadian * DEG) < 0.0051 \
                    and abs(float(rows[k][1]) - t.depth) < 0.051 and abs(
                        float(rows[k][2]) - t.time) < 0.051
                if need and not hit:
                    raise Violation(
                        "%s, %s: the point at %.2f deg %.1f km is missing "
                        "among %s" % (what, a.name, t.distRadian * DEG,
                                      t.depth, rows))
                if hit and ok:
                    k += 1
                    n += need
            if k != len(rows):
                raise Violation("%s, %s: line %s is no such point, points "
                                "%s" % (what, a.name, " ".join(rows[k]), [
                                    (round(t.distRadian * DEG, 2),
                                     round(t.depth, 1)) for t in pts]))
        return n > 0, "%d points" % n

    def path(self, what, w, a, rows):
        long_way = a.dist * DEG % 360.0 > 180
        pts = []
        for t in a.path:
            d = t.distRadian * DEG
            pts.append((-d if long_way else d, w.R - t.depth))
        j = 0
        prev = None
        for x in rows:
            at = "%s, %s, line %s" % (what, a.name, " ".join(x))
            if len(x) != 2:
                raise Violation("%s: not 2 columns" % at)
            d, r = float(x[0]), float(x[1])
            if min(len(v.split(".")[-1]) for v in x) < 1 or \
                    len(x[0].split(".")[-1]) < 2:
                raise Violation("%s: too few digits" % at)
            if prev is not None and a.rayParam > 0 and \
                    abs(d - prev) > 1.0101:
                raise Violation("%s: more than one degree after %r" % (
                    at, prev))
            prev = d
            if j < len(pts) and abs(d - pts[j][0]) < 0.00501 and \
                    abs(r - pts[j][1]) < 0.0501:
                j += 1
                continue
            if 0 < j < len(pts):
                (d0, r0), (d1, r1) = pts[j - 1], pts[j]
                if min(d0, d1) - .0051 <= d <= max(d0, d1) + .0051 and \
                        min(r0, r1) - .051 <= r <= max(r0, r1) + .051:
                    f = (d - d0) / (d1 - d0) if d1 != d0 else 0.0
                    e = abs(r - (r0 + f * (r1 - r0)))
                    if e <= 0.051 + abs(r1 - r0) * 0.0051 / max(
                            abs(d1 - d0), 0.0051):
                        continue
            raise Violation("%s is neither point %s of the path nor between "
                            "it and the one before" % (
                                at, pts[j] if j < len(pts) else "(none)"))
        if j != len(pts):
            raise Violation("%s, %s: point %s of the path is not printed" % (
                what, a.name, pts[j]))


CHECK = C
