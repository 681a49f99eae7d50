import math
import os

import numpy as np
from hypothesis import strategies as st

import tables
from common import Check, Scratch, Violation, builtin_tvel, taup


def interp(rws, depth, col, side):
    """Value of a column of the table just above or below a depth."""
    segs = [(a, b) for a, b in zip(rws[:-1], rws[1:]) if a[0] < b[0]]
    for a, b in segs:
        if (a[0] < depth <= b[0]) if side == "above" else (
                a[0] <= depth < b[0]):
            f = (depth - a[0]) / (b[0] - a[0])
            return a[col] * (1 - f) + b[col] * f
    return None


def jumps(rws):
    """Depths where P or S jumps (rows of one depth: the first is the value
    above, the last the one below)."""
    out = []
    i = 0
    while i < len(rws):
        j = i
        while j + 1 < len(rws) and rws[j + 1][0] == rws[i][0]:
            j += 1
        if 0 < i and j < len(rws) - 1 and rws[i][1:3] != rws[j][1:3]:
            out.append((rws[i][0], rws[i], rws[j]))
        i = j + 1
    return out


def boundaries(rws):
    """(moho, cmb, iocb): sets of acceptable depths (more than one: ties)."""
    R = rws[-1][0]
    js = jumps(rws)

    def near(depths, x, limit):
        c = [(abs(d - x), d) for d in depths if abs(d - x) < limit]
        m = min(c)[0] if c else None
        return set(d for o, d in c if o <= m + 1e-9) if c else None
    moho = near([j[0] for j in js], 35.0, 65.0) or {0.0}
    cmb = near([j[0] for j in js], 2889.0, R) or {R}
    iocb = near([j[0] for j in js if j[1][2] == 0 and j[2][2] > 0], 5153.9,
                R - 100.0) or {R}
    return moho, cmb, iocb


class C(Check):
    id = "C12"
    quick, thorough = 3000, 100000
    rule = ("a case is a table of a physical model of any planet and a way "
            "of writing it (spacing, comments, blank lines, notation of "
            "numbers, line ends); read and compared at all its depths, next "
            "to them and in between; non-trivial: more than two rows")
    technique = ("property-based testing of the reader against linear "
                 "interpolation in the table the file was written from")

    def fixed(self):
        return [{"file": n, "style": [], "at": [0.1, 0.5, 0.77]}
                for n in ("iasp91", "ak135")]

    def cases(self):
        return st.fixed_dictionaries({
            "rows": tables.valid_rows(),
            "style": st.one_of(st.just([]), st.lists(
                st.integers(0, 100), min_size=3, max_size=30)),
            "name": st.sampled_from(["m.tvel", "a.b.tvel", "iasp91.tvel",
                                     "tvel.tvel", "M 1.tvel", "x.nd.tvel"]),
            "create": st.booleans(),
            "at": st.lists(st.floats(0, 1), min_size=1, max_size=5)})

    def run(self, case):
        from taupy.VelocityModel import VelocityModel
        from taupy.TauP_Create import TauP_Create
        if "file" in case:
            path = builtin_tvel(case["file"])
            rws = [[float(x) for x in l.split("#")[0].split()]
                   for l in open(path).read().splitlines()[2:] if l.strip()]
            what, name = path, os.path.basename(path)
        else:
            rws, name = case["rows"], case["name"]
            path = os.path.join(Scratch.get(), str(os.getpid()))
            if not os.path.isdir(path):
                os.makedirs(path)
            path = os.path.join(path, name)
            txt = tables.text(rws, case["style"])
            with open(path, "w", newline="") as f:
                f.write(txt)
            what = "the file %r" % txt
        if case.get("create"):
            m = taup("reading %s" % what, TauP_Create(path, None).loadVMod)
        else:
            m = taup("reading %s" % what, VelocityModel.readVelocityFile,
                     path)
        R = rws[-1][0]

        def test(label, got, exp, tol=0.0):
            if not abs(got - exp) <= tol:
                raise Violation("%s: %s is %r, the file says %r" % (
                    what, label, got, exp))
        test("radius", m.radiusOfEarth, R)
        test("largest radius", m.maxRadius, R)
        test("smallest radius", m.minRadius, 0.0)
        if m.modelName != name[:-5]:
            raise Violation("%s: model is named %r" % (what, m.modelName))
        depths = sorted(set(r[0] for r in rws))
        at = list(depths) + [f * R for f in case["at"]]
        for d in depths:
            at += [d + e for e in (-1e-6, 1e-6)]
            at += [math.nextafter(d, 0), math.nextafter(d, 1e9)]
        for a, b in zip(depths[:-1], depths[1:]):
            at += [a + f * (b - a) for f in case["at"][:2]]
        for d in at:
            for side, fn in (("above", m.evaluateAbove),
                             ("below", m.evaluateBelow)):
                for col, names in ((1, "pP"), (2, "sS"), (3, "dr")):
                    e = interp(rws, d, col, side)
                    if e is None:
                        continue
                    for k in names:
                        v = taup("%s: %s(%r, %r)" % (
                            what, fn.__name__, d, k), fn, d, k)
                        test("%s %s %r km" % (k, side, d), v, e, 1e-9)
                if side == "above" and 0 < d <= R:
                    k = taup("layerNumberAbove", m.layerNumberAbove, d)
                elif side == "below" and 0 <= d < R:
                    k = taup("layerNumberBelow", m.layerNumberBelow, d)
                else:
                    continue
                t, b = m.depthAtTop(k), m.depthAtBottom(k)
                if not (t < d <= b if side == "above" else t <= d < b):
                    raise Violation("%s: %r km is %s layer %r to %r" % (
                        what, d, side, t, b))
        n = sum(a < b for a, b in zip(depths[:-1], depths[1:]))
        if not (len(m) == m.getNumLayers() == n):
            raise Violation("%s: %d layers, expected %d" % (
                what, len(m), n))
        dd = [0.0] + [j[0] for j in jumps(rws)] + [R]
        if list(m.getDisconDepths()) != dd:
            raise Violation("%s: discontinuities %r, expected %r" % (
                what, m.getDisconDepths(), dd))
        moho, cmb, iocb = boundaries(rws)
        if iocb & cmb:
            iocb = iocb | {R}
        for label, got, exp in (("Moho", m.mohoDepth, moho),
                                ("core-mantle boundary", m.cmbDepth, cmb),
                                ("inner-core boundary", m.iocbDepth, iocb)):
            if got not in exp:
                raise Violation("%s: %s at %r, expected %s" % (
                    what, label, got, sorted(exp)))
        if m.iocbDepth == m.cmbDepth != R:
            raise Violation("%s: core-mantle and inner-core boundary at %r" %
                            (what, m.cmbDepth))
        if m.mohoDepth <= m.cmbDepth <= m.iocbDepth and not taup(
                "%s: validate()" % what, m.validate):
            raise Violation("%s: is said to be invalid" % what)
        return len(rws) > 2, "%d rows" % len(rws)


CHECK = C
