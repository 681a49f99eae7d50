import copy
import os

from hypothesis import strategies as st

import strat
import tables
from common import Check, PARAMS, Scratch, Violation, gen_rows, quiet, taup

# what is wrong with the file
FILE = ["decrease", "swap", "start", "negdepth", "pzero", "pneg", "pfade",
        "sneg", "sfade", "srise", "fast", "missing", "excess", "word", "nan",
        "inf", "nandepth", "type", "absent", "empty", "header", "one"]
# what is wrong with the velocity model
OBJECT = ["gap", "overlap", "zero", "order", "pzero", "pneg", "pfade", "sneg",
          "sfade", "srise", "radius", "bigger", "moho", "cmb", "iocb",
          "minradius", "maxradius", "nan", "flat", "nolayers", "fluidtop"]


class C(Check):
    id = "C13"
    quick, thorough = 2500, 60000
    rule = ("a case is a generated planet and one defect at a place in its "
            "file or its velocity model, or no defect at all; non-trivial: "
            "all of them")
    technique = ("property-based testing by fault injection into valid "
                 "models")

    def cases(self):
        f = st.floats(0, 1).map(lambda x: round(x, 3))
        kind = st.sampled_from((["file " + k for k in FILE] + [
            "model " + k for k in OBJECT]) * 2 + ["none"] * 5)
        return st.fixed_dictionaries({
            "model": st.integers(0, 40).map(
                lambda k: strat.gen_desc("C13-%d" % k, par="coarse")),
            "kind": kind, "at": f, "x": f,
            "style": st.one_of(st.just([]), st.lists(
                st.integers(0, 100), min_size=3, max_size=12)),
            "via": st.sampled_from(["create", "create", "build", "command"])})

    def run(self, case):
        rws = [list(r) for r in gen_rows(case["model"])]
        where, _, kind = case["kind"].partition(" ")
        d = os.path.join(Scratch.get(), "c13_%d" % os.getpid())
        if not os.path.isdir(d):
            os.makedirs(d)
        path = os.path.join(d, "m.tvel")
        for n in os.listdir(d):
            os.unlink(os.path.join(d, n))
        if where == "none":
            if case["x"] < 0.6:
                # more rows: in the middle of a layer, a jump of density
                i = self.pick([i for i in range(len(rws) - 1)
                               if rws[i][0] < rws[i + 1][0] - 5], case["at"])
                a, b = rws[i], rws[i + 1]
                c = [(u + v) / 2 for u, v in zip(a, b)]
                rws[i + 1:i + 1] = [c] if case["x"] < 0.3 else [
                    c, c[:3] + [c[3] + 1.5]]
            with open(path, "w", newline="") as f:
                f.write(tables.text(rws, case["style"]))
            t = taup("creating %r" % rws, self.create, path, case["via"], d)
            if t is None:
                raise Violation("no model is made of %r" % rws)
            return True, "accepted"
        if where == "file":
            path, what = self.bad_file(rws, kind, case, path)
            try:
                with quiet():
                    t = self.create(path, case["via"], d)
            except Exception as e:
                return True, "%s: %s" % (kind, type(e).__name__)
        else:
            with open(path, "w") as f:
                f.write(tables.text(rws, []))
            from taupy.VelocityModel import VelocityModel
            m = taup("reading", VelocityModel.readVelocityFile, path)
            what = self.bad_model(m, kind, case)
            try:
                with quiet():
                    valid = m.validate()
            except Exception:
                valid = False
            try:
                from taupy.TauP_Create import TauP_Create
                with quiet():
                    t = TauP_Create(path, None, **PARAMS["coarse"]
                                    ).createTauModel(m)
            except Exception as e:
                return True, "%s: %s" % (kind, type(e).__name__)
            if t is not None:
                raise Violation("%s: a travel-time model is made of it "
                                "(validate(): %r)" % (what, valid))
        if t is not None:
            raise Violation("%s: a travel-time model is made of it" % what)
        return True, kind + ": no model"

    @staticmethod
    def create(path, via, d):
        from taupy import TauP_Create as module
        make = module.TauP_Create
        if via == "command":
            # the default settings
            from taupy.tau import create_taup_model
            out = os.path.join(d, "out")
            create_taup_model(os.path.basename(path), out,
                              os.path.dirname(path))
            names = os.listdir(out) if os.path.isdir(out) else []
            for n in names:
                os.unlink(os.path.join(out, n))
            if os.path.isdir(out):
                os.rmdir(out)
            return names or None
        if via == "build":
            c = make(path, os.path.join(d, "m.taup"), **PARAMS["coarse"])
            c.loadVMod()
            c.run()
            return os.path.exists(os.path.join(d, "m.taup")) or None
        c = make(path, None, **PARAMS["coarse"])
        return c.createTauModel(c.loadVMod())

    # ------------------------------------------------------------------
    @staticmethod
    def pick(items, f):
        return items[int(round(f * (len(items) - 1)))]

    def bad_file(self, rws, kind, case, path):
        """Write a file with a defect. -> path, description"""
        pick, f, x = self.pick, case["at"], case["x"]
        n = len(rws)
        inside = [i for i in range(1, n - 1)
                  if rws[i - 1][0] < rws[i][0] or rws[i][0] < rws[i + 1][0]]
        solid = [i for i in range(n) if rws[i][2] > 0]
        fluid = [i for i in range(n) if rws[i][2] == 0]
        extra = {}
        if kind == "decrease":
            # a row that belongs further up
            i = pick([i for i in range(2, n) if rws[i - 1][0] > 0.1], f)
            rws.insert(i, list(rws[i - 1]))
            rws[i][0] = round(rws[i - 1][0] * (0.1 + 0.85 * x), 3)
        elif kind == "swap":
            i = pick([i for i in range(n - 1) if rws[i][0] < rws[i + 1][0]],
                     f)
            rws[i][0], rws[i + 1][0] = rws[i + 1][0], rws[i][0]
        elif kind == "start":
            rws[0][0] = round(rws[1][0] * (0.01 + 0.9 * x), 3)
        elif kind == "negdepth":
            i = pick([0, 1], f)
            rws[i][0] = -round(0.001 + 100 * x, 3)
        elif kind in ("pzero", "pneg"):
            i = pick(range(n), f)
            rws[i][1] = 0.0 if kind == "pzero" else -round(1e-3 + 10 * x, 3)
            rws[i][2] = min(rws[i][2], rws[i][1]) if x < .5 else 0.0
            if kind == "pneg" and x >= .5:
                rws[i][2] = rws[i][1]
        elif kind == "pfade":
            i = pick(range(n), f)
            rws[i][1] = rws[i][2] = 0.0
        elif kind == "sneg":
            i = pick(range(n), f)
            rws[i][2] = -round(1e-6 + 5 * x * x, 6)
        elif kind == "sfade":
            # a solid layer that becomes fluid without a discontinuity
            i = pick(solid, f)
            rws[i][2] = 0.0
        elif kind == "srise":
            i = pick(fluid, f)
            rws[i][2] = round(rws[i][1] * (0.01 + 0.9 * x), 4)
        elif kind == "fast":
            i = pick(range(n), f)
            rws[i][2] = rws[i][1] + round(1e-4 + x * x * x, 4)
        elif kind in ("missing", "excess", "word", "nan", "inf", "nandepth"):
            i = pick(range(n), f)
            k = int(x * 3.999)
            if kind == "missing":
                extra[i] = " ".join("%r" % y for y in rws[i][:k])
            elif kind == "excess":
                extra[i] = " ".join("%r" % y for y in rws[i]) + \
                    " 600.0" * (1 + k)
            elif kind == "nandepth":
                extra[i] = "nan " + " ".join("%r" % y for y in rws[i][1:])
            else:
                t = ["%r" % y for y in rws[i]]
                k = min(k, 2) if kind != "word" else k
                t[k] = {"word": ["x", "1,5", "5.8.1", "--"][int(f * 3.99)],
                        "nan": "nan", "inf": ["inf", "-inf"][int(f * 1.99)],
                        }[kind]
                extra[i] = " ".join(t)
            if kind == "missing" and k == 0:
                extra[i] = "7000"
        elif kind == "type":
            path = path[:-5] + pick([".nd", ".txt", "", ".TVEL", ".tvel2",
                                     ".model"], f)
        elif kind == "one":
            rws = rws[:1]
        lines = ["P", "S"]
        for i, r in enumerate(rws):
            lines.append(extra.get(i) or " ".join("%r" % y for y in r))
        if kind == "empty":
            lines = []
        if kind == "header":
            lines = lines[:2] + (["# nothing"] if x < .5 else [])
        if kind != "absent":
            with open(path, "w") as g:
                g.write("\n".join(lines) + "\n")
        return path, "%s: %s with the rows %r %r" % (
            kind, os.path.basename(path), rws, extra)

    def bad_model(self, m, kind, case):
        pick, f, x = self.pick, case["at"], case["x"]
        ls = m.layers
        n = len(ls)
        i = pick(range(n), f)
        what = "%s (layer %d, %g)" % (kind, i, x)
        solid = [l for l in ls if l.topSVelocity > 0]
        fluid = [l for l in ls if l.topSVelocity == 0]
        if kind in ("gap", "overlap"):
            e = (1e-6 + x * x * 0.5) * ls[i].thickness
            if kind == "gap":
                ls[i].topDepth += e
            else:
                i = max(i, 1)
                ls[i].topDepth -= e
        elif kind == "zero":
            z = copy.copy(ls[i])
            z.botDepth = z.topDepth
            ls.insert(i, z)
        elif kind == "order":
            j = i + 1 if i + 1 < n else i - 1
            ls[i], ls[j] = ls[j], ls[i]
        elif kind in ("pzero", "pneg", "pfade"):
            v = -x - 1e-3 if kind == "pneg" else 0.0
            if kind == "pfade" or x < .5:
                ls[i].topPVelocity = v
            else:
                ls[i].botPVelocity = v
            if kind == "pzero":
                ls[i].topPVelocity = ls[i].botPVelocity = 0.0
        elif kind == "sneg":
            if x < .5:
                ls[i].topSVelocity = -x - 1e-4
            else:
                ls[i].botSVelocity = -x
        elif kind == "sfade":
            if x < .5:
                pick(solid, f).botSVelocity = 0.0
            else:
                pick(solid, f).topSVelocity = 0.0
        elif kind == "srise":
            if x < .5:
                pick(fluid, f).botSVelocity = 1.0 + x
            else:
                pick(fluid, f).topSVelocity = 1.0 + x
        elif kind == "radius":
            m.radiusOfEarth = [0.0, -6371.0, -1e-3, 0][int(x * 3.99)]
        elif kind == "bigger":
            m.radiusOfEarth *= [0.5, 0.999, 1.001, 2.0][int(x * 3.99)]
        elif kind == "moho":
            m.mohoDepth = [-1.0, m.cmbDepth + 1, m.radiusOfEarth, -1e-6][
                int(x * 3.99)]
        elif kind == "cmb":
            m.cmbDepth = [-1.0, 0.0, m.iocbDepth + 1,
                          m.mohoDepth - 1][int(x * 3.99)]
        elif kind == "iocb":
            m.iocbDepth = [-1.0, 0.0, m.cmbDepth - 1, -m.iocbDepth][
                int(x * 3.99)]
        elif kind == "minradius":
            m.minRadius = [-1.0, m.maxRadius, m.maxRadius + 1, -1e-3][
                int(x * 3.99)]
        elif kind == "maxradius":
            m.maxRadius = [-1.0, 0.0, -m.maxRadius, 0][int(x * 3.99)]
        elif kind == "nan":
            setattr(ls[i], ["topPVelocity", "botPVelocity", "topSVelocity",
                            "botSVelocity", "topDepth", "botDepth"][
                int(x * 5.99)], float("nan"))
        elif kind == "flat":
            m.isSpherical = False
        elif kind == "nolayers":
            del ls[:]
        elif kind == "fluidtop":
            ls[0].topSVelocity = ls[0].botSVelocity = 0.0
        return what + " in %s" % case["model"]


CHECK = C
