import copy
import json
import math
import random
import re

from hypothesis import strategies as st

import common
import rays
import strat
from common import (DEG, PARAMS, Check, Skip, Violation, World, builtin_tvel,
                    gen_rows, taup, world)
from raytrace import read_tvel

BASE = {"min_delta_p": 0.1, "max_delta_p": 11.0, "max_depth_interval": 115.0,
        "max_range_interval": 2.5, "max_interp_error": 0.05}
DEPTHS = ("topDepth", "botDepth")
SPEEDS = ("topPVelocity", "botPVelocity", "topSVelocity", "botSVelocity")
_SCALED = {}


def scaled(desc, kz, kv):
    """The model of desc with depths times kz and velocities times kv."""
    from taupy.TauP_Create import TauP_Create
    from taupy.tau import TauPyModel
    key = json.dumps([desc, kz, kv], sort_keys=True)
    if key not in _SCALED:
        w = world(desc)
        par = dict(BASE)
        par.update(PARAMS[w.params])
        for k in ("min_delta_p", "max_delta_p", "max_interp_error"):
            par[k] *= kz / kv
        par["max_depth_interval"] *= kz

        def make():
            c = TauP_Create(w.path, None, **par)
            v = c.loadVMod()
            for l in v.layers:
                for a in DEPTHS:
                    setattr(l, a, getattr(l, a) * kz)
                for a in SPEEDS:
                    setattr(l, a, getattr(l, a) * kv)
            for a in ("radiusOfEarth", "mohoDepth", "cmbDepth", "iocbDepth",
                      "minRadius", "maxRadius"):
                setattr(v, a, getattr(v, a) * kz)
            return c.createTauModel(v)
        t = TauPyModel.__new__(TauPyModel)
        t.verbose = False
        t.model = taup("creating %s with depths times %r and velocities times "
                       "%r" % (desc, kz, kv), make)
        if len(_SCALED) > 8:
            _SCALED.clear()
        _SCALED[key] = t
    return _SCALED[key]


def split_world(desc, seed):
    """The model of desc with more rows that change nothing; the reference
    is that of the model as it was."""
    w = world(desc)
    key = "split-%s-%s" % (json.dumps(desc, sort_keys=True), seed)
    if key not in common._WORLDS:
        rnd = random.Random(key)
        rows = []
        for a, b in zip(w.rows[:-1], w.rows[1:]):
            rows.append(a)
            if b[0] - a[0] > 1 and rnd.random() < 0.6:
                for f in sorted(rnd.uniform(0.05, 0.95)
                                for _ in range(rnd.choice([1, 1, 2, 3]))):
                    rows.append(tuple(x + f * (y - x) for x, y in zip(a, b)))
        rows.append(w.rows[-1])
        import os
        path = os.path.join(common.Scratch.get(), "split_%d_%d.tvel" % (
            os.getpid(), len(common._WORLDS)))
        common.write_tvel(path, rows)
        tm = taup("creating %s with layers split" % key,
                  common.build_tau_model, path, w.params)
        common._WORLDS[key] = World(key, w.rows, tm, w.params, path)
    return common._WORLDS[key]


def rename(name, kz, kv):
    """The name of the same phase in the scaled model."""
    if name.endswith("kmps"):
        return "%rkmps" % (float(name[:-4]) * kv)
    return re.sub(r"\d+(\.\d+)?(e-?\d+)?",
                  lambda m: "%r" % (float(m.group(0)) * kz), name)


def eq(a, b, tol=1e-9, eps=1e-9):
    return abs(a - b) <= tol * max(abs(a), abs(b)) + eps


class C(Check):
    id = "C17"
    quick, thorough = 900, 30000
    rule = ("a case is a model, the same model with depths or velocities "
            "multiplied by powers of two (with the sampling limits scaled "
            "alike) or with layers split, a depth, a distance and phases; "
            "arrivals, pierce points and paths must be equal after scaling "
            "to 1e-9, those of the split model be rays of the unsplit one; "
            "non-trivial: there was an arrival")
    technique = "metamorphic property-based testing"

    def pool(self):
        w = getattr(self, "worker", 0)
        n = 2 if self.tier == "quick" else 8
        out = []
        for i in range(n):
            m = "iasp91" if (w + i) % 5 == 0 else "ak135" \
                if (w + i) % 5 == 1 else \
                strat.gen_desc("C17-%s-%s-%s" % (self.seed, w, i))
            rnd = random.Random("C17s-%s-%s-%s" % (self.seed, w, i))
            out.append((m, "scale", 1.0, rnd.choice([2., .5, 4., .25, 8.])))
            out.append((m, "scale", rnd.choice([2., .5, 4., .25]),
                        rnd.choice([1.0, 1.0, 2., .5])))
            out.append((m, "split", rnd.randint(0, 10 ** 6), 0))
        return out

    def cases(self):
        pool = self.pool()

        @st.composite
        def case(draw):
            m, how, a, b = draw(st.sampled_from(pool))
            ph = strat.phases(m)
            if how == "scale":
                ph = st.one_of(ph, ph, ph, st.sampled_from(
                    ["3kmps", "4.5kmps", "P410s", "P^660P", "Pn", "Pdiff",
                     "Sdiff", "Sn"]))
            return {"model": m, "how": how, "a": a, "b": b,
                    "zs": draw(strat.depths(m)),
                    "query": draw(st.sampled_from(["times", "times", "pierce",
                                                   "path"])),
                    "phases": draw(st.lists(ph, min_size=1, max_size=3,
                                            unique=True)),
                    "deg": draw(strat.distances())}
        return case()

    def run(self, case):
        w = world(case["model"])
        zs, deg, names = case["zs"], case["deg"], case["phases"]
        if not 0 <= zs < w.cmb:
            raise Skip("outside of the domain")
        if case["how"] == "split":
            return self.split(case)
        kz, kv = case["a"], case["b"]
        t = scaled(case["model"], kz, kv)
        fn = {"times": "get_travel_times", "pierce": "get_pierce_points",
              "path": "get_ray_paths"}[case["query"]]
        new = [rename(x, kz, kv) for x in names]
        what = "%s from %r km at %r deg, depths times %r, velocities times " \
            "%r" % (names, zs, deg, kz, kv)
        A = taup(what + " (before)", getattr(w.tau, fn), zs, deg, names)
        B = taup(what, getattr(t, fn), zs * kz, deg, new)
        show = lambda l: [(a.name, round(a.time, 4), round(a.rayParam, 4))
                          for a in l]
        if len(A) != len(B):
            raise Violation("%s: %s, was %s" % (what, show(B), show(A)))
        k = kz / kv
        key = lambda a: (a.time, a.rayParam)
        A, B = sorted(A, key=key), sorted(B, key=key)
        for a, b in zip(A, B):
            if a.name in names and b.name in new and \
                    names.index(a.name) != new.index(b.name) and \
                    eq(a.time, b.time / k):
                continue        # two at the same time
            for attr, f in (("time", k), ("rayParam", k), ("dist", 1.0),
                            ("takeoffAngle", 1.0), ("incidentAngle", 1.0)):
                x, y = getattr(a, attr), getattr(b, attr) / f
                tol = 1e-9
                if attr in ("takeoffAngle", "incidentAngle"):
                    # steep near 90 degrees
                    if abs(abs(x) - 90) < 1e-2:
                        continue
                    tol = 1e-7
                if not eq(x, y, tol):
                    raise Violation("%s: %s of %s is %r, was %r times %r" % (
                        what, attr, b.name, getattr(b, attr), x, f))
            if case["query"] == "times":
                continue
            P = a.pierce if case["query"] == "pierce" else a.path
            Q = b.pierce if case["query"] == "pierce" else b.path
            if len(P) != len(Q):
                raise Violation("%s: %d points for %s, were %d" % (
                    what, len(Q), b.name, len(P)))
            for u, v in zip(P, Q):
                if not (eq(u.time, v.time / k, 1e-8, 1e-6) and
                        eq(u.depth, v.depth / kz, 1e-8, 1e-5) and
                        eq(u.distRadian, v.distRadian, 1e-8, 1e-7)):
                    raise Violation(
                        "%s: a point of %s at %r s %r km %r rad, was %r s %r "
                        "km %r rad" % (what, b.name, v.time, v.depth,
                                       v.distRadian, u.time, u.depth,
                                       u.distRadian))
        return len(A) > 0, "%d arrivals" % len(A)

    def split(self, case):
        w = split_world(case["model"], case["a"])
        zs, deg, n = case["zs"], case["deg"], 0
        for x in case["phases"]:
            try:
                exp = rays.expected(w, x, zs)
            except Skip:
                continue
            arr = taup("%s from %r km at %r deg" % (x, zs, deg),
                       w.tau.get_travel_times, zs, deg, [x])
            n += rays.check_sound(w, zs, x, deg, arr, exp)
            n += rays.check_complete(w, zs, x, deg, arr, exp)
        return n > 0, "%d rays" % n


CHECK = C
