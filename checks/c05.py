import copy
import io
import os
import pickle
import random
import struct
import sys
import threading
from contextlib import redirect_stdout

import numpy as np
from hypothesis import strategies as st

import common
import strat
from common import BUILTIN, Check, Violation, taup, world

METHODS = {"times": "get_travel_times", "pierce": "get_pierce_points",
           "path": "get_ray_paths"}


def digest(res):
    """All that a query hands out, as plain values."""
    out = []
    for a in res:
        out.append((a.name, a.puristName, a.time, a.dist, a.rayParam,
                    a.rayParamIndex, a.takeoffAngle, a.incidentAngle,
                    a.sourceDepth,
                    tuple((t.p, t.time, t.distRadian, t.depth)
                          for t in a.pierce),
                    tuple((t.p, t.time, t.distRadian, t.depth)
                          for t in a.path)))
    return out


def freeze(x, seen=None, depth=0):
    """Nested plain data of an object."""
    seen = {} if seen is None else seen
    if isinstance(x, (int, float, str, bool, type(None), bytes)):
        return x
    if isinstance(x, np.generic):
        return x.item()
    if id(x) in seen:
        return seen[id(x)]
    if isinstance(x, np.ndarray):
        r = x.tolist()
    elif isinstance(x, (list, tuple)):
        r = [freeze(y, seen, depth + 1) for y in x]
    elif isinstance(x, dict):
        r = {str(k): freeze(v, seen, depth + 1) for k, v in x.items()}
    elif hasattr(x, "__dict__"):
        r = freeze(x.__dict__, seen, depth + 1)
    elif hasattr(x, "__slots__"):
        r = {s: freeze(getattr(x, s, None), seen, depth + 1)
             for s in x.__slots__}
    else:
        return None
    seen[id(x)] = r
    return r


def changed(a, b, path=""):
    """First difference of what was there before; additions are ignored, as
    is anything that was empty."""
    if isinstance(a, dict) and isinstance(b, dict):
        for k in a:
            if a[k] in (None, {}, []):
                continue
            if k not in b:
                return path + "." + k + " is gone"
            r = changed(a[k], b[k], path + "." + k)
            if r:
                return r
        return None
    if isinstance(a, list) and isinstance(b, list):
        if len(a) != len(b):
            return "%s: %d items, now %d" % (path, len(a), len(b))
        for i, (x, y) in enumerate(zip(a, b)):
            r = changed(x, y, "%s[%d]" % (path, i))
            if r:
                return r
        return None
    if a is None or a == b or (a != a and b != b):
        return None
    return "%s: %r, now %r" % (path, a, b)


def method(models, op):
    from taupy.tau import TauPyModel
    t = TauPyModel.__new__(TauPyModel)
    t.verbose = False
    t.model = models[op["m"]]
    return getattr(t, METHODS[op["kind"]])


def query(models, op):
    return method(models, op)(op["zs"], op["deg"], list(op["phases"]))


def ask(models, op):
    """Run one query on the model with the index op["m"]."""
    f = method(models, op)
    out = io.StringIO()
    with redirect_stdout(out):
        if op.get("print"):
            f(op["zs"], op["deg"], list(op["phases"]), None, True)
            return None, out.getvalue()
        res = f(op["zs"], op["deg"], list(op["phases"]))
    return res, None


class Pristine(object):
    """A process forked before the first query; each request is answered in
    a fork of it, so that no answer can depend on an earlier query."""

    def __init__(self, models):
        r1, w1 = os.pipe()
        r2, w2 = os.pipe()
        self.pid = os.fork()
        if self.pid == 0:
            os.close(w1)
            os.close(r2)
            try:
                self.serve(models, os.fdopen(r1, "rb"), w2)
            finally:
                os._exit(0)
        os.close(r1)
        os.close(w2)
        self.w, self.r = os.fdopen(w1, "wb"), os.fdopen(r2, "rb")

    def serve(self, models, r, w2):
        while True:
            h = r.read(4)
            if len(h) < 4:
                return
            op = pickle.loads(r.read(struct.unpack("<I", h)[0]))
            pid = os.fork()
            if pid == 0:
                try:
                    try:
                        res, text = ask(models, op)
                        ans = ("ok", digest(res) if res is not None else text)
                    except Exception as e:
                        ans = ("raised", "%s: %s" % (type(e).__name__, e))
                    b = pickle.dumps(ans)
                    with os.fdopen(w2, "wb") as f:
                        f.write(struct.pack("<I", len(b)) + b)
                finally:
                    os._exit(0)
            os.waitpid(pid, 0)

    def ask(self, op):
        b = pickle.dumps(op)
        self.w.write(struct.pack("<I", len(b)) + b)
        self.w.flush()
        n = struct.unpack("<I", self.r.read(4))[0]
        return pickle.loads(self.r.read(n))


class C(Check):
    id = "C05"
    quick, thorough = 260, 8000
    rule = ("a case is a history of up to 12 queries (times, pierce points, "
            "paths; printed or not) over five models (two of the same name) "
            "that live in one process, with repeated and close-by source depths, distances "
            "and phases, one after another or (one in four) all at once "
            "from threads; every answer is compared with that of a process "
            "that has answered nothing before, earlier answers and the "
            "models must not change; non-trivial: at least 3 queries with "
            "arrivals, two of them on one model")
    technique = ("stateful property-based testing: query histories against "
                 "a model without history")

    def setup(self):
        rnd = random.Random("C05-%s" % self.seed)
        self.descs = list(BUILTIN) + [
            strat.gen_desc("C05-%s-%s" % (self.seed, i)) for i in range(2)]
        self.models = [world(d).tmod for d in self.descs]
        # another planet by the name of a built-in one
        twin = strat.gen_desc("C05-twin-%s" % self.seed)
        path = os.path.join(common.Scratch.get(), "twin")
        os.makedirs(path, exist_ok=True)
        path = os.path.join(path, "iasp91.tvel")
        common.write_tvel(path, common.gen_rows(twin))
        self.models.append(taup("creating a model from %s" % path,
                                common.build_tau_model, path, "fine"))
        self.descs.append("another planet named iasp91")
        self.pristine = Pristine(self.models)
        self.before = [freeze(m) for m in self.models]

    def cases(self):
        # depths and distances that come up again
        @st.composite
        def history(draw):
            zs = draw(st.lists(st.one_of(
                st.just(0.0), st.sampled_from([35.0, 20.0, 410.0, 2889.0 - 1]),
                strat.depths("iasp91"),
                st.floats(0.1, 700).map(lambda x: round(x, 1))),
                min_size=1, max_size=3))
            if draw(st.booleans()):
                zs.append(round(zs[0] + draw(st.sampled_from(
                    [1e-4, -1e-4, 0.01, 1.0])), 6))
            zs = [z if 0 <= z < 2500 else 10.0 for z in zs]
            degs = draw(st.lists(strat.distances(), min_size=1, max_size=2))
            phs = draw(st.lists(st.one_of(
                strat.phases("iasp91"), st.sampled_from(
                    ["ttp", "P", "S", "PKIKP", "Pdiff", "Pn", "3.5kmps",
                     "P410s", "xx", "PcP", "SKS"])),
                min_size=1, max_size=4))
            ops = []
            for _ in range(draw(st.integers(2, 12))):
                k = draw(st.sampled_from(["times", "times", "pierce",
                                          "path"]))
                ops.append({
                    "m": draw(st.sampled_from([0, 0, 0, 1, 2, 3, 4, 4])),
                    "kind": k,
                    "zs": draw(st.sampled_from(zs)),
                    "deg": draw(st.sampled_from(degs)),
                    "phases": draw(st.lists(st.sampled_from(phs),
                                            min_size=1, max_size=3)),
                    "print": draw(st.integers(0, 5)) == 0})
            return {"ops": ops, "threads": draw(st.integers(0, 3)) == 0}
        return history()

    def at_once(self, ops):
        """Ask all from threads of their own at the same time."""
        want = [self.pristine.ask(op) for op in ops]
        got = [None] * len(ops)
        start = threading.Barrier(len(ops))

        def go(i, op):
            start.wait()
            try:
                got[i] = ("ok", digest(query(self.models, op)))
            except Exception as e:
                got[i] = ("raised", "%s: %s" % (type(e).__name__, e))
        old = sys.getswitchinterval()
        sys.setswitchinterval(1e-5)
        try:
            with common.quiet():
                ts = [threading.Thread(target=go, args=(i, op))
                      for i, op in enumerate(ops)]
                for t in ts:
                    t.start()
                for t in ts:
                    t.join()
        finally:
            sys.setswitchinterval(old)
        for op, a, b in zip(ops, got, want):
            if a != b and not a[0] == b[0] == "raised":
                raise Violation("%s gives %s while other threads ask %s, but "
                                "%s on its own" % (
                                    op, str(a)[:300], [o for o in ops
                                                       if o is not op][:4],
                                    str(b)[:300]))
        return sum(a[0] == "ok" and len(a[1]) > 0 for a in got)

    def run(self, case):
        if case.get("threads"):
            # few models, so that they are shared
            ops = [dict(op, print=False, m=op["m"] if i % 3 == 0 else
                        case["ops"][0]["m"])
                   for i, op in enumerate(case["ops"])]
            live = self.at_once(ops)
            self.unchanged()
            return live >= 3, "%d queries with arrivals at once" % live
        live, held, count = 0, [], {}
        for i, op in enumerate(case["ops"]):
            what = "query %d, %s" % (i + 1, op)
            want = self.pristine.ask(op)
            try:
                res, text = ask(self.models, op)
                got = ("ok", digest(res) if res is not None else text)
            except Exception as e:
                got = ("raised", "%s: %s" % (type(e).__name__, e))
            if got[0] == "raised" and want[0] == "raised":
                continue
            if got != want:
                raise Violation("%s gives %s after the other queries, but "
                                "%s on its own" % (what, str(got)[:300],
                                                   str(want)[:300]))
            if res is not None:
                held.append((i, res, got[1]))
                if res:
                    live += 1
                    count[op["m"]] = count.get(op["m"], 0) + 1
            for j, r, d in held:
                if digest(r) != d:
                    raise Violation("the result of query %d changed after "
                                    "%s" % (j + 1, what))
        self.unchanged()
        return live >= 3 and max(count.values()) >= 2, \
            "%d queries with arrivals" % live

    def unchanged(self):
        for d, m, b in zip(self.descs, self.models, self.before):
            c = changed(b, freeze(m))
            if c:
                raise Violation("model %s has changed: %s" % (d, c[:300]))


CHECK = C
