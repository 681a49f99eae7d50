import hashlib
import json
import os
import shutil
import subprocess
import sys
import tempfile

from hypothesis import strategies as st

import strat
from answers import answers, wrap
from common import (REPO, VERIF, Check, Scratch, Violation, builtin_tvel,
                    gen_rows, taup, write_tvel)

NAMES = ["model", "my model", "planet.v2", "MODEL-1", "m\u00f6del", "x_y",
         "iasp91", "ak135", "a.b.c", "taup", "tvel", "m.taup", "0", "iasp91x"]
DIRS = ["", "out", "new/deep/er", "with space", "d.ot", "./rel", "out/../out2"]
BEFORE = ["none", "none", "garbage", "empty", "older", "long"]


def digest(path):
    with open(path, "rb") as f:
        return hashlib.sha256(f.read()).hexdigest()


class C(Check):
    id = "C16"
    quick, thorough = 45, 2500
    case_limit = 300.0
    rule = ("a case is a velocity file, settings, file names and places, an "
            "earlier file in the way, and queries; the model is created and "
            "written, loaded in this and in another process, and created "
            "anew in another process with another hash seed; all answers "
            "must be identical; non-trivial: some query had arrivals")
    technique = ("round-trip and differential property-based testing across "
                 "processes")

    def cases(self):
        @st.composite
        def case(draw):
            k = draw(st.integers(0, 10 ** 6))
            m = strat.gen_desc("C16-%d" % k)
            if draw(st.integers(0, 19)) == 0:
                m = {"builtin": draw(st.sampled_from(["iasp91", "ak135"]))}
            kind = st.sampled_from(["get_travel_times", "get_pierce_points",
                                    "get_ray_paths"])
            qs = [[draw(strat.depths(m)), draw(strat.distances()),
                   draw(st.lists(strat.phases(m), min_size=1, max_size=4)),
                   draw(kind)] for _ in range(5)]
            qs = [q for q in qs if 0 <= q[0] < strat.info(m)[2]]
            qs += [[0.0, 60.0, ["ttall"], "get_travel_times"],
                   [100.0, draw(strat.distances()), ["ttbasic"],
                    draw(kind)]]
            iface = draw(st.sampled_from(["create", "create", "model"]))
            par = strat.sampling(str(k)) if iface == "create" else {}
            if iface == "create" and draw(st.booleans()):
                par["allow_inner_core_s"] = False
            if iface == "create" and draw(st.integers(0, 3)) == 0:
                par = dict(par, verbose=True)
            return {"model": m, "iface": iface, "par": par,
                    "name": draw(st.sampled_from(NAMES)),
                    "dir": draw(st.sampled_from(DIRS)),
                    "in": draw(st.sampled_from(["", "in put", "."])),
                    "absolute": draw(st.booleans()),
                    "before": draw(st.sampled_from(BEFORE)),
                    "hash": draw(st.integers(0, 4294967295)),
                    "other": draw(st.sampled_from(
                        ["load", "create", "create", "after"])),
                    "queries": qs}
        return case()

    def run(self, case):
        top = tempfile.mkdtemp(dir=Scratch.get())
        cwd = os.getcwd()
        try:
            os.chdir(top)
            return self.work(top, case)
        finally:
            os.chdir(cwd)
            shutil.rmtree(top, ignore_errors=True)

    def work(self, top, case):
        from taupy.TauP_Create import TauP_Create
        from taupy import tau
        m = case["model"]
        base = top if case["absolute"] else ""
        name = case["name"]
        indir = os.path.join(base, case["in"])
        if indir:
            os.makedirs(indir, exist_ok=True)
        model = case["iface"] == "model"
        # create_taup_model: names with a dot are file names
        tvel = os.path.join(indir, name + ".tvel")
        if "builtin" in m:
            shutil.copyfile(builtin_tvel(m["builtin"]), tvel)
        else:
            write_tvel(tvel, gen_rows(m))
        outdir = os.path.join(base, case["dir"])
        if case["dir"] == "out/../out2":
            os.makedirs(os.path.join(base, "out"), exist_ok=True)
        out = os.path.join(outdir, name + ".taup")
        if name in ("iasp91", "ak135") and not os.path.dirname(out):
            out = os.path.join(".", out)    # the bare name is TauPy's own
        what = "%s made from %s (%s, %s) into %s" % (
            case["iface"], tvel, json.dumps(m, sort_keys=True),
            case["par"], out)
        if case["before"] != "none":
            if os.path.dirname(out):
                os.makedirs(os.path.dirname(out), exist_ok=True)
            with open(out, "wb") as f:
                if case["before"] == "garbage":
                    f.write(b"\x00garbage" * 99)
                elif case["before"] == "long":
                    f.write(os.urandom(9 * 1024 * 1024))
                elif case["before"] == "older":
                    f.write(b"(I1\n.")
        h = digest(tvel)
        stat = os.stat(tvel)

        def make():
            if model:
                tau.create_taup_model(
                    name + ".tvel" if "." in name or len(name) % 2 else name,
                    outdir, indir)
                return None
            c = TauP_Create(tvel, out, **case["par"])
            c.loadVMod()
            c.run()
            return c.tMod
        mem = taup(what, make)
        if digest(tvel) != h or os.stat(tvel).st_mtime_ns != \
                stat.st_mtime_ns:
            raise Violation("%s: the input is changed" % what)
        if not os.path.isfile(out):
            raise Violation("%s: no such file; there are %s" % (
                what, [os.path.join(a, c) for a, _, b in os.walk(top)
                       for c in b]))
        files = [os.path.join(a, c) for a, _, b in os.walk(top) for c in b]
        if len(files) != 2:
            raise Violation("%s: the files %s" % (what, files))
        qs = case["queries"]
        t = taup("loading what %s gave" % what, tau.TauPyModel, out)
        loaded = taup("queries to the loaded model of " + what, answers, t,
                      qs)
        if mem is None:
            c = TauP_Create(tvel, None)
            mem = taup("creating " + what, lambda: c.createTauModel(
                c.loadVMod()))
        direct = taup("queries to the model of " + what, answers, wrap(mem),
                      qs)
        self.same(what, qs, direct, loaded, "in memory", "loaded")
        par = {k: v for k, v in case["par"].items() if k != "verbose"}
        job = {"load": None, "create": os.path.abspath(tvel), "par": par,
               "queries": qs}
        if case["other"] == "load":
            job = {"load": os.path.abspath(out), "queries": qs}
        elif case["other"] == "after":
            other = os.path.join(top, "other.tvel")
            write_tvel(other, gen_rows({"gen": case["hash"] % 97,
                                        "R": 6000.0, "lvz": 0.8}))
            job["before"] = [[other, PAR_BEFORE]]
        env = dict(os.environ, PYTHONHASHSEED=str(case["hash"]),
                   VERIF_REPO=REPO, PYTHONIOENCODING="utf-8")
        r = subprocess.run(
            [sys.executable, "-W", "ignore", os.path.join(
                VERIF, "lib", "answers.py")], env=env, cwd="/",
            input=json.dumps(job).encode(), stdout=subprocess.PIPE,
            stderr=subprocess.PIPE, timeout=240)
        if r.returncode:
            raise Violation("%s: another process (%s) failed: %s" % (
                what, case["other"],
                r.stderr.decode("utf-8", "replace")[-300:]))
        self.same(what, qs, direct, json.loads(r.stdout.decode()),
                  "in memory", "in another process with hash seed %d (%s)" % (
                      case["hash"], case["other"]))
        n = sum(len(x) for x in direct)
        return n > 0, "%d arrivals" % n

    @staticmethod
    def same(what, qs, a, b, na, nb):
        a = json.loads(json.dumps(a))
        b = json.loads(json.dumps(b))
        if json.dumps(a) == json.dumps(b):
            return
        for q, x, y in zip(qs, a, b):
            if json.dumps(x) != json.dumps(y):
                for u, v in zip(x, y):
                    if json.dumps(u) != json.dumps(v):
                        raise Violation("%s: %s: %s is %s, %s it is %s" % (
                            what, q, na, str(u)[:200], nb, str(v)[:200]))
                raise Violation("%s: %s: %d arrivals %s, %d %s" % (
                    what, q, len(x), na, len(y), nb))


PAR_BEFORE = {"max_delta_p": 30.0, "max_depth_interval": 300.0,
              "max_range_interval": 6.0, "min_delta_p": 1.0,
              "max_interp_error": 0.5, "allow_inner_core_s": False}
CHECK = C
