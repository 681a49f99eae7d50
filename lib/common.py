"""Machinery shared by all checks: models built from the working tree, the
Hypothesis driver, replay files, evidence."""
import contextlib
import io
import json
import os
import random
import shutil
import signal
import sys
import tempfile
import time
import traceback
import warnings

sys.dont_write_bytecode = True
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
HYP = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
if REPO not in sys.path:
    sys.path.insert(0, REPO)
if HYP not in sys.path:
    sys.path.append(HYP)
warnings.simplefilter("ignore")

import numpy as np  # noqa: E402

from genmodel import random_spec, rows as spec_rows, write_tvel  # noqa: E402
from raytrace import RefModel, read_tvel  # noqa: E402

np.seterr(all="ignore")
DEG = 180.0 / np.pi
BUILTIN = ("iasp91", "ak135")

# TauP_Create settings by name
PARAMS = {
    "default": {},
    "fine": {"max_depth_interval": 50.0},
    "coarse": {"min_delta_p": 1.0, "max_delta_p": 30.0,
               "max_depth_interval": 300.0, "max_range_interval": 6.0,
               "max_interp_error": 0.5},
    "very": {"min_delta_p": 0.05, "max_delta_p": 3.0,
             "max_depth_interval": 20.0, "max_range_interval": 1.0,
             "max_interp_error": 0.005},
}


class Violation(Exception):
    """The property does not hold for the case at hand."""


class KnownSite(Violation):
    """The property does not hold, in the way that is recorded under a name
    (site=NAME) in known-findings.txt."""

    def __init__(self, site, text):
        Violation.__init__(self, text)
        self.site = site


class Skip(Exception):
    """The case lies outside of the domain of the property."""


class Timeout(BaseException):
    pass


class Scratch(object):
    """One scratch directory per process tree, removed at exit."""
    path = None

    @classmethod
    def get(cls):
        if cls.path is None:
            cls.path = tempfile.mkdtemp(prefix="taupcheck_")
            cls.owner = os.getpid()
        return cls.path

    @classmethod
    def clean(cls):
        if cls.path is not None and cls.owner == os.getpid():
            shutil.rmtree(cls.path, ignore_errors=True)
            cls.path = None


@contextlib.contextmanager
def quiet():
    """Catch what TauPy prints."""
    out = io.StringIO()
    with contextlib.redirect_stdout(out), contextlib.redirect_stderr(
            io.StringIO()):
        yield out


def taup(what, fn, *args, **kw):
    """Call into TauPy on input that it has to accept."""
    try:
        with quiet():
            return fn(*args, **kw)
    except (Violation, Skip):
        raise
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        where = ["%s:%s" % (os.path.basename(f.filename), f.name)
                 for f in tb if "taupy" in f.filename][-3:]
        raise Violation("%s raised %s: %s (%s)" % (
            what, type(e).__name__, str(e)[:200], " > ".join(where)))


@contextlib.contextmanager
def time_limit(seconds):
    def handler(signum, frame):
        raise Timeout()
    old = signal.signal(signal.SIGALRM, handler)
    signal.setitimer(signal.ITIMER_REAL, seconds)
    try:
        yield
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


# ---------------------------------------------------------------------------
class World(object):
    """A model of TauPy together with its reference."""

    def __init__(self, key, rws, taumod, params, path=None):
        from taupy.tau import TauPyModel
        self.key, self.rows, self.params, self.path = key, rws, params, path
        self.tmod = taumod
        self.tau = TauPyModel.__new__(TauPyModel)
        self.tau.verbose = False
        self.tau.model = taumod
        self.ref = RefModel(rws)
        self.R = self.ref.R
        d = [0.0] + self.ref.discontinuities() + [self.R]
        self.discon = d
        inner = d[1:-1] or [self.R]
        near = lambda x: min(inner, key=lambda b: abs(b - x))
        self.moho, self.cmb, self.iocb = near(35.), near(2889.), near(5153.9)
        if abs(self.moho - 35.) >= 65.:
            self.moho = 0.0
        self._dc = {}

    def depth_corrected(self, zs):
        if zs not in self._dc:
            if len(self._dc) > 40:
                self._dc.clear()
            self._dc[zs] = taup("depthCorrect(%r)" % zs,
                                self.tmod.depthCorrect, zs)
        return self._dc[zs]

    def source(self, zs):
        """Source depth of a case; ["layer", wave, f, off] is a depth off km
        below a boundary of the slowness layers TauPy has chosen."""
        if not isinstance(zs, list):
            return zs
        how, wave, f, off = zs
        s = self.tmod.sMod
        d = sorted(set(x.botDepth for x in (
            s.PLayers if wave == "P" else s.SLayers)
            if x.botDepth < self.cmb))
        z = float(d[int(round(f * (len(d) - 1)))]) + off
        return z if 0 <= z < self.cmb - 1e-4 else 10.0

    def itinerary(self, name, zs):
        """Reference path of a phase (raises NotAPhase)."""
        from refphase import Itinerary
        return Itinerary(name, zs, self.moho, self.cmb, self.iocb, self.R,
                         lambda t: min(self.discon[:-1],
                                       key=lambda b: abs(b - float(t))))


_WORLDS = {}


def build_tau_model(tvel, params, **more):
    from taupy.TauP_Create import TauP_Create
    kw = dict(PARAMS[params])
    kw.update(more)
    c = TauP_Create(tvel, None, **kw)
    return c.createTauModel(c.loadVMod())


def builtin_tvel(name):
    p = os.path.join(REPO, "taupy", "data", name + ".tvel")
    if not os.path.exists(p):
        for root, _, files in os.walk(os.path.join(REPO, "taupy")):
            if name + ".tvel" in files and "tests" not in root:
                p = os.path.join(root, name + ".tvel")
                break
    return p


def gen_rows(desc):
    """Rows of a generated model described by a small dict."""
    rnd = random.Random("model-%s" % desc["gen"])
    while True:
        spec = random_spec(rnd, lvz=desc.get("lvz", 0.0),
                           detail=desc.get("detail", 2))
        rws = spec_rows(spec)
        R = desc.get("R", 6371.0)
        if R != 6371.0:
            rws[-1] = (float(R),) + tuple(rws[-1][1:])
        if not degenerate(rws, R):
            return rws


def degenerate(rws, R):
    """A layer with almost constant slowness r/v, in which rays circle the
    planet: no sampling does it justice."""
    for a, b in zip(rws[:-1], rws[1:]):
        for k in (1, 2):
            if b[0] > a[0] and a[k] > 0 and b[k] > 0 and abs(
                    (R - a[0]) / a[k] - (R - b[0]) / b[k]) < \
                    0.02 * (b[0] - a[0]):
                return True
    return False


def world(desc):
    """desc: name of a built-in model or a dict {"gen": seed, ...}"""
    key = desc if isinstance(desc, str) else json.dumps(desc, sort_keys=True)
    if key in _WORLDS:
        return _WORLDS[key]
    if isinstance(desc, str):
        path = builtin_tvel(desc)
        tm = taup("creating %s" % desc, build_tau_model, path, "default")
        w = World(key, read_tvel(path), tm, "default", path)
    else:
        par = desc.get("par", "fine")
        if "builtin" in desc:
            path = builtin_tvel(desc["builtin"])
            rws = read_tvel(path)
        else:
            rws = gen_rows(desc)
            path = os.path.join(Scratch.get(), "gen_%d_%d.tvel" % (
                os.getpid(), len(_WORLDS)))
            write_tvel(path, rws)
        tm = taup("creating a model for %s" % key, build_tau_model, path,
                  par, **desc.get("create", {}))
        w = World(key, rws, tm, par, path)
    if len([k for k in _WORLDS if k not in BUILTIN]) > 12:
        for k in [k for k in _WORLDS if k not in BUILTIN][:6]:
            del _WORLDS[k]
    _WORLDS[key] = w
    return w


def prebuild(names=BUILTIN):
    """Build the built-in models in parallel, before the workers fork."""
    import pickle
    todo = [n for n in names if n not in _WORLDS]
    if len(todo) < 2:
        for n in todo:
            world(n)
        return
    kids = []
    for n in todo[1:]:
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            code = 0
            try:
                try:
                    data = pickle.dumps(("ok", world(n).tmod))
                except Violation as e:
                    data = pickle.dumps(("bad", str(e)))
                with os.fdopen(w, "wb") as f:
                    f.write(data)
            except BaseException:
                traceback.print_exc()
                code = 3
            os._exit(code)
        os.close(w)
        kids.append((n, pid, r))
    err = None
    try:
        world(todo[0])
    except Violation as e:
        err = e
    for n, pid, r in kids:
        with os.fdopen(r, "rb") as f:
            data = f.read()
        os.waitpid(pid, 0)
        st, val = pickle.loads(data)
        if st == "bad":
            err = err or Violation(val)
            continue
        path = builtin_tvel(n)
        _WORLDS[n] = World(n, read_tvel(path), val, "default", path)
    if err is not None:
        raise err


_SITES = None


def known_sites():
    """Names of the recorded findings that are identified by a call site:
    lines 'known: property=ID site=NAME what=...'"""
    global _SITES
    if _SITES is None:
        _SITES = {}
        path = os.path.join(VERIF, "known-findings.txt")
        if os.path.exists(path):
            for line in open(path):
                if line.startswith("known: ") and " site=" in line:
                    site, what = line.strip().split(" site=", 1)[1].split(
                        " what=", 1)
                    _SITES[site] = what
    return _SITES


# ---------------------------------------------------------------------------
class Check(object):
    """Base class.  A check defines

    id, rule, quick, thorough (total number of generated cases),
    cases()     a Hypothesis strategy for JSON cases,
    fixed()     a list of further cases that always run,
    run(case)   raises Violation; returns (nontrivial, note).
    """
    id = None
    rule = ""
    quick = 100
    thorough = 1000
    models = BUILTIN
    workers = 8
    case_limit = 240.0
    technique = ""
    assumptions = []

    def __init__(self, tier="quick", seed=1):
        self.tier, self.seed = tier, seed

    def fixed(self):
        return []

    def setup(self):
        """Called in each worker before its first case."""

    def cases(self):
        raise NotImplementedError

    def run(self, case):
        raise NotImplementedError


def run_case(check, case):
    """-> (status, nontrivial, text); status ok / skip / violation"""
    try:
        with time_limit(check.case_limit):
            nt, note = check.run(case)
        return "ok", bool(nt), note
    except Skip as e:
        return "skip", False, str(e)
    except KnownSite as e:
        if e.site in known_sites():
            return "known:" + e.site, True, str(e)
        return "violation", True, str(e)
    except Violation as e:
        return "violation", True, str(e)
    except Timeout:
        return "violation", True, "did not terminate within %g s" % \
            check.case_limit


def _worker(check, idx, nworkers, n_examples, deadline, conn):
    import hypothesis
    from hypothesis import HealthCheck, Phase, settings, given
    stats = {"evaluations": 0, "skipped": 0, "keys": set(), "samples": [],
             "violations": [], "notes": {}, "known": {}}
    fails = {}
    check.worker = idx
    first_fail = [None]
    shrink_cap = 60.0 if check.tier == "quick" else 180.0

    def note(case, st, nt, text):
        stats["evaluations"] += 1
        if st == "skip":
            stats["skipped"] += 1
        if st.startswith("known:"):
            stats["known"][st[6:]] = stats["known"].get(st[6:], 0) + 1
        k = json.dumps(case, sort_keys=True)
        if nt:
            stats["keys"].add(k)
            if len(stats["samples"]) < 3 and len(k) < 3000:
                stats["samples"].append({"case": case, "observed": text})

    def one(case):
        k = json.dumps(case, sort_keys=True)
        now = time.time()
        if k in fails:
            raise Violation(fails[k])
        if first_fail[0] is not None and now - first_fail[0] > shrink_cap:
            return
        if now > deadline and first_fail[0] is None:
            stats["notes"]["time cap"] = 1
            return
        st, nt, text = run_case(check, case)
        note(case, st, nt, text)
        if st == "violation":
            if first_fail[0] is None:
                first_fail[0] = time.time()
            fails[k] = text
            stats["last"] = (case, text)
            raise Violation(text)

    try:
        check.setup()
        fx = check.fixed()
        for i, case in enumerate(fx):
            if i % nworkers != idx:
                continue
            st, nt, text = run_case(check, case)
            note(case, st, nt, text)
            if st == "violation":
                stats["violations"].append((case, text))
        if not stats["violations"] and n_examples > 0:
            rs = "%s-%s-%s" % (check.seed, check.id, idx)
            seedval = random.Random(rs).getrandbits(64)
            test = given(check.cases())(one)
            test = settings(
                max_examples=n_examples, database=None, deadline=None,
                print_blob=False, report_multiple_bugs=False,
                phases=[Phase.generate, Phase.shrink],
                suppress_health_check=list(HealthCheck))(test)
            test = hypothesis.seed(seedval)(test)
            try:
                with open(os.devnull, "w") as null, \
                        contextlib.redirect_stderr(null):
                    test()
            except Violation:
                pass
            except Exception as e:
                # Flaky and the like: what was seen counts all the same
                if not fails:
                    raise e
            if fails:
                # the smallest failing case seen
                k = min(fails, key=lambda s: (len(s), s))
                if "last" in stats and len(json.dumps(
                        stats["last"][0], sort_keys=True)) <= len(k):
                    stats["violations"].append(stats["last"])
                else:
                    stats["violations"].append((json.loads(k), fails[k]))
        stats.pop("last", None)
        res = ("ok", stats)
    except BaseException:
        res = ("error", traceback.format_exc())
    import pickle
    with os.fdopen(conn, "wb") as f:
        f.write(pickle.dumps(res))


def drive(check, n_total, cap):
    """Run a check over all workers; returns merged statistics."""
    import pickle
    deadline = time.time() + cap
    nw = check.workers
    share = [n_total // nw + (1 if i < n_total % nw else 0)
             for i in range(nw)]
    kids = []
    sys.stdout.flush()
    sys.stderr.flush()
    Scratch.get()
    for i in range(nw):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 0
            try:
                os.close(r)
                _worker(check, i, nw, share[i], deadline, w)
            except BaseException:
                traceback.print_exc()
                code = 3
            os._exit(code)
        os.close(w)
        kids.append((pid, r))
    merged = {"evaluations": 0, "skipped": 0, "keys": set(), "samples": [],
              "violations": [], "notes": {}, "known": {}}
    errors = []
    for pid, r in kids:
        with os.fdopen(r, "rb") as f:
            data = f.read()
        os.waitpid(pid, 0)
        if not data:
            errors.append("a worker died")
            continue
        st, s = pickle.loads(data)
        if st == "error":
            errors.append(s)
            continue
        merged["evaluations"] += s["evaluations"]
        merged["skipped"] += s["skipped"]
        merged["keys"] |= s["keys"]
        merged["samples"] += s["samples"]
        merged["violations"] += s["violations"]
        merged["notes"].update(s["notes"])
        for k, n in s["known"].items():
            merged["known"][k] = merged["known"].get(k, 0) + n
    if errors and not merged["violations"]:
        raise RuntimeError("\n".join(errors))
    return merged
