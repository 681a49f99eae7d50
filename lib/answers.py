"""Answers of a model to a list of queries, as plain numbers; as a script,
those of a model that is created or loaded in this process."""
import json
import sys


def points(l):
    return None if l is None else [
        [float(t.time), float(t.distRadian), float(t.depth)] for t in l]


def answers(tau, queries):
    out = []
    for zs, deg, phases, kind in queries:
        arr = getattr(tau, kind)(zs, deg, phases)
        out.append([[a.name, a.puristName, float(a.time), float(a.rayParam),
                     float(a.dist), float(a.takeoffAngle),
                     float(a.incidentAngle), float(a.sourceDepth),
                     points(a.pierce), points(a.path)] for a in arr])
    return out


def wrap(model):
    from taupy.tau import TauPyModel
    t = TauPyModel.__new__(TauPyModel)
    t.verbose = False
    t.model = model
    return t


if __name__ == "__main__":
    import common
    job = json.loads(sys.stdin.read())
    with common.quiet():
        if job["load"]:
            from taupy.tau import TauPyModel
            t = TauPyModel(job["load"])
        else:
            from taupy.TauP_Create import TauP_Create
            for path, par in job.get("before", []):
                c = TauP_Create(path, None, **par)
                c.createTauModel(c.loadVMod())
            c = TauP_Create(job["create"], None, **job["par"])
            t = wrap(c.createTauModel(c.loadVMod()))
        r = answers(t, job["queries"])
    print(json.dumps(r))
