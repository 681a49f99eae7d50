import re

from hypothesis import strategies as st

import strat
from c05 import digest
from common import Check, Skip, Violation, quiet, world

KINDS = ("Time", "Pierce", "Path")
BAD_DEPTH = [-1.0, 2.0e4, 6371.0, 3000.0, float("nan")]
BAD_ADD = [-10.0, 1.0e5, float("nan")]
PHASES = ["P", "S", "PP", "PcP", "ScS", "PKP", "SKS", "PKiKP", "pP", "sS",
          "Pdiff", "PKIKP", "P410s", "P^660P", "Pn", "2kmps", "ttp", "tts+",
          "ttbasic", "ScSScS", "SKKS", "Qx", "p", "s", "pPcP", "PS"]


def calculator(kind, tau, phases, depth, deg, pos):
    import importlib
    mod = importlib.import_module("taupy.TauP_" + kind)
    return getattr(mod, "TauP_" + kind)(
        tau.model, phases, depth, deg, coordinate_list=pos)


def outcome(fn):
    """Exception class name or None, and what was printed."""
    with quiet() as out:
        try:
            fn()
            return None, out.getvalue()
        except Exception as e:
            return type(e).__name__, out.getvalue()


class C(Check):
    id = "C25"
    quick, thorough = 500, 14000
    rule = ("a case is a model, one of the three calculators and a history of "
            "2 to 6 steps on one object; a step changes some of: phase list, "
            "depth, distance or coordinates, added depths, and runs; or asks "
            "directly for another depth and distance; or has an invalid "
            "setting so that the run fails; each result is compared with that "
            "of a new object; non-trivial: after a change the object reported "
            "at least one arrival")
    technique = ("stateful property-based testing: a reused calculator "
                 "against a new one after every step")

    def cases(self):
        @st.composite
        def case(draw):
            m = draw(strat.models(self, 2))
            kind = draw(st.sampled_from(KINDS))
            name = st.one_of(st.sampled_from(PHASES), strat.phases(m))
            plist = st.one_of(
                st.lists(name, min_size=1, max_size=3),
                st.lists(st.sampled_from(["P", "S", "PcP"]), min_size=1,
                         max_size=3), st.just([]))
            dep = st.one_of(strat.depths(m), st.sampled_from(
                [0.0, 0, 10.0, 100.0, 300.0, 300]))
            degs = st.one_of(strat.distances(), st.sampled_from(
                [30.0, 60.0, 0.0, 180.0, 200.0]))
            coord = st.tuples(st.integers(-89, 89), st.integers(-179, 359),
                              st.integers(-89, 89),
                              st.integers(-179, 359)).map(list)
            adds = st.lists(st.one_of(
                st.sampled_from([200.0, 410.0, 1000.0, 0.0, 2000.0]),
                st.integers(1, 2800).map(float)), max_size=2)

            def place():
                if draw(st.integers(0, 5)) == 0:
                    return {"deg": None, "pos": draw(coord)}
                return {"deg": draw(degs), "pos": None}
            # few values of each, so that they come back within a history
            ds = [draw(dep) for i in range(2)]
            ls = [draw(plist) for i in range(2)]
            asets = [draw(adds), []]
            steps = []
            for i in range(draw(st.integers(2, 6))):
                if not i or draw(st.integers(0, 7)):
                    s = {"op": "run"}
                    if not i:
                        s.update(place(), phases=ls[0], depth=ds[0],
                                 add=draw(st.sampled_from(asets)))
                    else:
                        for k in draw(st.sets(st.sampled_from(
                                ["phases", "depth", "place", "add"]),
                                min_size=1, max_size=3).map(sorted)):
                            if k == "phases":
                                s[k] = draw(st.sampled_from(ls)) if draw(
                                    st.booleans()) else draw(plist)
                            elif k == "depth":
                                s[k] = draw(st.sampled_from(ds))
                            elif k == "add":
                                s[k] = draw(st.sampled_from(asets))
                            else:
                                s.update(place())
                        r = draw(st.integers(0, 11))
                        if r == 0:
                            s["depth"] = draw(st.sampled_from(BAD_DEPTH))
                        elif r == 1:
                            s["add"] = asets[0] + [draw(
                                st.sampled_from(BAD_ADD))]
                        elif r == 2:
                            s["deg"], s["pos"] = None, None
                else:
                    s = {"op": "direct", "depth": draw(st.sampled_from(ds)),
                         "deg": draw(degs)}
                steps.append(s)
            return {"model": m, "kind": kind, "steps": steps}
        return case()

    def fixed(self):
        for b in ("iasp91", "ak135"):
            m = {"builtin": b}
            for kind in KINDS:
                one = {"op": "run", "phases": ["P", "S", "PcP"],
                       "depth": 100.0, "deg": 50.0, "pos": None,
                       "add": [200.0]}
                for s in ({"phases": []}, {"phases": ["PcP"]}, {"add": []},
                          {"add": [1000.0]}, {"add": [0.0]},
                          {"depth": 0.0}, {"depth": 300}, {"deg": 60.0},
                          {"depth": 2.0e4}, {"add": [200.0, -10.0]},
                          {"deg": None}, {"add": [200.0, 1000.0]},
                          {"deg": None, "pos": [0, 0, 0, 70]}):
                    yield {"model": m, "kind": kind, "steps": [
                        one, dict(s, op="run"),
                        {"op": "run", "phases": ["P", "PcP"]},
                        {"op": "run", "depth": 100.0, "add": [],
                         "deg": 50.0},
                        {"op": "direct", "depth": 300.0, "deg": 50.0},
                        {"op": "run", "depth": 300.0}]}

    def run(self, case):
        w = world(case["model"])
        kind = case["kind"]
        cur = {"phases": [], "depth": 0.0, "deg": None, "pos": None,
               "add": []}
        obj = None
        hits, texts = 0, []
        before = known = None
        for n, s in enumerate(case["steps"]):
            cur = dict(cur, **{k: v for k, v in s.items() if k != "op"})
            if not 0 <= cur["depth"] < w.cmb and \
                    cur["depth"] not in BAD_DEPTH and \
                    cur["depth"] == cur["depth"]:
                raise Skip("outside of the domain")
            # a new object with these settings
            new = calculator(kind, w.tau, list(cur["phases"]), cur["depth"],
                             cur["deg"], cur["pos"])
            new.addDepth = list(cur["add"])
            want = outcome(lambda: new.run(printOutput=True))
            # the old one
            if obj is None:
                obj = calculator(kind, w.tau, list(cur["phases"]),
                                 cur["depth"], cur["deg"], cur["pos"])
                obj.addDepth = list(cur["add"])
            what = "a TauP_%s object, step %d of %r" % (
                kind, n + 1, case["steps"][:n + 1])
            if s["op"] == "direct":
                # arrivals only: what is printed goes by the settings of run()
                cur["pos"] = None
                if n and known is not None:
                    cur["phases"] = known
                new = calculator(kind, w.tau, list(cur["phases"]),
                                 cur["depth"], cur["deg"], None)
                new.addDepth = list(cur["add"])
                want = outcome(lambda: new.run())

                def go():
                    obj.depthCorrect(cur["depth"])
                    obj.calculate(cur["deg"])
                got = outcome(go)
                self.put(obj, cur)
                want, got = (want[0], ""), (got[0], "")
            else:
                self.put(obj, cur)
                got = outcome(lambda: obj.run(printOutput=True))
                # a direct request goes by the phase list of the last run
                known = list(cur["phases"])
            if got[0] != want[0]:
                raise Violation("%s: the run ends with %s, for a new object "
                                "with %s" % (what, got[0] or "success",
                                             want[0] or "success"))
            if got[0]:
                continue
            a, b = digest(obj.arrivals), digest(new.arrivals)
            if a != b:
                raise Violation("%s: %s, a new object gives %s" % (
                    what, self.brief(a, b), self.brief(b, a)))
            if s["op"] == "run" and self.text(got[1]) != self.text(want[1]):
                raise Violation("%s: prints %r, a new object %r" % (
                    what, got[1][:300], want[1][:300]))
            if before is not None and a and b != before:
                hits += 1
            before = a
            texts.append("%s %r z=%r d=%r: %d" % (
                kind, cur["phases"], cur["depth"],
                cur["pos"] or cur["deg"], len(a)))
        return hits > 0, "; ".join(texts)[:300]

    @staticmethod
    def text(t):
        # whether a skipped phase is announced once or twice is no result, and
        # 0 km is 0.0 km
        return [re.sub(r" (\d+) km deep", r" \1.0 km deep", x) for x in t.split("\n") if not x.startswith("Error with")]

    @staticmethod
    def put(obj, cur):
        obj.phaseList = list(cur["phases"])
        obj.depth = float(cur["depth"])
        obj.degrees = cur["deg"]
        p = cur["pos"] or [None] * 4
        obj.eventLat, obj.eventLon, obj.stationLat, obj.stationLon = p
        obj.addDepth = list(cur["add"])

    @staticmethod
    def brief(a, b):
        extra = [x for x in a if x not in b]
        return "%d arrivals (%s)" % (len(a), ", ".join(
            "%s %.3f s with %d pierce, %d path points" % (
                x[0], x[2], len(x[9]), len(x[10])) for x in extra[:3])
            or "in another order")


CHECK = C
