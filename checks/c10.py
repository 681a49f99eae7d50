import string

from hypothesis import strategies as st

import strat
from c03 import same
from common import DEG, Check, Skip, Violation, taup, world
from refphase import NotAPhase

TOK = ["P", "S", "p", "s", "K", "I", "J", "c", "m", "i", "^", "v", "n", "g",
       "diff", "410", "660", "0", "35.5", ".", "2889", "6371", "99999", "k",
       "kmps", "Pn", "Pdiff", "Pg", "tt", "all", "1e3", "-3", "d", "if",
       "^m", "vc", "^410", "v660", "Kc", "iK", "mP"]
USED = set("PSpsKIJcmignidfkv^0123456789.+-e_")
METHODS = ["get_travel_times", "get_pierce_points", "get_ray_paths"]


def names(m):
    tok = st.lists(st.sampled_from(TOK), min_size=0, max_size=8).map("".join)
    uni = st.text(max_size=8)
    asc = st.text(alphabet=string.printable, max_size=12)
    kmps = st.one_of(
        st.sampled_from(["", "0", "-3", "nan", "inf", "1e-320", "1e400", "+4",
                         "0x3", "3..5", "3 ", " 3", ".", "1_0", "-0.0", "³",
                         "٣", "1e", "P", "3P", "--2"]),
        st.floats().map(repr)).map(lambda x: x + "kmps")

    @st.composite
    def mutated(draw):
        x = draw(strat.phases(m))
        i = draw(st.integers(0, len(x)))
        how = draw(st.integers(0, 4))
        t = draw(st.sampled_from(TOK + ["", "x", " ", "\n", "%s", "é", "P1"]))
        if how == 0:
            return x[:i] + t + x[i:]
        if how == 1:
            return x[:i] + x[i + 1:]
        if how == 2:
            return x[:i] + t + x[i + 1:]
        if how == 3:
            return x[:i] + x[:i] + x[i:]
        return (x * draw(st.integers(1, 6)))[i:]
    long = st.tuples(st.sampled_from(TOK), st.integers(20, 200)).map(
        lambda a: a[0] * a[1])
    return st.one_of(tok, tok, mutated(), mutated(), uni, asc, kmps, long)


def velocity(n):
    """Whether it is the name of a surface wave with its number written in
    one of the ways that Python reads."""
    try:
        return n.endswith("kmps") and float(n[:-4]) > 0
    except ValueError:
        return False


class C(Check):
    id = "C10"
    quick, thorough = 900, 40000
    rule = ("a case is a model, a source depth anywhere in the planet, a "
            "distance, 1-3 texts (token soup, mutated names, unicode, "
            "surface-wave look-alikes, long texts) and valid phases in a "
            "given order, asked by one of the three queries; non-trivial: "
            "the texts contain one that is no well-formed phase")
    technique = ("fuzzing of phase names with structured and mutational "
                 "generators; differential against the query without them")

    def cases(self):
        @st.composite
        def case(draw):
            m = draw(strat.models(self, n_gen=2))
            k = draw(st.integers(0, 4))
            zs = 0.0 if k == 0 else draw(strat.depths(m, core=k == 4))
            if k == 3:
                d, moho, cmb, iocb, R, rowd = strat.info(m)
                zs = draw(st.one_of(
                    st.sampled_from(sorted(set(d + rowd))),
                    st.floats(0, 1).map(lambda x: x * (R - 1e-6)),
                    st.sampled_from([R - 1e-5, R - 1e-3, R - 1.0]),
                    st.sampled_from([cmb + x for x in (
                        1e-4, 0.01, 0.3, 0.9, 4.0, 100.0)] +
                        [iocb - x for x in (1e-4, 0.01, 0.5, 7.0)])))
            return {"model": m, "zs": zs,
                    "deg": draw(st.one_of(
                        strat.distances(),
                        st.sampled_from([0.0, 180.0, 360.0, -20.0, 1e-9]))),
                    "names": draw(st.lists(names(m), min_size=1,
                                           max_size=3)),
                    "valid": draw(st.lists(strat.phases(m), max_size=2)),
                    "first": draw(st.booleans()),
                    "method": draw(st.sampled_from(METHODS))}
        return case()

    def fixed(self):
        return [{"model": m, "zs": zs, "deg": deg, "names": ["Sx", "sK"],
                 "valid": ["S", "s", "SKS", "sS", "SKP", "sP", "P"],
                 "first": False, "method": METHODS[0]}
                for m, zz in (("iasp91", (2889.001, 2889.5, 3500.0, 5153.4)),
                              ("ak135", (2891.6, 2892.0, 5153.0)))
                for zs in zz for deg in (2.0, 20.0, 60.0, 120.0)]

    def run(self, case):
        w = world(case["model"])
        zs, deg = case["zs"], case["deg"]
        bad, good = case["names"], case["valid"]
        liquid = w.cmb + 1e-5 < zs < w.iocb - 1e-5
        tt = [n for n in bad if n.lower() in strat.GROUPS]
        q = bad + good if case["first"] else good + bad
        what = "%s(%r, %r, %r)" % (case["method"], zs, deg, q)
        got = taup(what, getattr(w.tau, case["method"]), zs, deg, q)
        skip = set(bad)
        nt = False
        for n in set(bad):
            if n in good or n.lower() in strat.GROUPS:
                skip.discard(n)
                continue
            arr = [a for a in got if a.name == n]
            if not set(n) <= USED and arr and not velocity(n):
                raise Violation("%s: %d arrivals of %r" % (
                    what, len(arr), n))
            try:
                if zs < w.cmb:
                    w.itinerary(n, zs)
                else:
                    nt = nt or not set(n) <= USED
            except (NotAPhase, ValueError):
                nt = True
        known = set(bad) | set(good)
        if not tt:
            for a in got:
                if a.name not in known:
                    raise Violation("%s: arrival of %r" % (what, a.name))
        if liquid:
            for a in got:
                if a.name[0] in "sS":
                    raise Violation("%s: arrival of %r, an S wave in the "
                                    "liquid core" % (what, a.name))
        # the others are as without the text
        rest = [n for n in q if n not in skip]
        if rest != q:
            ref = taup("%s(%r, %r, %r)" % (case["method"], zs, deg, rest),
                       getattr(w.tau, case["method"]), zs, deg, rest)
            if not same([a for a in got if a.name not in skip],
                        [a for a in ref if a.name not in skip]):
                raise Violation("%s: arrivals of %r change to %s" % (
                    what, rest, [(a.name, a.time) for a in got]))
        return nt, "%d arrivals" % len(got)


CHECK = C
