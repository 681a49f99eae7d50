"""Generators of models, source depths, distances and phases."""
import random

from hypothesis import strategies as st

import common
from common import BUILTIN, builtin_tvel, gen_rows
from raytrace import RefModel, read_tvel

TTALL = ["p", "P", "Pn", "Pdiff", "PKP", "PKiKP", "PKIKP", "s", "S", "Sn",
         "Sdiff", "SKS", "SKIKS", "PcP", "pP", "pPdiff", "pPKP", "pPKIKP",
         "pPKiKP", "sP", "sPdiff", "sPKP", "sPKIKP", "sPKiKP", "sS",
         "sSdiff", "sSKS", "sSKIKS", "ScS", "pS", "pSdiff", "pSKS",
         "pSKIKS", "ScP", "SKP", "SKIKP", "PKKP", "PKIKKIKP", "SKKP",
         "SKIKKIKP", "PP", "PKPPKP", "PKIKPPKIKP", "SKiKP", "PcS", "PKS",
         "PKIKS", "PKKS", "PKIKKIKS", "SKKS", "SKIKKIKS", "SKSSKS",
         "SKIKSSKIKS", "SS", "SP", "PS"]
GROUPS = {
    "ttp": ["p", "P", "Pn", "Pdiff", "PKP", "PKiKP", "PKIKP"],
    "tts": ["s", "S", "Sn", "Sdiff", "SKS", "SKIKS"],
    "ttp+": ["p", "P", "Pn", "Pdiff", "PKP", "PKiKP", "PKIKP", "PcP", "pP",
             "pPdiff", "pPKP", "pPKIKP", "pPKiKP", "sP", "sPdiff", "sPKP",
             "sPKIKP", "sPKiKP"],
    "tts+": ["s", "S", "Sn", "Sdiff", "SKS", "SKIKS", "sS", "sSdiff",
             "sSKS", "sSKIKS", "ScS", "pS", "pSdiff", "pSKS", "pSKIKS"],
    "ttbasic": [n for n in TTALL if n not in (
        "SKiKP", "PcS", "PKS", "PKIKS", "PKKS", "PKIKKIKS", "SKKS",
        "SKIKKIKS", "SKSSKS", "SKIKSSKIKS", "SS", "SP", "PS")],
    "ttall": TTALL,
}
MORE = ["PPP", "SSS", "sPS", "pPS", "Pg", "Sg", "PgPg", "PcSP", "ScSP",
        "PcPPcP", "ScSScS", "PKIIKP", "PKJKP", "SKJKS", "PKiKKiKP", "PKKKP",
        "SKKKS", "pPcP", "sScS", "pScS", "PKPPcP", "PPS", "PSS", "SPS",
        "PSPS", "PnPn", "SnSn", "pPn", "sSn", "sPn", "PPn", "SnS",
        "SKPPKS", "PKSSKP", "PmP", "SmS", "PmS", "Pms", "Sms", "Smp", "SmP",
        "P^mP", "S^mS", "PvmP", "PvmS", "pPKKP", "sSKKS", "PKiKPPKiKP",
        "PKKSSKKP", "pPP", "sSS", "pSS", "PKIKPPKPPKP", "SKSP", "PSKS",
        "PKJKKJKP", "PcPPKP", "PcPP", "ScSS", "SScS", "PPcP", "PKKKKP",
        "P^mPcP", "PPdiff", "PdiffP", "SdiffS", "PdiffPdiff", "PSdiff"]
NUMBERED = ["P%ss", "S%sp", "P^%sP", "S^%sS", "p^%sP", "s^%sS", "Pv%sP",
            "Pv%sp", "SvP%s", "P%sS", "S%sP", "P^%sPcP", "PP^%sP", "P%ssP",
            "ScS^%sScS", "PKP^%sPKP", "Sv%sS", "p%sP", "s%sP", "Pv%ss",
            "PcP%ss", "P^%sPP", "S^%sScS", "sv%sS",
            "S^%sP", "P^%sS", "s^%sP", "p^%sS", "Sv%sP", "Sv%sp", "ScP^%sS",
            "SS^%sP", "pS^%sP", "P^%sSP"]


def gen_desc(seed, lvz=True, radius=True, par="fine"):
    rnd = random.Random("desc-%s" % seed)
    d = {"gen": rnd.randint(0, 10 ** 6), "par": par}
    d["lvz"] = rnd.choice([0.0, 0.8]) if lvz else 0.0
    d["R"] = float(rnd.randint(5800, 8000)) \
        if radius and rnd.random() < .4 else 6371.0
    return d


def pool(check, n, **kw):
    w = getattr(check, "worker", 0)
    return [gen_desc("%s-%s-%s-%s" % (check.id, check.seed, w, i), **kw)
            for i in range(n)]


_ROWS = {}


def rows_of(desc):
    k = str(desc)
    if k not in _ROWS:
        name = desc if isinstance(desc, str) else desc.get("builtin")
        _ROWS[k] = read_tvel(builtin_tvel(name)) if name else gen_rows(desc)
    return _ROWS[k]


_INFO = {}


def info(desc):
    """(discontinuities, moho, cmb, iocb, R, other row depths)"""
    k = str(desc)
    if k not in _INFO:
        m = RefModel(rows_of(desc))
        d = m.discontinuities()
        near = lambda x: min(d, key=lambda b: abs(b - x))
        _INFO[k] = (d, near(35.), near(2889.), near(5153.9), m.R,
                    sorted(set(r[0] for r in m.rows)))
    return _INFO[k]


def models(check, n_gen=3, builtin=BUILTIN, **kw):
    return st.sampled_from(list(builtin) * 2 + pool(check, n_gen, **kw))


@st.composite
def depths(draw, desc, core=False, surface=True):
    d, moho, cmb, iocb, R, rowd = info(desc)
    zmax = R if core else cmb
    kind = draw(st.integers(0, 9))
    if kind == 0 and surface:
        return 0.0
    if kind <= 2:
        return float(draw(st.integers(1, 700)))
    if kind <= 4:
        return round(draw(st.floats(0.1, 800.0)), draw(st.integers(0, 6)))
    if kind == 5:
        return round(draw(st.floats(1.0, zmax - 2.0)), 3)
    if kind == 6:
        c = [x for x in d if x < zmax]
        return draw(st.sampled_from(c))
    if kind == 7:
        c = [x for x in rowd if 0 < x < zmax]
        return draw(st.sampled_from(c))
    if kind == 8:
        c = [x for x in rowd if 0 < x < zmax]
        off = draw(st.sampled_from([1e-3, 1e-2, 0.3, 2.0, -1e-3, -1e-2, -0.3,
                                    -2.0]))
        z = draw(st.sampled_from(c)) + off
        return z if 0 < z < zmax - 1e-4 else 10.0
    return round(draw(st.floats(0.01, 3.0)), 3)


@st.composite
def sources(draw, desc):
    """Source depths, also at boundaries of slowness layers (World.source)."""
    if draw(st.integers(0, 4)):
        return draw(depths(desc))
    return ["layer", draw(st.sampled_from("PS")),
            round(draw(st.floats(0, 1)), 4),
            draw(st.sampled_from([0.0, 0.0, 0.0, 3e-7, -3e-7, 1e-5, -1e-5]))]


def aimed():
    """A distance described by the curve of the case's first phase: that of
    the ray at a fraction of the ray parameter range, or one in a gap or next
    to an end of the curve; see rays.resolve."""
    f = st.floats(0, 1).map(lambda x: round(x, 4))
    return st.one_of(
        st.tuples(st.just("p"), f, st.just(0)).map(list),
        st.tuples(st.just("jump"), f, st.integers(0, 7)).map(list))


def distances():
    return st.one_of(
        st.integers(1, 179).map(float),
        st.floats(0.5, 179.5).map(lambda x: round(x, 4)),
        st.floats(0.2, 30).map(lambda x: round(x, 3)),
        st.floats(95, 179.9).map(lambda x: round(x, 4)))


@st.composite
def numbered(draw, desc, spread=True):
    """A phase with a discontinuity depth in its name."""
    d, moho, cmb, iocb, R, rowd = info(desc)
    ds = [x for x in d if x < cmb] or [d[0]]
    z = draw(st.sampled_from(ds))
    t = draw(st.sampled_from(NUMBERED))
    txt = ("%g" % round(z)) if abs(z - round(z)) < 1e-9 else "%r" % z
    if spread and draw(st.booleans()):
        txt = "%d" % round(z)
    return t % txt


@st.composite
def composite_phase(draw):
    lead = draw(st.sampled_from(["", "", "", "p", "s"]))
    legs = draw(st.lists(st.sampled_from(
        ["P", "S", "P", "S", "PcP", "ScS", "PcS", "ScP", "PKP", "SKS", "PKIKP",
         "PKiKP", "SKIKS", "PKKP", "SKKS", "PKS", "SKP", "P^mP", "S^mS",
         "PKJKP", "SKiKS", "PKIIKP"]), min_size=1, max_size=3))
    return lead + "".join(legs)


@st.composite
def phases(draw, desc):
    k = draw(st.integers(0, 9))
    if k <= 4:
        return draw(st.sampled_from(TTALL))
    if k <= 6:
        return draw(st.sampled_from(MORE))
    if k <= 8:
        return draw(numbered(desc))
    return draw(composite_phase())


def sampling(seed):
    """Random settings of TauP_Create."""
    rnd = random.Random("sampling-%s" % seed)
    return {"min_delta_p": rnd.choice([0.05, 0.1, 0.3, 1.0]),
            "max_delta_p": rnd.choice([5.0, 11.0, 20.0, 40.0]),
            "max_depth_interval": rnd.choice([30.0, 50.0, 115.0, 250.0,
                                              400.0]),
            "max_range_interval": rnd.choice([1.0, 2.5, 4.0, 6.0]),
            "max_interp_error": rnd.choice([0.01, 0.05, 0.2, 1.0])}
