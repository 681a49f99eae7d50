"""What a phase name means, written down a second time.

A phase name is turned into an itinerary of elementary operations on a ray of
ray parameter p, which :mod:`raytrace` integrates:

    ("X", wave, a, b)        cross the depths a..b (monotone; a == b is empty)
    ("T", wave, a, zmax, b)  start downwards at depth a, turn above zmax and
                             come back up to depth b
    ("H", wave, depth)       run along a boundary (head or diffracted wave)

Nothing here looks at the branches, the layers or the parser of TauPy.
"""
import math
import re

import numpy as np

TOKEN = re.compile(r"Pdiff|Sdiff|Pn|Sn|Pg|Sg|[PSpsKIJ]|[cim]|"
                   r"[\^v](?:m|c|i|\d+\.?\d*)|\d+\.?\d*")

MAX_DIFF = math.radians(60.0)
MAX_HEAD = math.radians(20.0)


class NotAPhase(Exception):
    """The name does not describe a path for this source depth."""


def tokens(name):
    out, i = [], 0
    while i < len(name):
        m = TOKEN.match(name, i)
        if m is None:
            raise NotAPhase(name)
        out.append(m.group())
        i = m.end()
    return out


def is_number(tok):
    return tok[0].isdigit()


class Itinerary(object):
    def __init__(self, name, zs, moho, cmb, iocb, radius, discon):
        """discon(text) -> depth of the discontinuity meant by a number."""
        self.name, self.zs = name, zs
        self.moho, self.cmb, self.iocb, self.R = moho, cmb, iocb, radius
        self.discon = discon
        self.ops = []
        self.head = None         # "diff" / "head" when the phase has one
        self.build()

    def depth_of(self, tok):
        if tok[0] in "^v":
            tok = tok[1:]
        if tok == "m":
            return self.moho
        if tok == "c":
            return self.cmb
        if tok == "i":
            return self.iocb
        return self.discon(tok)

    def build(self):
        tk = tokens(self.name) + ["END"]
        z, down = self.zs, True
        X, T, H = (lambda *a: self.ops.append(("X",) + a),
                   lambda *a: self.ops.append(("T",) + a),
                   lambda *a: self.ops.append(("H",) + a))
        i = 0
        while tk[i] != "END":
            leg, nxt = tk[i], tk[i + 1]
            nn = tk[i + 2] if nxt != "END" else None
            if leg in ("p", "s"):
                w = leg.upper()
                if i > 0 and down:
                    raise NotAPhase("downgoing p/s")
                if i == 0 and z == 0:
                    raise NotAPhase("p/s from the surface")
                if nxt == "END" or nxt[0] in "PS":
                    X(w, 0.0, z)
                    z, down = 0.0, True
                elif nxt[0] == "^" or nxt == "m" or is_number(nxt):
                    d = self.depth_of(nxt)
                    if d >= z:
                        raise NotAPhase("below")
                    X(w, d, z)
                    z, down = d, nxt[0] == "^"
                    i += 1
                else:
                    raise NotAPhase(leg + nxt)
            elif leg in ("P", "S"):
                w = leg
                if nxt == "END" or nxt in ("P", "S", "Pn", "Sn"):
                    if down:
                        T(w, z, self.cmb, 0.0)
                    else:
                        X(w, 0.0, z)
                    z, down = 0.0, True
                elif nxt[0] == "v":
                    d = self.depth_of(nxt)
                    if not down or d <= z or d > self.cmb:
                        raise NotAPhase("v")
                    X(w, z, d)
                    z, down = d, False
                    i += 1
                elif nxt[0] == "^":
                    d = self.depth_of(nxt)
                    if d > self.cmb:
                        raise NotAPhase("^ in the core")
                    if down:
                        T(w, z, self.cmb, d)
                    else:
                        if d >= z:
                            raise NotAPhase("^ below")
                        X(w, d, z)
                    z, down = d, True
                    i += 1
                elif nxt == "c":
                    if not down:
                        raise NotAPhase("c going up")
                    X(w, z, self.cmb)
                    z, down = self.cmb, False
                    i += 1
                    if nn not in ("P", "S", "p", "s"):
                        raise NotAPhase("c" + str(nn))
                elif nxt == "K":
                    if not down:
                        raise NotAPhase("K going up")
                    X(w, z, self.cmb)
                    z = self.cmb
                elif nxt == "m" or is_number(nxt):
                    d = self.depth_of(nxt)
                    if d >= self.cmb:
                        raise NotAPhase("conversion in the core")
                    if not down:
                        if d >= z:
                            raise NotAPhase("conversion below")
                        X(w, d, z)
                        z = d
                    elif nn in ("p", "s"):
                        T(w, z, self.cmb, d)
                        z, down = d, False
                    elif nn in ("P", "S"):
                        if d <= z:
                            raise NotAPhase("conversion above")
                        X(w, z, d)
                        z = d
                    else:
                        raise NotAPhase("conversion to what")
                    i += 1
                else:
                    raise NotAPhase(leg + nxt)
            elif leg in ("Pdiff", "Sdiff"):
                w = leg[0]
                if not down or nxt != "END" and nxt[0] not in "PS":
                    raise NotAPhase("diff")
                self.head = "diff" if self.head in (None, "diff") else "mixed"
                X(w, z, self.cmb)
                H(w, self.cmb)
                X(w, 0.0, self.cmb)
                z, down = 0.0, True
            elif leg in ("Pn", "Sn"):
                w = leg[0]
                if not down or z >= self.moho or \
                        nxt != "END" and nxt[0] not in "PS":
                    raise NotAPhase("head")
                self.head = "head" if self.head in (None, "head") else "mixed"
                X(w, z, self.moho)
                H(w, self.moho)
                X(w, 0.0, self.moho)
                z, down = 0.0, True
            elif leg in ("Pg", "Sg"):
                if not down or z >= self.moho:
                    raise NotAPhase("Pg below the Moho")
                if nxt != "END" and nxt[0] not in "PS":
                    raise NotAPhase(leg + nxt)
                T(leg[0], z, self.moho, 0.0)
                z, down = 0.0, True
            elif leg == "K":
                if nxt in ("P", "S"):
                    if down:
                        T("P", z, self.iocb, self.cmb)
                    else:
                        X("P", self.cmb, z)
                    z, down = self.cmb, False
                elif nxt == "K":
                    if down:
                        T("P", z, self.iocb, self.cmb)
                    else:
                        X("P", self.cmb, z)
                    z, down = self.cmb, True
                elif nxt in ("I", "J"):
                    if not down:
                        raise NotAPhase("I going up")
                    X("P", z, self.iocb)
                    z = self.iocb
                elif nxt == "i":
                    if not down:
                        raise NotAPhase("i going up")
                    X("P", z, self.iocb)
                    z, down = self.iocb, False
                    i += 1
                    if nn != "K":
                        raise NotAPhase("i" + str(nn))
                else:
                    raise NotAPhase("K" + nxt)
            elif leg in ("I", "J"):
                w = "P" if leg == "I" else "S"
                if not down or nxt not in ("I", "J", "K"):
                    raise NotAPhase(leg + nxt)
                T(w, z, self.R, self.iocb)
                z, down = self.iocb, nxt != "K"
            else:
                raise NotAPhase(leg)
            i += 1
        if z != 0.0 or not down:
            raise NotAPhase("does not end at the surface")

    # ------------------------------------------------------------------
    def head_p(self, model):
        """Ray parameter of the head/diffracted wave, or None."""
        for op in self.ops:
            if op[0] == "H":
                below = model.slowness(op[2], op[1], "below")
                above = model.slowness(op[2], op[1], "above")
                if self.head == "diff":
                    return above
                # a head wave needs a faster medium below, in which the ray
                # turns right at the boundary
                if below >= above or \
                        model.slowness(op[2] + 0.01, op[1], "below") > below:
                    return None
                return below
        return None

    def curve(self, model, p):
        """(T, Delta, ok) arrays for geometric rays of ray parameter p; for a
        head or diffracted wave without the part along the boundary."""
        p = np.asarray(p, dtype=float)
        T = np.zeros_like(p)
        D = np.zeros_like(p)
        ok = np.ones(p.shape, dtype=bool)
        cache = {}
        for op in self.ops:
            if op in cache:
                t, d, o = cache[op]
            elif op[0] == "X":
                t, d, o = model.through(op[1], op[2], op[3], p)
            elif op[0] == "T":
                _, w, a, zmax, b = op
                t, d, zt, o = model.turn(w, a, zmax, p)
                t, d = 2 * t, 2 * d
                if b < a:
                    t2, d2, o2 = model.through(w, b, a, p)
                    t, d, o = t + t2, d + d2, o & o2
                elif b > a:
                    with np.errstate(invalid="ignore"):
                        o = o & (zt > b + 1e-9)
                    pc = np.where(o, p, 0.0)
                    t2, d2, _ = model.through(w, a, b, pc)
                    t, d = t - t2, d - d2
            else:
                continue
            cache[op] = (t, d, o)
            T = T + t
            D = D + d
            ok = ok & o
        return T, D, ok

    def segments(self, model, p):
        """For one geometric ray: the monotone pieces (wave, from, to)."""
        out = []
        for op in self.ops:
            if op[0] == "X":
                _, w, a, b = op
                if a != b:
                    out.append((w, a, b))
            elif op[0] == "T":
                _, w, a, zmax, b = op
                _, _, zt, ok = model.turn(w, a, zmax, np.array([p]))
                z = float(zt[0])
                if not ok[0] or not z == z:
                    return None
                if z > a:
                    out.append((w, a, z))
                if z > b:
                    out.append((w, z, b))
            else:
                out.append((op[1], op[2], op[2]))
        # orient the crossings
        res, z = [], self.zs
        for w, a, b in out:
            if a == b:
                res.append((w, a, b))
                continue
            if abs(a - z) > 1e-9 and abs(b - z) <= 1e-9:
                a, b = b, a
            res.append((w, a, b))
            z = b
        return res
