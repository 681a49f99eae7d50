"""One-way integrals over slowness layers p = A r^B in closed form."""
import math

import numpy as np


def layer(rt, rb, pt, pb, p):
    """(time, distance, relative and angular rounding error) of rays with parameters p (array, all
    <= min(pt, pb)) through a layer from radius rt down to rb with the
    slownesses pt and pb."""
    p = np.asarray(p, dtype=float)
    if rt == rb:
        z = np.zeros_like(p)
        return z, z, z, z
    if rb == 0.0:
        # a sphere of constant velocity; only the ray to its centre
        z = np.zeros_like(p)
        return z + pt, z + math.pi / 2, z, z
    L = math.log(rt / rb)
    B = math.log(pt / pb) / L

    def leg(eta):
        q = np.sqrt(np.maximum((eta - p) * (eta + p), 0.0))
        # rounding of eta^2 - p^2 close to the turning point
        r = np.where(p == eta, 0.0, 3e-8 / np.maximum(1.0, q / eta * 1e8))
        return q, np.arctan2(q, p), r
    (qt, at, et), (qb, ab, eb) = leg(pt), leg(pb)
    if pt == pb:
        return pt * pt / qt * L, p / qt * L, np.zeros_like(p), et
    c = 4e-16 * (1 / abs(B) + rt / (rt - rb) + pt / abs(pt - pb))
    return (qt - qb) / B, (at - ab) / B, np.zeros_like(p) + c, \
        (et + eb) / abs(B)


def branch(R, layers, top, bot, p, pmax):
    """Sums over the layers between two depths for the rays with parameters
    p: (time, distance, number of layers, rounding errors of time and
    distance).  Rays with p > pmax
    do not get there; others stop below the first layer they turn in."""
    p = np.asarray(p, dtype=float)
    T, D = np.zeros_like(p), np.zeros_like(p)
    n = np.zeros_like(p)
    eT, eD = np.zeros_like(p), np.zeros_like(p)
    alive = p <= pmax
    for l in layers:
        if l.botDepth <= top and not (l.topDepth == l.botDepth == top):
            continue
        if l.topDepth >= bot:
            break
        if l.topDepth == l.botDepth == top:
            # the boundary itself belongs to the range above
            continue
        alive = alive & (p <= min(l.topP, l.botP))
        if not alive.any():
            break
        t, d, c, e = layer(R - l.topDepth, R - l.botDepth, l.topP, l.botP,
                        np.where(alive, p, 0.0) if l.botP > 0 else p * 0)
        T += np.where(alive, t, 0.0)
        D += np.where(alive, d, 0.0)
        eT += np.where(alive, c * t + (1e-15 + e) * l.topP, 0.0)
        eD += np.where(alive, c * d + 1e-15 + e, 0.0)
        n += alive
    return T, D, n, (eT, eD)
