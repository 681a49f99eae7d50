"""Random radially symmetric planets, written as .tvel rows.

A model is drawn from a small dict of numbers so that a case stays readable
and shrinks well; :func:`rows` turns it into (depth, vp, vs, rho) rows.
"""


def rows(spec):
    """spec: {"R", "layers": [[thickness, vp_top, vp_bot, vs_top, vs_bot],..]}
    -> rows with repeated depths at the discontinuities."""
    out = []
    z = 0.0
    n = len(spec["layers"])
    for k, (h, p0, p1, s0, s1) in enumerate(spec["layers"]):
        bot = spec["R"] if k == n - 1 else round(z + h, 6)
        rho = 3.0 if s0 else 10.0
        if out and out[-1][:3] == (z, p0, s0):
            pass
        else:
            out.append((z, p0, s0, rho))
        out.append((bot, p1, s1, rho))
        z = bot
    return out


def write_tvel(path, rws, header=("generated P", "generated S")):
    with open(path, "w") as f:
        for h in header:
            f.write(h + "\n")
        for r in rws:
            f.write("%r %r %r %r\n" % tuple(r))


def random_spec(rnd, lvz=0.0, radius=6371.0, detail=2):
    """A planet with crust, mantle, fluid outer core, solid inner core."""
    k = radius / 6371.0
    u = lambda a, b: round(rnd.uniform(a, b), 3)
    layers = []
    # crust
    moho = u(20, 60)
    ncr = rnd.choice([1, 1, 2])
    v = u(5.0, 6.2)
    h = moho / ncr
    for i in range(ncr):
        vb = round(v + u(0.0, 0.3), 3)
        rat = u(1.65, 1.85)
        layers.append([round(h * k, 3), v, vb, round(v / rat, 3),
                       round(vb / rat, 3)])
        v = round(vb + u(0.3, 0.7), 3)
    # mantle
    cmb = u(2600, 3100)
    z = sum(l[0] for l in layers) / k
    v = u(7.7, 8.2)
    ndis = rnd.choice([0, 1, 2])
    cuts = sorted(u(150, 900) for _ in range(ndis)) + [cmb]
    for i, c in enumerate(cuts):
        if c - z < 30:
            continue
        npiece = rnd.randint(1, detail)
        pieces = [(c - z) / npiece] * npiece
        zone = -1
        if rnd.random() < lvz and z < 1000 and pieces[0] > 200:
            hz = u(40, min(250, pieces[0] - 50))
            zone = rnd.choice([0, 1])
            pieces[0] -= hz
            pieces.insert(zone, hz)
            kind = rnd.choice(["PS", "P", "S"])
        elif rnd.random() < lvz / 3 and c == cmb and pieces[-1] > 600:
            hz = u(80, 300)
            pieces[-1] -= hz
            pieces.append(hz)
            zone = len(pieces) - 1
            kind = rnd.choice(["PS", "P", "S"])
        rat = u(1.74, 1.84)
        st = round(v / rat, 3)
        for j, hh in enumerate(pieces):
            if j == zone:
                vb, sb = v, st
                if "P" in kind:
                    vb = round(v - hh * u(0.0, 0.002), 3)
                else:
                    vb = round(v + hh * u(0.0005, 0.0015), 3)
                if "S" in kind:
                    sb = round(st - hh * u(0.0, 0.0015), 3)
                else:
                    sb = round(st + hh * u(0.0003, 0.0008), 3)
            else:
                vb = round(v + hh * u(0.0015, 0.0028), 3)
                sb = round(st + hh * u(0.0008, 0.0014), 3)
            layers.append([round(hh * k, 3), v, vb, st, sb])
            z += hh
            v, st = vb, sb
        v = round(v + u(0.2, 0.9), 3)
    # outer core
    iocb = u(4900, 5300)
    v = u(7.8, 8.3)
    npiece = rnd.randint(1, detail)
    for j in range(npiece):
        hh = (iocb - z) / (npiece - j)
        vb = round(v + hh * u(0.0007, 0.0011), 3)
        layers.append([round(hh * k, 3), v, vb, 0.0, 0.0])
        z += hh
        v = vb
    # inner core
    v = round(v + u(0.4, 1.0), 3)
    vb = round(v + u(0.05, 0.3), 3)
    s = u(3.3, 3.7)
    layers.append([round((6371 - z) * k, 3), v, vb, s,
                   round(s + u(0.02, 0.2), 3)])
    return {"R": radius, "layers": layers}
