"""Tables of velocities (rows of .tvel files), valid ones and their text."""
from hypothesis import strategies as st


@st.composite
def valid_rows(draw, max_segments=8, min_segments=1):
    """[[depth, vp, vs, rho], ...] of a physical model of any planet."""
    R = draw(st.one_of(
        st.just(6371.0), st.just(6371.0),
        st.sampled_from([1737.1, 3389.5, 6378.137, 6052.0, 25000.0, 70000.0]),
        st.floats(200.0, 80000.0).map(lambda x: round(x, 2))))
    n = draw(st.integers(min_segments, max_segments))
    dec = draw(st.sampled_from([0, 1, 3, 6]))
    special = st.sampled_from([0.5, 20.0, 35.0, 99.0, 100.5, 410.0, 660.0,
                               2889.0, 2891.5, 5149.5, 5153.9])
    cut = st.one_of(st.floats(0.001, 1.0).map(lambda x: x * R), special)
    cuts = sorted(set(round(c, dec) for c in draw(
        st.lists(cut, min_size=n - 1, max_size=n - 1))))
    cuts = [c for c in cuts if 0 < c < R - 1e-3]
    v = st.one_of(st.floats(0.3, 14.0).map(lambda x: round(x, 4)),
                  st.integers(1, 13).map(float))
    rat = st.floats(0.05, 1.0)
    out = []
    z = 0.0
    prev = None
    for b in cuts + [R]:
        top = None
        if prev is not None and draw(st.integers(0, 2)):
            # no discontinuity, or one of a single property
            top = list(prev)
            k = draw(st.sampled_from([None, None, None, 0, 1, 2]))
            if k == 0:
                top[0] = max(draw(v), top[1])
            elif k == 1:
                top[1] = round(top[0] * draw(rat), 4)
            elif k == 2:
                top[2] = draw(v)
        if top is None:
            fluid = draw(st.integers(0, 3)) == 0
            p = draw(v)
            top = [p, 0.0 if fluid else min(round(p * draw(rat), 4), p),
                   draw(v)]
        p = draw(v)
        bot = [p, 0.0 if top[1] == 0 else
               max(min(round(p * draw(rat), 4), p), 1e-3),
               draw(v)]
        if draw(st.integers(0, 4)) == 0:
            bot = list(top)
        if top != prev:
            out.append([z] + top)
            # one more row at the same depth means nothing
            if draw(st.integers(0, 7)) == 0:
                out.append([z] + top)
        out.append([b] + bot)
        z, prev = b, bot
    return out


def number(x, how):
    """The same number, written in another way."""
    how = how % 8
    if how == 1 and x == int(x):
        return "%d" % x
    if how == 2 and x == int(x):
        return "%d." % x
    if how == 3:
        return "+%r" % x
    if how == 4:
        s = "%.16e" % x
        return s.replace("e", "E") if float(s) == x else repr(x)
    if how == 5:
        return "%025.12f" % x if float("%.12f" % x) == x else repr(x)
    if how == 6:
        return repr(x) + "0" * (0 if "e" in repr(x) else 3)
    if how == 7 and 0 < x < 1 and repr(x).startswith("0."):
        return repr(x)[1:]
    return repr(x)


# pieces of text that mean nothing
BLANK = ["", "   ", "\t", "# a comment", "  # 1.0 2.0 3.0 4.0", "#"]
SEP = [" ", "  ", "\t", " \t ", "      "]
END = ["", "", " ", "\t", "   # remark", "# 5 6 7 8", " #"]
HEAD = ["model - P", "", "# comment", "0.0 5.8 3.36 2.72", "x y z", "   "]


def text(rws, style):
    """style: list of small integers that choose the formatting."""
    k = [0]

    def nxt(m):
        k[0] += 1
        return style[(k[0] * 7 + k[0] // len(style)) % len(style)] % m \
            if style else 0
    plain = not style
    lines = ["generated P", "generated S"] if plain else [
        HEAD[nxt(len(HEAD))], HEAD[nxt(len(HEAD))]]
    for r in rws:
        if not plain and nxt(5) == 0:
            lines.append(BLANK[nxt(len(BLANK))])
        if plain:
            lines.append(" ".join(repr(x) for x in r))
            continue
        s = SEP[nxt(len(SEP))].join(number(x, nxt(8)) for x in r)
        lines.append(["", " ", "\t"][nxt(3)] + s + END[nxt(len(END))])
    if not plain and nxt(3) == 0:
        lines += ["", "# end", ""]
    nl = "\n" if plain else ["\n", "\n", "\r\n"][nxt(3)]
    return nl.join(lines) + ("" if not plain and nxt(3) == 0 else nl)
