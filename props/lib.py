"""Shared pieces of the harnesses."""
DBL = ["x", "y", "z", "t", "px", "py", "pz", "energy", "bx", "by", "bz", "ex", "ey", "ez", "sx", "sy", "sz", "path_length", "proper_time",
       "e_dep", "charge", "mass", "local_weight"]
INT = ["spill", "event_number", "particle_number", "station", "status", "pid"]
ALIAS = {"event_number": "eventNumber", "particle_number": "particleNumber"}
I32 = 2 ** 31
BIG = 10 ** 6


def Hit():
    import xboa.hit
    return xboa.hit.Hit


def Bunch():
    import xboa.bunch
    return xboa.bunch.Bunch


def Common():
    import xboa.common
    return xboa.common


def full_hit(ctx, nm, H=None, lim=BIG, ints=True):
    """A hit whose every stored variable is symbolic, and the dictionary of what was stored."""
    h = (H or Hit())()
    st = {}
    for v in DBL:
        st[v] = ctx.real("%s_%s" % (nm, v), -lim, lim)
        h.set(v, st[v])
    if ints:
        for v in INT:
            st[v] = ctx.int("%s_%s" % (nm, v), -I32, I32 - 1)
            h.set(v, st[v])
    return h, st


def same(ctx, label, h, st, skip=()):
    """h reads back exactly the stored values."""
    for v, x in st.items():
        if v not in skip:
            ctx.eq("%s: %s" % (label, v), h.get(v), x, exact=True)


def stored(h):
    return {v: h.get(v) for v in DBL + INT}


def mk(ctx, nm, vars, lim=1000, **fix):
    """A hit with the given variables symbolic and the others fixed."""
    h = Hit()()
    st = {}
    for v in vars:
        st[v] = ctx.int("%s_%s" % (nm, v), -I32, I32 - 1) if v in INT else ctx.real("%s_%s" % (nm, v), -lim, lim)
    st.update(fix)
    for v, x in st.items():
        h.set(v, x)
    return h, st


def prod(*lists):
    import itertools
    return list(itertools.product(*lists))
