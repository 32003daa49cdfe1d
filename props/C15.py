"""C15: histograms and bin edges."""
from engine.harness import Registry
from props.lib import *
from props.C06 import fresh
R = Registry("C15")
R.bounds = {"points": "1-3 in one dimension, 1-2 in two (thorough: 4 and 3)", "edges": "2-4 per axis, all strictly increasing real edges", "bins": "1-4 requested (thorough: up to 20)",
            "values": "coordinates, weights and edges: all reals in +-1000", "n_bins": "all point counts up to 10^6 for one dimension; two and three dimensions with the counts given"}
R.assumptions = ["exact real arithmetic", "limits are given in native units or with no units (limits given with units are a recorded finding)"]
L = 1000


def edges_of(ctx, nm, n):
    e = [ctx.real("%s%d" % (nm, i), -L, L) for i in range(n)]
    for a, b in zip(e, e[1:]):
        ctx.assume(a < b)
    return e


def inside(x, lo, hi, closed):
    return lo <= x and (x < hi or (closed and x == hi))


def bins(ctx, label, got, pts, xe, ye, closed=False):
    """got[p,q] is the weight of exactly the points in the bin."""
    ctx.check(label + ": shape", tuple(got.shape) == (len(xe) - 1, len(ye) - 1 if ye else 1))
    for p in range(len(xe) - 1):
        for q in range(len(ye) - 1 if ye else 1):
            want = 0.0
            for x, y, w in pts:
                if inside(x, xe[p], xe[p + 1], closed and p == len(xe) - 2) and (not ye or inside(y, ye[q], ye[q + 1], closed and q == len(ye) - 2)):
                    want = ctx.const(w) + want
            ctx.eq("%s: bin %d,%d" % (label, p, q), got[p, q], want)


@R.each(prod([1, 2, 3], [2, 3, 4], [True, False]))
def one_dim(ctx, n, ne, weighted):
    """Each bin holds the weights of the points with edge <= x < next edge; the arguments are left alone."""
    xs = [ctx.real("x%d" % i, -L, L) for i in range(n)]
    ws = [ctx.real("w%d" % i, -L, L) for i in range(n)] if weighted else None
    e = edges_of(ctx, "e", ne)
    a, b, c = list(xs), list(e), list(ws) if weighted else None
    got, gx, gy = Common().histogram(a, b, weights=c) if weighted else Common().histogram(a, b)
    bins(ctx, "histogram", got, [(x, None, ws[i] if weighted else 1.0) for i, x in enumerate(xs)], e, None)
    ctx.check("no y edges", len(gy) == 0 and len(gx) == ne)
    ctx.eqs("returned edges", list(gx), e)
    ctx.eqs("points left alone", a + b, xs + e)
    ctx.check("lengths left alone", len(a) == n and len(b) == ne)
    if weighted:
        ctx.eqs("weights left alone", c, ws)


def _two(ctx, n, ne, mf, weighted):
    xs = [ctx.real("x%d" % i, -L, L) for i in range(n)]
    ys = [ctx.real("y%d" % i, -L, L) for i in range(n)]
    ws = [ctx.real("w%d" % i, -L, L) for i in range(n)] if weighted else None
    e, f = edges_of(ctx, "e", ne), edges_of(ctx, "f", mf)
    got, gx, gy = Common().histogram(list(xs), list(e), list(ys), list(f), weights=ws and list(ws))
    bins(ctx, "histogram", got, list(zip(xs, ys, ws or [1.0] * n)), e, f)
    ctx.eqs("returned edges", list(gx) + list(gy), e + f)


@R.each([(1, 2, 2, True), (1, 3, 4, True), (2, 3, 2, True), (2, 2, 3, False)])
def two_dim(ctx, n, ne, mf, weighted):
    """The same in two dimensions."""
    _two(ctx, n, ne, mf, weighted)


@R.each([(2, 3, 3, True), (3, 3, 2, True), (2, 4, 3, True)], tier="thorough", max_paths=20000, budget=400)
def two_dim_more(ctx, n, ne, mf, weighted):
    _two(ctx, n, ne, mf, weighted)


def _edges(ctx, n, nb, lo, hi):
    xs = [ctx.real("x%d" % i, -L, L) for i in range(n)]
    kw = {}
    if lo:
        kw["xmin"] = ctx.real("xmin", -L, L)
    if hi:
        kw["xmax"] = ctx.real("xmax", -L, L)
    if lo and hi:
        ctx.assume(kw["xmin"] < kw["xmax"])
    a = list(xs)
    e = Common().get_bin_edges(a, nb, **kw)
    ctx.check("number of edges", len(e) == nb + 1)
    ctx.eqs("points left alone", a, xs)
    ctx.check("list left alone", len(a) == n)
    for i in range(nb + 1):
        ctx.eq("evenly spaced, edge %d" % i, ctx.const(e[i]) * nb, ctx.const(e[0]) * (nb - i) + ctx.const(e[nb]) * i)
    if lo:
        ctx.eq("requested minimum", e[0], kw["xmin"])
    if hi:
        ctx.eq("requested maximum", e[nb], kw["xmax"])
    if n > 1:
        spread = (max(xs) - min(xs) >= 1e-6)
    else:
        spread = False
    if spread:
        ctx.reach("spread")
        if not lo:
            ctx.eq("automatic minimum", e[0], min(xs))
        if not hi:
            ctx.eq("automatic maximum", e[nb], max(xs))
    else:
        ctx.reach("flat")
        if not lo and not hi:
            ctx.check("a flat sample still gets a range", e[0] < e[nb])
        for x in xs:
            if not lo:
                ctx.check("covers from below", e[0] <= x)
            if not hi:
                ctx.check("covers from above", e[nb] >= x)


@R.each(prod([1, 2, 3], [1, 2, 4], [False, True], [False, True]))
def edges(ctx, n, nb, lo, hi):
    """Bin edges are evenly spaced, of the requested number, and cover the data or the requested range."""
    _edges(ctx, n, nb, lo, hi)


@R.each(prod([4], [3, 20], [False, True], [False, True]), tier="thorough", budget=300)
def edges_more(ctx, n, nb, lo, hi):
    _edges(ctx, n, nb, lo, hi)


@R.case("bin_number")
def bin_number(ctx):
    """One bin per ten points, plus one; a given number is used as it is and dimensions that are not asked for get none."""
    n = ctx.int("n", 0, 10 ** 6)
    k = [ctx.int("k%d" % i, 1, 1000) for i in range(3)]
    C = Common()
    a, b, c = C.n_bins(n)
    ctx.check("one bin per ten points", ctx.const(a) * 10 - 10 <= n and n < ctx.const(a) * 10)
    ctx.check("no other dimension", b == 0 and c == 0)
    ctx.eqs("given, one dimension", list(C.n_bins(n, k[0])), [k[0], 0, 0])
    ctx.eqs("given, two dimensions", list(C.n_bins(n, k[0], k[1], n_dimensions=2)), [k[0], k[1], 0])
    ctx.eqs("given, three dimensions", list(C.n_bins(n, k[0], k[1], k[2], n_dimensions=3)), k)


def beam(ctx, n):
    fresh()
    hits, st = [], []
    for i in range(n):
        h, s = mk(ctx, "h%d" % i, ["x", "y"], event_number=i + 1)
        w = ctx.real("w%d" % i, -L, L)
        h.set("local_weight", w)
        hits.append(h)
        st.append((s["x"], s["y"], w))
    b = Bunch().new_from_hits(hits)
    return b, st


UNIT = {"": 1.0, "m": 1000.0, "cm": 10.0, "mm": 1.0}


@R.each(prod([1, 2], ["", "m", "cm"], [False, True]))
def bunch_var_bins(ctx, n, unit, two):
    """A bunch histogram holds the hits' weights at their coordinates in the requested units."""
    b, st = beam(ctx, n)
    e = edges_of(ctx, "e", 3)
    c = ctx.const
    if two:
        f = edges_of(ctx, "f", 2)
        got, gx, gy = b.histogram_var_bins("x", list(e), unit, "y", list(f), "mm")
        ctx.eqs("y edges", list(gy), f)
    else:
        f = None
        got, gx, gy = b.histogram_var_bins("x", list(e), unit)
    ctx.eqs("x edges", list(gx), e)
    bins(ctx, "histogram", got, [(c(x) / UNIT[unit], y, w) for x, y, w in st], e, f)
    ctx.check("hits left", len(b) == n)


@R.each(prod([1, 2], ["", "m"], [1, 2], [None, 2]) + [(3, "", 1, 2), (3, "m", 1, 2)])
def bunch_histogram(ctx, n, unit, dim, nb):
    """With automatic ranges every hit is in exactly one bin, the edges span the hits, and no weight is lost."""
    b, st = beam(ctx, n)
    c = ctx.const
    pts = [(c(x) / UNIT[unit], c(y), w) for x, y, w in st]
    if dim == 1:
        got, xe, ye = b.histogram("x", unit, nx_bins=nb)
        ye = None
    else:
        got, xe, ye = b.histogram("x", unit, "y", "", nx_bins=nb, ny_bins=nb)
        ctx.check("y bins", len(ye) - 1 == (nb or 1))
    ctx.check("x bins", len(xe) - 1 == (nb or 1))
    for x, y, w in pts:
        ctx.check("x range", xe[0] <= x and x <= xe[-1])
        if ye:
            ctx.check("y range", ye[0] <= y and y <= ye[-1])
    bins(ctx, "histogram", got, pts, list(xe), ye and list(ye), closed=True)
    tot = 0.0
    for p in range(got.shape[0]):
        for q in range(got.shape[1]):
            tot = c(got[p, q]) + tot
    ctx.eq("no weight lost", tot, sum((c(w) for _, _, w in pts), 0.0))


@R.each([("", 1), ("", 2), ("m", 1)])
def bunch_limits(ctx, unit, dim):
    """Given limits are the first and last edges, in the units of the axis."""
    b, st = beam(ctx, 1)
    lo, hi = ctx.real("lo", -L, L), ctx.real("hi", -L, L)
    ctx.assume(hi - lo >= 1e-3)
    c = ctx.const
    if dim == 1:
        got, xe, ye = b.histogram("x", unit, nx_bins=2, xmin=lo, xmax=hi)
        e = xe
        ye = None
    else:
        got, xe, ye = b.histogram("x", unit, "y", unit, nx_bins=1, ny_bins=2, ymin=lo, ymax=hi)
        e = ye
    ctx.eq("first edge", e[0], lo)
    ctx.eq("last edge", e[-1], hi)
    ctx.eq("middle edge", c(e[1]) * 2, c(lo) + hi)
    # a point exactly on a requested last edge may be counted or not: both conventions are in use
    x, y, w = st[0]
    v = c(x if dim == 1 else y) / UNIT[unit]
    if v == hi:
        return
    bins(ctx, "histogram", got, [(c(x) / UNIT[unit], c(y) / UNIT[unit], w)], list(xe), ye and list(ye), closed=True)
