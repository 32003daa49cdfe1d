"""C17: grids, shells and fitted ellipses."""
import itertools
from fractions import Fraction
from engine.harness import Registry
from props.lib import *
from props.C06 import fresh
R = Registry("C17")
R.bounds = {"grids": "1-3 dimensions, 2-5 points per dimension (concrete: a grid has no real input)", "shells": "2-4 points per dimension in two dimensions, 2-3 in three; all positive definite ellipses (three dimensions: one coupled pair), all centres",
            "normalise": "2 and 3 dimensions, all vectors and all symmetric matrices with a positive form", "fits": "3-4 points in two dimensions, 2-3 in one, all weights; the cut with one movable point in two and three dimensions"}
R.assumptions = ["exact real arithmetic", "ellipses are positive definite, L L^T with the diagonal of L between 0.1 and 10", "vectors have a quadratic form of at least 1e-6", "total weight at least 0.01"]
L = 1000


def grid_points(n, d):
    ax = [Fraction(2 * j, n - 1) - 1 for j in range(n)]
    return list(itertools.product(ax, repeat=d))


@R.each(prod([1, 2, 3], [2, 3, 4, 5]))
def grid(ctx, d, n):
    """Every combination of the evenly spaced coordinates occurs exactly once."""
    g = Common().make_grid(d, n)
    want = grid_points(n, d)
    ctx.check("number", len(g) == n ** d)
    ctx.check("shape", all(tuple(v.shape) == (1, d) for v in g))
    got = [tuple(Fraction(float(v[0, i])).limit_denominator(1000) for i in range(d)) for v in g]
    ctx.check("close to the grid", all(abs(float(v[0, i]) - float(q[i])) < 1e-12 for v, q in zip(g, got) for i in range(d)))
    ctx.check("every point once", sorted(got) == sorted(want))


def matrix(ctx, nm, d, lo=0.1, hi=10, cross=None):
    """Symbolic positive definite matrix as nested lists, written as a product of a triangular matrix with itself (every such matrix is one)."""
    c = ctx.const
    l = [[0.0] * d for _ in range(d)]
    for i in range(d):
        l[i][i] = ctx.real("%s%d%d" % (nm, i, i), lo, hi)
    for j, i in (cross if cross is not None else itertools.combinations(range(d), 2)):
        l[i][j] = ctx.real("%s%d%d" % (nm, i, j), -10, 10)
    m = [[0.0] * d for _ in range(d)]
    for i in range(d):
        for j in range(d):
            for k in range(min(i, j) + 1):
                m[i][j] = c(l[i][k]) * l[j][k] + m[i][j]
    return m


def det(ctx, m):
    c = ctx.const
    if len(m) == 1:
        return c(m[0][0])
    if len(m) == 2:
        return c(m[0][0]) * m[1][1] - c(m[0][1]) * m[1][0]
    s = 0
    for j in range(3):
        a, b = [k for k in range(3) if k != j]
        s = s + (-1) ** j * (c(m[1][a]) * m[2][b] - c(m[1][b]) * m[2][a]) * m[0][j]
    return s


def adj(ctx, m):
    """Adjugate of a symmetric matrix."""
    d = len(m)
    c = ctx.const
    if d == 1:
        return [[c(1.0)]]
    out = [[None] * d for _ in range(d)]
    for i in range(d):
        for j in range(d):
            sub = [[m[r][k] for k in range(d) if k != j] for r in range(d) if r != i]
            out[j][i] = det(ctx, sub) * (-1) ** (i + j)
    return out


def form(ctx, m, v):
    s = 0
    for i in range(len(v)):
        for j in range(len(v)):
            s = s + ctx.const(m[i][j]) * v[i] * v[j]
    return s


def parallel(ctx, label, v, g):
    """v is a non-negative multiple of g."""
    c = ctx.const
    for i, j in itertools.combinations(range(len(v)), 2):
        ctx.eq("%s: same line %d%d" % (label, i, j), c(v[i]) * g[j], c(v[j]) * g[i])
    for i in range(len(v)):
        ctx.check("%s: same side %d" % (label, i), c(v[i]) * g[i] >= 0)


@R.each([1, 2, 3])
def normalise(ctx, d):
    """A vector is scaled onto the ellipse without changing its direction."""
    np = ctx.np
    m = [[0.0] * d for _ in range(d)]
    for i in range(d):
        for j in range(i, d):
            m[i][j] = m[j][i] = ctx.real("m%d%d" % (i, j), -100, 100)
    v = [ctx.real("v%d" % i, -L, L) for i in range(d)]
    ctx.assume(form(ctx, m, v) >= 1e-6)
    arg, mat = np.matrix([v]), np.matrix(m)
    out = Common().normalise_vector(arg, mat)
    ctx.check("shape", tuple(out.shape) == (1, d))
    w = [out[0, i] for i in range(d)]
    ctx.eq("on the ellipse", form(ctx, m, w), 1.0)
    parallel(ctx, "direction", w, v)
    ctx.eqs("argument left alone", [arg[0, i] for i in range(d)], v)
    for i in range(d):
        ctx.eqs("matrix left alone", [mat[i, j] for j in range(d)], m[i])


def _shell(ctx, d, n, centred, cross=None):
    np = ctx.np
    m = matrix(ctx, "e", d, cross=cross)
    c = ctx.const
    mean = [ctx.real("c%d" % i, -L, L) for i in range(d)] if centred else [0.0] * d
    out = Common().make_shell(n, np.matrix(m), np.array(mean)) if centred else Common().make_shell(n, np.matrix(m))
    dirs = [tuple(float(v[0, i]) for i in range(d)) for v in Common().make_grid(d, n)]
    dirs = [g for g in dirs if max(abs(x) for x in g) > 1e-9]
    ctx.check("number of points", len(out) == len(dirs) == n ** d - n % 2)
    if len(out) != len(dirs):
        return
    a, dt = adj(ctx, m), det(ctx, m)
    for k, p in enumerate(out):
        q = [c(p[0, i]) - mean[i] for i in range(d)]
        ctx.eq("point %d on the ellipse" % k, form(ctx, a, q), dt)
        parallel(ctx, "point %d" % k, q, dirs[k])


@R.each(prod([2], [2, 3, 4], [False, True]) + [(1, 2, True), (1, 3, False), (1, 4, True)])
def shell(ctx, d, n, centred):
    """All points of a shell are on the ellipse, in the directions of the grid."""
    _shell(ctx, d, n, centred)


@R.each({"couple01": [(0, 1)], "couple12": [(1, 2)]})
def shell3(ctx, cross):
    _shell(ctx, 3, 2, True, cross)


@R.each({"couple02": [(0, 2)], "none": []}, tier="thorough", budget=400)
def shell3_more(ctx, cross):
    _shell(ctx, 3, 3, True, cross)


@R.each([(2, "x", "y", "energy"), (3, "x", "px", "energy"), (2, "y", "py", "pz"), (2, "t", "energy", "pz")])
def hit_shell(ctx, n, v0, v1, on):
    """A beam made as a shell: defaults plus a point of the shell, its own event number, on mass shell."""
    fresh()
    np = ctx.np
    c = ctx.const
    m = matrix(ctx, "e", 2, 0.5, 4)
    dflt = {"x": ctx.real("dx", -L, L), "t": ctx.real("dt", -L, L), "px": 1.5, "pz": ctx.real("pz", 100, L), "mass": ctx.real("mass", 1, 50), "bz": ctx.real("bz", -L, L), "local_weight": ctx.real("w", 0.1, L), "pid": -13,
            "energy": ctx.real("E", 2000, 3000), "py": 0.0, "y": 2.0}
    given = dict(dflt)
    b = Bunch().new_hit_shell(n, np.matrix(m), [v0, v1], on, given)
    want = [v for v in Common().make_shell(n, np.matrix(m))]
    ctx.check("number of hits", len(b) == len(want) == n ** 2 - n % 2)
    ctx.check("defaults left alone", set(given) == set(dflt))
    ctx.eqs("defaults left alone", [given[k] for k in sorted(dflt)], [dflt[k] for k in sorted(dflt)])
    evs = [int(h["event_number"]) for h in b]
    ctx.check("distinct event numbers", evs == list(range(len(want))))
    for k, h in enumerate(b):
        off = [c(h[v]) - dflt[v] for v in (v0, v1)]
        for i in range(2):
            ctx.eq("hit %d is point %d of the shell" % (k, i), off[i], want[k][0, i])
        for v in dflt:
            if v not in (v0, v1, on):
                ctx.eq("hit %d keeps %s" % (k, v), h[v], dflt[v], exact=v != "pid")
        e, p, s = c(h["energy"]), 0, 0
        for v in ("px", "py", "pz", "mass"):
            p = p + c(h[v]) * h[v]
        ctx.eq("hit %d on mass shell" % k, e * e, p)
        ctx.check("hit %d sign" % k, h[on] >= 0)


def moments(ctx, pts, ws):
    """Total weight W, W*mean and W^2*covariance."""
    c = ctx.const
    d = len(pts[0])
    W, s = 0, [0] * d
    ss = [[0] * d for _ in range(d)]
    for p, w in zip(pts, ws):
        W = c(w) + W
        for i in range(d):
            s[i] = s[i] + c(w) * p[i]
            for j in range(d):
                ss[i][j] = ss[i][j] + c(w) * p[i] * p[j]
    return W, s, [[W * ss[i][j] - s[i] * s[j] for j in range(d)] for i in range(d)]


SPOTS = [[1.0, -2.0, 0.5], [3.0, 1.5, -1.0], [-2.5, 4.0, 2.0], [0.25, -1.0, 6.0]]


@R.each([(2, 3, "none", 3), (2, 3, "all", 0), (2, 3, "one", 1), (2, 4, "one", 0), (1, 2, "all", 2), (3, 2, "none", 2), (3, 4, "one", 0)], budget=100)
def fit(ctx, d, n, weighted, free):
    """With one iteration the fitted ellipse is the weighted mean and covariance of the points."""
    pts = [[ctx.real("p%d_%d" % (k, i), -10, 10) if k < free else SPOTS[k][i] for i in range(d)] for k in range(n)]
    ws = [ctx.real("w%d" % k, 0, 10) if weighted == "all" or weighted == "one" and k == 0 else 1.0 for k in range(n)]
    c = ctx.const
    W, s, cov = moments(ctx, pts, ws)
    ctx.assume(W >= 0.01)
    a, b = [list(p) for p in pts], list(ws)
    mean, got = Common().fit_ellipse(a, 1e30, b if weighted != "none" else None, 1, False)
    for i in range(d):
        ctx.eq("mean %d" % i, c(mean[i]) * W, s[i])
        for j in range(d):
            ctx.eq("covariance %d%d" % (i, j), c(got[i, j]) * W * W, cov[i][j])
    for p, q in zip(a, pts):
        ctx.eqs("points left alone", p, q)
    ctx.eqs("weights left alone", b, ws)


@R.each([(2, 5.0), (2, 12.0), (3, 20.0)])
def fit_cut(ctx, d, cut):
    _cut(ctx, d, cut)


@R.each([(2, None), (3, 9.0)], tier="thorough", budget=400)
def fit_cut_more(ctx, d, cut):
    _cut(ctx, d, cut)


def _cut(ctx, d, cut):
    """The second iteration uses exactly the points whose normalised distance, x V^-1 x |V|^(1/n), is below the cut."""
    base = []
    for i in range(d):
        for sg in (1.0, -1.0):
            base.append([sg * (i + 1) if j == i else 0.0 for j in range(d)])
    u = ctx.real("u", -100, 100)
    cut = ctx.real("cut", 1, 100) if cut is None else cut
    pts = base + [[u] + [0.0] * (d - 1)]
    c = ctx.const
    n = len(pts)
    W, s, cov = moments(ctx, pts, [1.0] * n)
    # only one coordinate moves, so the covariance is diagonal: V = diag(v), chi2 = sum x_i^2 / v_i
    v = [cov[i][i] / (n * n) for i in range(d)]
    mu = [s[i] / n for i in range(d)]
    dt = v[0]
    for i in range(1, d):
        dt = dt * v[i]
    inside = []
    for p in pts:
        chi = 0
        for i in range(d):
            q = 1
            for j in range(d):
                if j != i:
                    q = q * v[j]
            chi = chi + (p[i] - mu[i]) * (p[i] - mu[i]) * q
        # eps = chi/det * det^(1/d) < cut  <=>  chi^d det^(1-d)... all positive
        lhs, rhs = chi, cut * dt
        l, r = lhs, rhs
        for _ in range(d - 1):
            l, r = l * lhs, r * rhs
        l = l * dt
        # stay clear of the edge of the cut, where rounding decides
        ctx.assume((l <= r * 0.999) | (l >= r * 1.001))
        inside.append(l < r)
    mean, got = Common().fit_ellipse([list(p) for p in pts], cut, None, 2, False)
    keep = [p for p, i in zip(pts, inside) if i]
    if len(keep) == 0:
        ctx.reach("none")
        return
    ctx.reach("all" if len(keep) == n else "some")
    W, s, cov = moments(ctx, keep, [1.0] * len(keep))
    for i in range(d):
        ctx.eq("mean %d" % i, c(mean[i]) * W, s[i])
        for j in range(d):
            ctx.eq("covariance %d%d" % (i, j), c(got[i, j]) * W * W, cov[i][j])
