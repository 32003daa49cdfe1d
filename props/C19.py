"""C19: ellipse bounds and Voronoi (hull based) weights."""
import itertools
from engine.harness import Registry
from props.lib import *
from props.C06 import fresh
from props.C17 import matrix, adj, det, form
R = Registry("C19")
R.bounds = {"cuts": "1-3 points in 1-2 dimensions (thorough: 4 points, 3 dimensions), all coordinates and centres; all positive definite ellipses",
            "shells": "2-4 points per dimension, 2-3 in three dimensions", "Voronoi": "2-3 hits in one or two dimensions, any tile contents, bounds that exclude any of them; contents of single and double simplices in 1-3 dimensions"}
R.assumptions = ["exact real arithmetic", "ellipses are positive definite (L L^T, diagonal of L between 0.1 and 10)", "scipy's Voronoi and Delaunay and the process pool are stand-ins that return given regions, simplices and contents; exp is uninterpreted"]
L = 100


def setup(sym):
    import xboa.bunch.weighting
R.setup = setup


def WE():
    import xboa.bunch.weighting as w
    return w


def ellipse(ctx, d, diag=False):
    m = matrix(ctx, "l", d, cross=[] if diag else None)
    c = [ctx.real("c%d" % i, -L, L) for i in range(d)]
    return m, c


@R.each([(1, 1, False), (1, 2, False), (1, 3, False), (2, 1, False), (2, 2, False), (2, 3, True), (1, 4, False), (3, 1, True)], budget=60)
def cut(ctx, d, n, diag):
    """Exactly the points with (x-c) V^-1 (x-c) <= 1 survive, in order and with their indices; nothing given is changed."""
    np = ctx.np
    m, c = ellipse(ctx, d, diag)
    pts = [[ctx.real("p%d%d" % (i, j), -L, L) for j in range(d)] for i in range(n)]
    be = WE().BoundingEllipse(np.array(m), np.array(c), 2)
    dt, a = det(ctx, m), adj(ctx, m)
    arr = np.array(pts)
    out, idx = be.cut_on_bound(arr)
    want = []
    for i, p in enumerate(pts):
        if form(ctx, a, [ctx.const(x) - y for x, y in zip(p, c)]) <= dt:
            want.append(i)
    ctx.check("indices", list(idx) == want)
    ctx.check("number of points", len(out) == len(want))
    for k, i in enumerate(want):
        ctx.eqs("point %d" % i, list(out[k]), pts[i], exact=True)
    ctx.eqs("caller's points", [arr[i][j] for i in range(n) for j in range(d)], sum(pts, []), exact=True)
    if len(want) == n:
        ctx.reach("all kept")
    if not want:
        ctx.reach("all cut")
    # and it can be asked again
    o2, i2 = be.cut_on_bound(out)
    ctx.check("second cut keeps all", list(i2) == list(range(len(want))))


@R.each([(3, 2)], tier="thorough", budget=300)
def cut3(ctx, d, n):
    cut_(ctx, d, n)


def cut_(ctx, d, n):
    np = ctx.np
    m, c = ellipse(ctx, d)
    pts = [[ctx.real("p%d%d" % (i, j), -L, L) for j in range(d)] for i in range(n)]
    be = WE().BoundingEllipse(np.array(m), np.array(c), 2)
    dt, a = det(ctx, m), adj(ctx, m)
    out, idx = be.cut_on_bound(np.array(pts))
    want = [i for i, p in enumerate(pts) if form(ctx, a, [ctx.const(x) - y for x, y in zip(p, c)]) <= dt]
    ctx.check("indices", list(idx) == want)


@R.each({"empty1": 1, "empty2": 2})
def no_points(ctx, d):
    np = ctx.np
    m, c = ellipse(ctx, d)
    be = WE().BoundingEllipse(np.array(m), np.array(c), 2)
    out, idx = be.cut_on_bound(np.zeros((0, d)))
    ctx.check("nothing", len(out) == 0 and list(idx) == [])


@R.each([(1, 2), (2, 2), (2, 3), (2, 4), (3, 2)], budget=60)
def bounding_points(ctx, d, n):
    """The bounding points lie on the ellipse about its centre, all of the stated grid directions, and none is repeated."""
    np = ctx.np
    m, c = ellipse(ctx, d, d == 3)
    be = WE().BoundingEllipse(np.array(m), np.array(c), n)
    ctx.check("dimension", be.dim == d)
    dt, a = det(ctx, m), adj(ctx, m)
    bp = be.bounding_points
    ctx.check("shape", tuple(bp.shape)[1] == d)
    ctx.check("number", len(bp) == n ** d - (n % 2))
    for i in range(len(bp)):
        v = [ctx.const(bp[i][j]) - c[j] for j in range(d)]
        ctx.eq("point %d on the bound" % i, form(ctx, a, v), dt)
    ctx.eqs("centre", list(be.mean), c)


@R.each({"n0": (2, 2, 0), "n-1": (2, 2, -1), "float": (2, 2, 3.0), "none": (2, 2, None), "mean": (2, 3, 2), "mean1": (2, 1, 2), "wide": ((2, 3), 2, 2), "tall": ((3, 2), 3, 2)})
def refused(ctx, d, k, n):
    np = ctx.np
    r, s = d if isinstance(d, tuple) else (d, d)
    m = [[ctx.real("m%d%d" % (i, j), -L, L) for j in range(s)] for i in range(r)]
    ctx.raises("refused", lambda: WE().BoundingEllipse(np.array(m), np.array([0.0] * k), n), exc=ValueError)


# ---- Voronoi weighting with a stand-in for the tesselation -----------------------------------
class Tess:
    def __init__(self, points):
        self.points = points


class FakeSpatial:
    def __init__(self, log):
        self.log = log

    def Voronoi(self, points):
        self.log.append(points)
        return Tess(points)


class FakeScipy:
    pass


def voronoi(ctx, vw, b, contents, glob, log):
    """apply_weights with the contents of the tiles given (one per hit of the bunch, by identity of its point)."""
    import xboa.bunch.weighting as w
    import xboa.bunch.weighting._voronoi_weighting as mod
    fs = FakeScipy()
    fs.spatial = FakeSpatial(log)

    class Hull:
        def __init__(self, tess, region_list, n_procs=1):
            self.tile_content_list = contents(tess, list(region_list))
    old = mod.scipy, w.HullContent
    mod.scipy, w.HullContent = fs, Hull
    try:
        vw.apply_weights(b, glob)
    finally:
        mod.scipy, w.HullContent = old


@R.each([(n, d, g, bound, mean) for n, d, g, bound, mean in [(2, 1, False, False, False), (2, 1, True, True, False), (2, 2, False, True, True), (2, 2, True, False, True), (3, 1, False, True, True), (3, 2, True, True, False)]], budget=60)
def weights(ctx, n, d, glob, bound, mean):
    """Each hit inside the bound gets content times the normal density at its point in the chosen weight; the others get zero; nothing else changes."""
    np = ctx.np
    fresh()
    b = Bunch()()
    vars = ["x", "y"][:d]
    pts = []
    for i in range(n):
        h, st = mk(ctx, "h%d" % i, vars, L, event_number=i + 1)
        pts.append([st[v] for v in vars])
        b.append(h)
    V = matrix(ctx, "v", d, cross=[])
    mu = [ctx.real("m%d" % i, -L, L) for i in range(d)] if mean else [0.0] * d
    be = None
    if bound:
        # a bound on a sphere of given size about a given centre, so that any of the hits may be outside
        c = [ctx.real("c%d" % i, -L, L) for i in range(d)]
        r2 = ctx.real("r2", 0.01, 100)
        be = WE().BoundingEllipse(np.array([[r2 * (i == j) for j in range(d)] for i in range(d)]), np.array(c), 2)
    vw = WE().VoronoiWeighting(vars, np.array(V), np.array(mu) if mean else None, be)
    cont = [ctx.real("k%d" % i, 0, 10) for i in range(n)]
    inside = [True] * n
    if bound:
        for i, p in enumerate(pts):
            s = 0
            for x, y in zip(p, c):
                s = s + (ctx.const(x) - y) * (ctx.const(x) - y)
            inside[i] = bool(s <= r2)
    keep = [i for i in range(n) if inside[i]]
    log = []

    def contents(tess, regions):
        ctx.check("one region per kept hit", regions == list(range(len(keep))))
        return [cont[i] for i in keep]
    if not keep and not bound:
        return
    voronoi(ctx, vw, b, contents, glob, log)
    tp = log[0]
    nb = len(be.bounding_points) if bound else 0
    ctx.check("points of the tesselation", len(tp) == len(keep) + nb)
    for k, i in enumerate(keep):
        ctx.eqs("tesselated point %d" % k, list(tp[k]), pts[i])
    for k in range(nb):
        ctx.eqs("bounding point %d" % k, list(tp[len(keep) + k]), list(be.bounding_points[k]))
    dt, a = det(ctx, V), adj(ctx, V)
    for i, h in enumerate(b):
        w = h.get("global_weight" if glob else "local_weight")
        o = h.get("local_weight" if glob else "global_weight")
        ctx.eq("other weight of hit %d" % i, o, 1.0, exact=True)
        if not inside[i]:
            ctx.eq("hit %d outside" % i, w, 0.0, exact=True)
            ctx.reach("outside")
        else:
            v = [ctx.const(x) - y for x, y in zip(pts[i], mu)]
            arg = -0.5 * form(ctx, a, v) / dt
            ctx.eq("weight of hit %d" % i, w, cont[i] * ctx.m.exp(arg) / ctx.sqrt((2 * ctx.m.pi) ** d * dt))
            ctx.reach("inside")
        for v, x in zip(vars, pts[i]):
            ctx.eq("%s of hit %d" % (v, i), h.get(v), x, exact=True)


@R.each({"mean": (["x", "y"], 2, 3, None), "ellipse": (["x", "y"], 3, None, None), "bound": (["x", "y"], 2, None, 1), "ellipse1": (["x"], 2, None, None)})
def voronoi_refused(ctx, vars, d, k, bd):
    np = ctx.np
    e = np.array([[float(i == j) for j in range(d)] for i in range(d)])
    be = WE().BoundingEllipse(np.array([[1.0]]), np.array([0.0]), 2) if bd else None
    ctx.raises("refused", lambda: WE().VoronoiWeighting(vars, e, np.array([0.0] * k) if k else None, be), exc=ValueError)


# ---- content of a tile ------------------------------------------------------------------------
def tile(ctx, region, points, simplices):
    import xboa.bunch.weighting._hull_content as mod

    class Tri:
        def __init__(self, pts):
            self.points, self.simplices = pts, simplices
    fs = FakeScipy()
    fs.spatial = FakeScipy()
    fs.spatial.Delaunay = Tri
    old = mod.scipy
    mod.scipy = fs
    try:
        return mod._tile_content((region, ctx.np.array(points)))
    finally:
        mod.scipy = old


@R.each({"triangle": (2, [[0, 1, 2]]), "turned": (2, [[2, 0, 1]]), "unordered": (2, [[1, 0, 2]]), "segment": (1, [[0, 1]])}, budget=60)
def simplex(ctx, d, simp):
    """Content of one simplex: |det(edges)| / d!"""
    pts = [[ctx.real("p%d%d" % (i, j), -L, L) if not (d == 2 and i == 0) else 0.0 for j in range(d)] for i in range(d + 1)]
    e = [[ctx.const(pts[i][j]) - pts[0][j] for j in range(d)] for i in range(1, d + 1)]
    v = det(ctx, e)
    ctx.assume((v >= 1e-3) | (v <= -1e-3))
    got = tile(ctx, list(range(d + 1)), pts, simp)
    ctx.eq("content squared", ctx.const(got) * got * {1: 1, 2: 4}[d], v * v)
    ctx.check("not negative", got >= 0)


@R.each([0, 1, 2, 3])
def tetrahedron(ctx, k):
    """Three dimensions: one corner anywhere."""
    base = [[0.0, 0.0, 0.0], [1.0, 0.5, 0.0], [0.0, 2.0, 0.25], [0.5, -1.0, 1.5]]
    pts = [list(p) for p in base]
    pts[k] = [ctx.real("p%d" % j, -10, 10) for j in range(3)]
    e = [[ctx.const(pts[i][j]) - pts[0][j] for j in range(3)] for i in range(1, 4)]
    v = det(ctx, e)
    ctx.assume((v >= 1e-2) | (v <= -1e-2))
    got = tile(ctx, [0, 1, 2, 3], pts, [[0, 1, 2, 3]])
    ctx.eq("content squared", ctx.const(got) * got * 36, v * v)


@R.case("two_triangles")
def two_triangles(ctx):
    """The content of a tile of two simplices is the sum of theirs."""
    pts = [[0.0, 0.0], [ctx.real("a", 0.1, L), 0.0], [0.0, ctx.real("b", 0.1, L)], [ctx.real("c", -L, -0.1), ctx.real("d", -L, L)]]
    got = tile(ctx, [0, 1, 2, 3], pts, [[0, 1, 2], [0, 2, 3]])
    ctx.eq("content", got, (ctx.const(pts[1][0]) * pts[2][1] - ctx.const(pts[2][1]) * pts[3][0]) / 2)


@R.each({"infinite": [0, -1, 2], "last": [0, 1, -1], "first": [-1, 1, 2], "empty": []})
def open_tile(ctx, region):
    """A tile that reaches to infinity, or no tile, has no content."""
    pts = [[ctx.real("p%d%d" % (i, j), -L, L) for j in range(2)] for i in range(3)]
    ctx.eq("content", tile(ctx, region, pts, [[0, 1, 2]]), 0.0, exact=True)


@R.each([[0, 1, 2], [1, 0], []])
def hull(ctx, regions):
    """HullContent hands each point's own region and vertices to the calculation and keeps the results in order."""
    import xboa.bunch.weighting._hull_content as mod
    n = 3
    verts = [[ctx.real("v%d%d" % (i, j), -L, L) for j in range(2)] for i in range(4)]
    t = Tess(None)
    t.point_region = [2, 0, 1]
    t.regions = [[0, 1, 2], [1, 2, 3], [3, 0]]
    t.vertices = verts
    seen = []

    class Pool:
        def __init__(self, n, init=None):
            pass

        def map(self, f, jobs):
            jobs = list(jobs)
            seen.append((f, jobs))
            return ["content of %s" % (j[0],) for j in jobs]

        def terminate(self):
            pass

        close = join = terminate

    class MP:
        pass
    MP.Pool = Pool
    old = mod.multiprocessing
    mod.multiprocessing = MP
    try:
        hc = mod.HullContent(t, sorted(regions), 2)
    finally:
        mod.multiprocessing = old
    want = [t.regions[t.point_region[i]] for i in sorted(regions)]
    ctx.check("contents", hc.tile_content_list == ["content of %s" % (r,) for r in want])
    for (r, p), w in zip(seen[0][1] if seen else [], want):
        ctx.check("vertices", len(p) == len(w))
        for k, v in zip(w, p):
            ctx.eqs("vertex %d" % k, list(v), verts[k], exact=True)
