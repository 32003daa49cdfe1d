"""C25: closed orbit finder."""
import itertools
from engine.harness import Registry
from props.lib import *
from props.C06 import fresh
from props.C17 import moments, matrix, adj, det, form
from props.C21 import Patched
R = Registry("C25")
R.bounds = {"iterations": "2-4 points in one dimension, 3-4 points in two, all real coordinates (in two dimensions one or two points free for a fitted ellipse, all free for a given one)",
            "searches": "one and two variables, 1-4 points, up to three outputs per tracking call, up to three iterations", "scans": "one to three variables, up to three steps each with all real starts, steps and ends (two free at a time)"}
R.assumptions = ["exact real arithmetic", "the tracking is a stand-in returning arbitrary hits", "in searches the fitted ellipse is arbitrary (its fit is C17), L L^T with the diagonal of L between 0.1 and 10",
                 "searches stay clear of mean noise = noise spread, where rounding decides"]
L = 1000


def setup(sym):
    import xboa.algorithms.closed_orbit
    import xboa.tracking
R.setup = setup


def CO():
    import xboa.algorithms.closed_orbit as m
    return m


def mod():
    import xboa.algorithms.closed_orbit._ellipse_closed_orbit_finder as m
    return m


class Track:
    """Tracking that returns the hits it was given, a batch per call, and notes what it was asked to track."""
    def __init__(self, batches, keys):
        self.batches, self.keys, self.asked, self.hits = list(batches), keys, [], []

    def track_one(self, hit):
        self.asked.append([hit[k] for k in self.keys])
        self.hits.append(hit)
        return [hit.deepcopy()] + (self.batches.pop(0) if self.batches else [])


def outputs(ctx, keys, counts, free=None):
    """Batches of hits as a tracking returns them, and the values of their keys."""
    batches, vals, k = [], [], 0
    for n in counts:
        b = []
        for i in range(n):
            h, st = mk(ctx, "o%d" % k, keys if free is None or k in free else [], L, y=float(k + 1), **({} if free is None or k in free else {v: [1.0, -2.0, 0.5, 3.0][(k + j) % 4] + k for j, v in enumerate(keys)}))
            b.append(h)
            vals.append([st[v] for v in keys])
            k += 1
        batches.append(b)
    return batches, vals


def seed(ctx, keys):
    return mk(ctx, "seed", list(keys), L, y=-7.0, z=3.0, pid=13, mass=105.0, energy=226.0, pz=200.0)


# ---- one iteration -------------------------------------------------------------------------------
SPOTS = [[1.0, -2.0], [3.0, 1.5], [-2.5, 4.0], [0.25, -1.0]]


@R.each([(1, 2, (0, 1)), (1, 3, (0, 1, 2)), (1, 4, (1, 2)), (2, 3, (0, "x")), (2, 4, (3, "px")), (2, 3, (1, "px"))], budget=60)
def iteration(ctx, d, n, free):
    """Centre and ellipse are those of the points, the noise of a point its amplitude in the ellipse scaled to unit determinant."""
    c = ctx.const
    pts = [[ctx.real("p%d_%d" % (k, i), -10, 10) if k in free and (d == 1 or ["x", "px"][i] in free) else SPOTS[k][i] for i in range(d)] for k in range(n)]
    W, s, cov = moments(ctx, pts, [1.0] * n)
    D = det(ctx, cov)
    ctx.assume(D >= 0.5)
    keys = ["x", "px"][:d]
    it = CO().EllipseClosedOrbitFinderIteration(list(keys), [list(p) for p in pts], 1e30, True)
    check_iteration(ctx, it, keys, pts, [c(a) / n for a in s], [[c(a) / (n * n) for a in r] for r in cov], 1e30)


def check_iteration(ctx, it, keys, pts, centre, cov, eps):
    c = ctx.const
    d, n = len(keys), len(pts)
    ctx.check("keys", list(it.keys) == list(keys))
    ctx.eqs("points", it.points, pts, exact=True)
    for i in range(d):
        ctx.eq("centre %d" % i, it.centre[i], centre[i])
        for j in range(d):
            ctx.eq("ellipse %d%d" % (i, j), it.ellipse[i, j], cov[i][j], scale=10)
    ctx.check("one noise per point", len(it.noise) == n)
    D, A = det(ctx, cov), adj(ctx, cov)
    qs = []
    for k, p in enumerate(pts):
        v = [c(x) - m for x, m in zip(p, centre)]
        q = form(ctx, A, v)
        qs.append(q)
        if d == 1:
            ctx.eq("noise %d" % k, it.noise[k], q, scale=100)
        else:
            r = ctx.sqrt(D)
            ctx.eq("noise %d" % k, c(it.noise[k]) * r, q, scale=100)
    js = it.json_repr()
    ctx.check("json keys", set(js) == {"points", "keys", "eps_max"} and list(js["keys"]) == list(keys) and js["eps_max"] == eps)
    ctx.eqs("json points", js["points"], pts, exact=True)


def given(ctx, d, nm="e"):
    """A centre and an ellipse, and a stand-in for the fit that returns them."""
    m = matrix(ctx, nm, d, 0.1, 10)
    centre = [ctx.real("%sc%d" % (nm, i), -L, L) for i in range(d)]
    calls = []

    def fit(points, eps_cut, *a, **k):
        calls.append(([list(p) for p in points], eps_cut))
        return ctx.np.array(list(centre)), ctx.np.array([list(r) for r in m])
    return centre, m, fit, calls


@R.each([(1, 1), (1, 3), (2, 1), (2, 3)], budget=60)
def amplitudes(ctx, d, n):
    """For any centre and ellipse the noise of each point is its amplitude."""
    fresh()
    centre, m, fit, calls = given(ctx, d)
    pts = [[ctx.real("p%d_%d" % (k, i), -L, L) for i in range(d)] for k in range(n)]
    eps = ctx.real("eps", 1, 1e6)
    keys = ["t", "energy"][:d]
    with Patched(Common(), fit_ellipse=fit):
        it = CO().EllipseClosedOrbitFinderIteration(list(keys), [list(p) for p in pts], eps)
        ctx.check("not before it is asked for", it.noise is None and it.centre is None and it.ellipse is None and calls == [])
        it.calculate_ellipse()
    ctx.check("one fit", len(calls) == 1)
    ctx.eqs("fitted points", calls[0][0], pts, exact=True)
    ctx.eq("fit limit", calls[0][1], eps, exact=True)
    check_iteration(ctx, it, keys, pts, centre, m, eps)


@R.each([(1, "mean"), (2, "mean"), (3, "mean"), (1, "sigma"), (2, "sigma"), (3, "sigma")], budget=60)
def spread(ctx, n, first):
    """Mean and standard deviation of the noise, computed when first asked for."""
    c = ctx.const
    centre, m, fit, calls = given(ctx, 1)
    pts = [[ctx.real("p%d" % k, -L, L)] for k in range(n)]
    with Patched(Common(), fit_ellipse=fit):
        it = CO().EllipseClosedOrbitFinderIteration(["x"], pts, 1e6)
        a = it.get_mean_noise() if first == "mean" else it.get_sigma_noise()
        mean, sigma = it.get_mean_noise(), it.get_sigma_noise()
    ctx.check("one fit", len(calls) == 1)
    ctx.eq("the same again", a, mean if first == "mean" else sigma, exact=True)
    q = [(c(p[0]) - centre[0]) * (c(p[0]) - centre[0]) for p in pts]
    ctx.eq("mean", c(mean) * n, sum(q[1:], q[0]), scale=100)


@R.each([1, 2, 3])
def deviation(ctx, n):
    """Mean and standard deviation of a list of noises."""
    c = ctx.const
    q = [ctx.real("q%d" % k, 0, L) for k in range(n)]
    it = CO().EllipseClosedOrbitFinderIteration(["x"], [[1.0]] * n, 1e6)
    it.noise = list(q)
    mean, sigma = it.get_mean_noise(), it.get_sigma_noise()
    s, s2 = 0, 0
    for a in q:
        s, s2 = s + c(a), s2 + c(a) * a
    ctx.eq("mean", c(mean) * n, s, scale=10)
    ctx.eq("variance", c(sigma) * sigma * (n * n), s2 * n - s * s, scale=1e5)
    ctx.check("not negative", sigma >= 0)
    it.noise = []
    ctx.raises("no noise", it.get_mean_noise, exc=ValueError)
    ctx.raises("no noise for the deviation", it.get_sigma_noise, exc=ValueError)


# ---- tracking ------------------------------------------------------------------------------------
COUNTS = [(1, (1,)), (1, (3,)), (2, (1, 1)), (2, (2,)), (3, (1, 1, 1)), (3, (2, 2)), (3, (1, 3)), (4, (3, 3)), (4, (2, 1, 1))]


@R.each(prod(COUNTS, [("x",), ("t", "px")], [False, True]), budget=60)
def points(ctx, case, keys, use_seed):
    """The points are the outputs of the tracking, from where it left off until there are enough, the seed first if asked for."""
    want, counts = case
    batches, vals = outputs(ctx, keys, counts)
    sd, st = seed(ctx, keys)
    start = {k: ctx.real("s_" + k, -L, L) for k in keys}
    tr = Track(batches, keys)
    centre, m, fit, calls = given(ctx, len(keys))
    dic = {k: start[k] for k in reversed(keys)}
    with Patched(Common(), fit_ellipse=fit):
        it = CO().EllipseClosedOrbitFinder(tr, sd, 1e5, use_seed).check_closed_orbit(dic, want)
    ks = sorted(keys)
    first = [start[k] for k in ks]
    perm = [keys.index(k) for k in ks]
    vals = [[v[p] for p in perm] for v in vals]
    n, used, asked = (1 if use_seed else 0), 0, []
    exp = [first] if use_seed else []
    pos = first
    k = 0
    while n < want:
        asked.append(pos)
        b = vals[used:used + counts[k]]
        exp += b
        used += counts[k]
        n += counts[k]
        pos = b[-1]
        k += 1
    ctx.check("keys in order", list(it.keys) == ks)
    ctx.eqs("points", it.points, exp, exact=True)
    ctx.check("tracked", len(tr.asked) == len(asked))
    for a, b in zip(tr.asked, asked):
        ctx.eqs("tracked from", [a[keys.index(q)] for q in ks], b, exact=True)
    if tr.hits:
        ctx.check("other variables of the seed", tr.hits[0]["pid"] == 13 and tr.hits[0]["z"] == 3.0 and tr.hits[0]["y"] == -7.0)
    ctx.check("limit", it.eps_max == 1e5)
    same(ctx, "seed", sd, st)
    ctx.check("question left alone", set(dic) == set(keys))
    ctx.eqs("question", [dic[q] for q in keys], [start[q] for q in keys], exact=True)


@R.each([((), 1, False), ((), 2, True), ((1,), 2, False), ((1, 1), 3, False), ((2,), 4, True), ((2, 2), 5, False)])
def lost(ctx, counts, want, use_seed):
    """A particle that is lost before there are enough points is a RuntimeError."""
    batches, vals = outputs(ctx, ["x"], counts)
    sd, st = seed(ctx, ["x"])
    f = CO().EllipseClosedOrbitFinder(Track(batches, ["x"]), sd, 1e5, use_seed)
    ctx.raises("lost", lambda: f.check_closed_orbit({"x": st["x"]}, want), exc=RuntimeError)
    f = CO().EllipseClosedOrbitFinder(Track(batches, ["x"]), sd, 1e5, use_seed)
    g = f.find_closed_orbit_generator(["x"], want)
    ctx.raises("lost in the search", lambda: next(g), exc=RuntimeError)


@R.case()
def unfit(ctx):
    """A check whose ellipse cannot be computed still returns the points; a search says so."""
    import numpy
    for exc in (ValueError, numpy.linalg.LinAlgError):
        def fit(*a, **k):
            raise exc("no")
        batches, vals = outputs(ctx, ["x"], (2,))
        sd, st = seed(ctx, ["x"])
        with Patched(Common(), fit_ellipse=fit):
            it = CO().EllipseClosedOrbitFinder(Track(batches, ["x"]), sd).check_closed_orbit({"x": st["x"]}, 2)
            ctx.eqs("points", it.points, vals, exact=True)
            ctx.check("no noise", it.noise is None)
            batches, vals = outputs(ctx, ["x"], (2,))
            g = CO().EllipseClosedOrbitFinder(Track(batches, ["x"]), sd).find_closed_orbit_generator(["x"], 2)
            ctx.raises("search", lambda: next(g), exc=ValueError)


# ---- the search ----------------------------------------------------------------------------------
@R.each([(("x",), 2, 1), (("x",), 2, 2), (("x",), 2, 3), (("x",), 2, 0), (("px", "x"), 2, 2), (("x",), 3, 2), (("x",), 2, None)], budget=60, reach=[])
def search(ctx, keys, n, most):
    """Each iteration is made of what was tracked from the centre of the one before; the search ends when the noise spread exceeds its mean or after the allowed number, never later."""
    c = ctx.const
    total = 3 if most is None else most
    d = len(keys)
    batches, vals, fits, cs = [], [], [], []
    for r in range(total + 2):
        b = []
        for i in range(n):
            k = r * n + i
            h = Hit()()
            st = {v: ctx.real("o%d_%s" % (k, v), -L, L) if r == 0 or i == 0 else float(3 * k + 1) for v in keys}
            for v, a in st.items():
                h.set(v, a)
            h.set("y", float(k))
            b.append(h)
            vals.append([st[v] for v in keys])
        batches.append(b)
    means, sigmas = [[ctx.real("%s%d" % (nm, r), 0, L) for r in range(total + 2)] for nm in ("mean", "sigma")]
    sd, st = seed(ctx, keys)
    tr = Track(batches, keys)
    calls = []

    def fit(points, *a, **k):
        """Any centre; the noise list is what the harness says (set below through the ellipse)."""
        r = len(calls)
        cen = [ctx.real("c%d_%s" % (r, v), -L, L) for v in keys]
        calls.append((points, cen))
        return ctx.np.array(list(cen)), ctx.np.array([[1.0 if i == j else 0.0 for i in range(d)] for j in range(d)])
    I = CO().EllipseClosedOrbitFinderIteration
    mean, sigma = (lambda it: means[len(calls) - 1]), (lambda it: sigmas[len(calls) - 1])
    got = []
    with Patched(Common(), fit_ellipse=fit), Patched(I, get_mean_noise=mean, get_sigma_noise=sigma):
        f = CO().EllipseClosedOrbitFinder(tr, sd, 1e5)
        g = f.find_closed_orbit_generator(list(keys), n, max_iterations=most)
        want = 0
        for r in range(total + 1):
            tag, it = ctx.outcome(next, g)
            if tag == "raise":
                ctx.check("ends quietly", isinstance(it, StopIteration))
                break
            got.append(it)
            if most is None and r + 1 == 3:
                break
    for r in range(total):
        want += 1
        if means[r] < sigmas[r]:
            break
    ctx.check("number of iterations", len(got) == want)
    ctx.check("number of trackings", len(tr.asked) == want)
    pos = [st[v] for v in keys]
    for r, it in enumerate(got):
        ctx.eqs("start of %d" % r, tr.asked[r], pos, exact=True)
        ctx.eqs("points of %d" % r, it.points, vals[r * n:r * n + n], exact=True)
        ctx.eqs("centre of %d" % r, [it.centre[i] for i in range(d)], calls[r][1], exact=True)
        ctx.check("keys", list(it.keys) == list(keys) and it.eps_max == 1e5)
        ctx.check("other variables", tr.hits[r]["y"] == -7.0 and tr.hits[r]["pid"] == 13)
        pos = calls[r][1]
    same(ctx, "seed", sd, st)


@R.each([2, 3], budget=60)
def converged(ctx, n):
    """With the true noise: the search goes on exactly while the mean noise is not below its spread."""
    c = ctx.const
    batches, vals = [], []
    for r in range(3):
        b = []
        for i in range(n):
            h = Hit()()
            a = ctx.real("o%d" % i, -10, 10) if r == 0 and i < 2 and (n == 2 or i == 0) else float(i + r)
            h.set("x", a)
            h.set("y", float(r * n + i))
            vals.append(a)
            b.append(h)
        batches.append(b)
    cen = ctx.real("c", -10, 10) if n == 2 else 0.5
    sd, st = seed(ctx, ["x"])
    q = [(c(a) - cen) * (c(a) - cen) for a in vals[:n]]
    s, s2 = sum(q[1:], q[0]), sum([a * a for a in q[1:]], q[0] * q[0])
    # mean < sigma  <=>  s^2 < n s2 - s^2
    lhs, rhs = 2 * s * s, n * s2
    ctx.assume((lhs * 1.001 + 0.001 < rhs) | (lhs > rhs * 1.001 + 0.001))
    tr = Track(batches, ["x"])
    with Patched(Common(), fit_ellipse=lambda *a, **k: (ctx.np.array([cen]), ctx.np.array([[4.0]]))):
        g = CO().EllipseClosedOrbitFinder(tr, sd).find_closed_orbit_generator(["x"], n, 2)
        next(g)
        tag, it = ctx.outcome(next, g)
    if lhs < rhs:
        ctx.check("stops", tag == "raise" and isinstance(it, StopIteration))
    else:
        ctx.check("goes on", tag == "ok")
        ctx.eq("from the centre", tr.asked[1][0], cen, exact=True)


# ---- the scan ------------------------------------------------------------------------------------
@R.each([(("x",), 3), (("px", "x"), 2), (("px", "t", "x"), 2)], budget=60)
def scan(ctx, keys, most):
    """The scan visits every combination of steps below the ends exactly once, the last variable fastest, and reports what was tracked from there."""
    n = len(keys)
    start, end, step, count = {}, {}, {}, []
    for i, k in enumerate(keys):
        free = i >= n - 2
        start[k] = ctx.const(ctx.int("a%d" % i, -100, 100)) * 0.25 if free else 1.0
        step[k] = ctx.const(ctx.int("s%d" % i, 1, 100)) * 0.25 if free else 0.5
        end[k] = ctx.const(ctx.int("e%d" % i, -200, 1000)) * 0.25 if free else 2.0
        ctx.assume(ctx.const(start[k]) + step[k] * most >= end[k])
        j = 0
        while j < most and ctx.const(start[k]) + step[k] * j < end[k]:
            j += 1
        count.append(j)
    if min(count) == 0:
        count = [0] * n
    grid = [[ctx.const(start[k]) + step[k] * j for k, j in zip(keys, js)] for js in itertools.product(*[range(j) for j in count])]
    batches, vals = outputs(ctx, keys, [1] * (len(grid) + 1), free=(0,))
    sd, st = seed(ctx, keys)
    tr = Track(batches, keys)
    dicts = [{k: d[k] for k in reversed(keys)} for d in (start, end, step)]
    got = []
    g = CO().EllipseClosedOrbitFinder(tr, sd, 1e4).scan_generator(*dicts)
    for _ in range(len(grid) + 1):
        tag, it = ctx.outcome(next, g)
        if tag == "raise":
            ctx.check("ends quietly", isinstance(it, StopIteration))
            break
        got.append(it)
    ctx.check("number of steps", len(got) == len(grid))
    for r, (it, p) in enumerate(zip(got, grid)):
        ctx.eqs("step %d" % r, tr.asked[r], p)
        ctx.check("keys %d" % r, list(it.keys) == list(keys))
        ctx.eqs("points %d" % r, it.points, [p, vals[r]])
    for d, o in zip(dicts, (start, end, step)):
        ctx.eqs("limits left alone", [d[k] for k in keys], [o[k] for k in keys], exact=True)
    same(ctx, "seed", sd, st)
