"""C23: tunes."""
import math
from engine.harness import Registry
from props.lib import *
from props.C06 import fresh
from props.C21 import Patched, Fake
R = Registry("C23")
R.bounds = {"phase advance": "2-4 points anywhere, ellipses with symbolic axes (upright) or of five given shapes (tilted), all centres; two runs with different data",
            "Fourier": "signals of 3-9 samples of which two are free, frequencies of a grid of 9 values; the full search on signals of 5-7 samples of which one is free"}
R.assumptions = ["exact real arithmetic", "atan2 is uninterpreted with values in [-pi, pi] (the same angle for the same arguments)", "points are not at the centre of the ellipse",
                 "tracking is a stand-in that returns given hits", "numpy.fft of symbolic data is the defining sum with floating point cosines"]
L = 1000


def setup(sym):
    import xboa.algorithms.tune
R.setup = setup


def T():
    import xboa.algorithms.tune as t
    return t


SHAPES = [[[1.0, 0.0], [0.0, 1.0]], [[2.0, 0.0], [1.0, 0.5]], [[3.0, 0.0], [-2.0, 4.0]], [[0.25, 0.0], [5.0, 1.0]], [[1.0, 0.0], [-0.5, 0.125]]]


def shape(ctx, k):
    """An ellipse and its lower triangular root."""
    if k is None:
        a, b = ctx.real("va", 0.01, 100), ctx.real("vb", 0.01, 100)
        return [[ctx.sqrt(a), 0.0], [0.0, ctx.sqrt(b)]], [[a, 0.0], [0.0, b]]
    return SHAPES[k], gram(ctx, SHAPES[k])


def gram(ctx, l):
    c = ctx.const
    return [[c(l[0][0]) * l[0][0], c(l[0][0]) * l[1][0]], [c(l[0][0]) * l[1][0], c(l[1][0]) * l[1][0] + c(l[1][1]) * l[1][1]]]


def patched(ctx, log, centre, ell):
    import xboa.algorithms.tune._dphi_tune as mod
    import xboa.common as common

    def fit(points, cut, *a, **k):
        log.append((points, cut))
        return ctx.np.array(centre), ctx.np.array(ell)
    return Patched(common, fit_ellipse=fit)


def advances(ctx, u, up, c, l):
    """Phase advances, in turns, of points taken to the circle by the inverse of the triangular root."""
    k = ctx.const
    pts = []
    for a, b in zip(u, up):
        x = (k(a) - c[0]) / l[0][0]
        pts.append((x, ((k(b) - c[1]) - l[1][0] * x) / l[1][1]))
    out = []
    for p, q in zip(pts, pts[1:]):
        d = k(ctx.m.atan2(p[1], p[0])) - ctx.m.atan2(q[1], q[0])
        if d < 0:
            d = d + 2 * ctx.m.pi
        out.append(d / (2 * ctx.m.pi))
    return out


def points(ctx, n, nm, centre):
    u = [ctx.real("%su%d" % (nm, i), -L, L) for i in range(n)]
    up = [ctx.real("%sv%d" % (nm, i), -L, L) for i in range(n)]
    for a, b in zip(u, up):
        ctx.assume((a > centre[0]) | (a < centre[0]) | (b > centre[1]) | (b < centre[1]))
    return u, up


@R.each([(n, k) for n in (2, 3) for k in (None, 0, 1, 2, 3, 4)] + [(4, 1)], budget=60)
def dphi(ctx, n, k):
    """The advances are the angles between successive points on the circle as fractions of a turn in [0, 1); the tune is their mean."""
    l, ell = shape(ctx, k)
    c = [ctx.real("c0", -L, L), ctx.real("c1", -L, L)]
    u, up = points(ctx, n, "", c)
    log = []
    f = T().DPhiTuneFinder(list(u), list(up))
    with patched(ctx, log, c, ell):
        tune = f.get_tune()
    want = advances(ctx, u, up, c, l)
    ctx.check("one advance per pair", len(f.dphi) == n - 1)
    for i, (a, b) in enumerate(zip(f.dphi, want)):
        ctx.eq("advance %d" % i, a, b)
        ctx.check("range %d" % i, (a >= 0) & (a <= 1))
    ctx.eq("tune", ctx.const(tune) * (n - 1), sum(want[1:], want[0]))
    ctx.eq("remembered tune", f.tune, tune)
    ctx.check("points fitted", len(log) == 1 and len(log[0][0]) == n)
    for i, p in enumerate(log[0][0]):
        ctx.eqs("fitted point %d" % i, list(p), [u[i], up[i]], exact=True)
    ctx.eqs("data", list(f.u) + list(f.up), u + up, exact=True)


@R.each([(2, 2, 0), (3, 2, 1), (2, 3, 2)], budget=60)
def again(ctx, n, m, k):
    """Later data give the same answer as a new finder, and the same data the same answer."""
    l, ell = shape(ctx, k)
    c = [0.0, 0.0]
    u, up = points(ctx, n, "", c)
    v, vp = points(ctx, m, "q", c)
    f = T().DPhiTuneFinder(list(u), list(up))
    with patched(ctx, [], c, ell):
        t1 = f.get_tune()
        t2 = f.get_tune()
        f.u, f.up = list(v), list(vp)
        t3 = f.get_tune()
        g = T().DPhiTuneFinder(list(v), list(vp))
        t4 = g.get_tune()
    ctx.eq("same data", t1, t2)
    want = advances(ctx, v, vp, c, l)
    ctx.eq("new data", ctx.const(t3) * (m - 1), sum(want[1:], want[0]))
    ctx.eq("new finder", t4, t3)
    ctx.check("advances of the new data only", len(f.dphi) == m - 1 and len(f.point_circles) == m)


@R.each({"nothing": (None, None), "no up": ([1.0, 2.0], None), "no u": (None, [1.0, 2.0])})
def missing(ctx, u, up):
    ctx.raises("refused", lambda: T().DPhiTuneFinder(u, up).get_tune(), exc=ValueError)


class Track:
    def __init__(self, hits, log):
        self.hits, self.log = hits, log

    def track_one(self, hit):
        self.log.append(hit)
        return self.hits


@R.each([("dphi", None), ("dphi", [0, 2]), ("dphi", [2]), ("fft", None), ("fft", [0, 2]), ("dphi", []), ("fft", [1])])
def tracking(ctx, kind, use):
    """The displaced copy of the reference is tracked and the chosen output hits give the data; the reference stays."""
    fresh()
    hits, st = zip(*[mk(ctx, "o%d" % i, ["x", "px"], L) for i in range(3)])
    ref, rs = mk(ctx, "r", ["x", "px", "y"], L)
    d1, d2 = ctx.real("d1", -L, L), ctx.real("d2", -L, L)
    log = []
    if kind == "dphi":
        f = T().DPhiTuneFinder()
        f.run_tracking("x", "px", d1, d2, ref, Track(list(hits), log), use_hits=use)
    else:
        f = T().FFTTuneFinder()
        f.run_tracking("x", d1, ref, Track(list(hits), log), use_hits=use)
        d2 = 0.0
    sel = range(3) if use is None else use
    ctx.check("one track", len(log) == 1)
    ctx.eqs("start", [log[0]["x"], log[0]["px"], log[0]["y"]], [ctx.const(rs["x"]) + d1, ctx.const(rs["px"]) + d2, rs["y"]])
    ctx.eqs("reference", [ref["x"], ref["px"], ref["y"]], [rs["x"], rs["px"], rs["y"]], exact=True)
    ctx.eqs("u", list(f.u), [st[i]["x"] for i in sel], exact=True)
    ctx.eqs("up", list(f.up), [st[i]["px"] for i in sel], exact=True)


# ---- Fourier ----------------------------------------------------------------------------------
FREQ = [0.0, 0.1, 0.125, 1 / 3.0, 0.25, 0.4, 0.5, 0.49, 0.015]


def amplitude2(ctx, u, f, window=None):
    """Square of the modulus of sum u_m exp(2 pi i m f)"""
    re, im = ctx.const(0.0), ctx.const(0.0)
    for m, a in enumerate(u):
        w = window[m] if window else 1.0
        re = re + ctx.const(a) * (w * math.cos(m * f * 2 * math.pi))
        im = im + ctx.const(a) * (w * math.sin(m * f * 2 * math.pi))
    return re * re + im * im


BASE = [1.0, -0.5, -1.5, 2.0, 0.5, -2.0, 0.25, 1.25, -0.75]


def signal(ctx, n, free):
    return [ctx.real("u%d" % i, -10, 10) if i in free else BASE[i] for i in range(n)]


@R.each([(3, (0, 1), f) for f in range(9)] + [(3, (0, 2), 3), (5, (1, 3), 1), (5, (0, 4), 3), (5, (2, 4), 8), (7, (1, 5), 1), (7, (3, 6), 6), (4, (2, 3), 3), (6, (4, 5), 5)])
def slow(ctx, n, free, k):
    """The slow transform is the modulus of the Fourier sum at that frequency."""
    u = signal(ctx, n, free)
    f = T().FFTTuneFinder(list(u))
    y = f._sft(FREQ[k])
    ctx.eq("amplitude squared", ctx.const(y) * y, amplitude2(ctx, u, FREQ[k]), scale=1e4)
    ctx.check("not negative", y >= 0)
    ctx.eqs("data", list(f.u), u, exact=True)


@R.each([(3, (0, 1)), (3, (1, 2)), (4, (1, 3)), (5, (0, 3)), (5, (2, 4)), (6, (4, 5)), (7, (1, 6)), (9, (2, 7))])
def fast(ctx, n, free):
    """The spectrum: frequencies i/n up to one half, and the amplitude of the signal at each."""
    u = signal(ctx, n, free)

    class Quiet:
        def find_peaks(self, data):
            return []
    f = T().FFTTuneFinder(list(u), peak_finder=Quiet())
    f._fft_find_peaks()
    ctx.check("frequencies", len(f.k_mag_x) == n // 2 + 1 and len(f.k_mag_y) == n // 2 + 1)
    for i, (x, y) in enumerate(zip(f.k_mag_x, f.k_mag_y)):
        ctx.check("frequency %d" % i, abs(x - i / float(n)) < 1e-12)
        ctx.eq("amplitude squared %d" % i, ctx.const(y) * y, amplitude2(ctx, u, i / float(n)), scale=1e4)


@R.each([(5, 0.1, (0,)), (5, 0.06, (3,)), (5, 0.3, (1,)), (6, 0.06, (2,)), (7, 0.1, (4,)), (7, 0.04, (0,))], budget=60)
def search(ctx, n, tol, free):
    """The tune is a frequency of the table with the largest amplitude of the peaks, every amplitude in the table is that of the signal at its frequency, and a second search agrees."""
    u = signal(ctx, n, free)
    f = T().FFTTuneFinder(list(u))
    tag, tune = ctx.outcome(f.get_tune, tol)
    used = u[:n - 1] if n % 2 == 0 else u
    ctx.check("samples used", len(f.u) == len(used))
    if tag == "raise":
        ctx.check("only because there is no peak", isinstance(tune, ValueError))
        ctx.reach("no peak")
        return
    ctx.check("frequency", 0 <= tune <= 0.5 and tune in f.k_mag_x and tune == f.fractional_tune)
    ctx.check("table", len(f.k_mag_x) == len(f.k_mag_y))
    for i, (x, y) in enumerate(zip(f.k_mag_x, f.k_mag_y)):
        ctx.eq("amplitude squared %d" % i, ctx.const(y) * y, amplitude2(ctx, used, x), scale=1e4)
    y = f.k_mag_y[f.k_mag_x.index(tune)]
    for i, p in enumerate(f.peak_x_list):
        ctx.check("peak %d" % i, p in f.k_mag_x)
        ctx.le("largest of the peaks %d" % i, f.k_mag_y[f.k_mag_x.index(p)], y)
    t2, again_ = ctx.outcome(f.get_tune, tol)
    ctx.check("again", t2 == "ok" and again_ == tune)
    ctx.reach("found")


@R.each([(3, (1,)), (5, (0, 3)), (7, (2,))])
def hanning(ctx, n, free):
    """With the filter, sample m is weighted by 2 sin^2(pi m / n)."""
    u = signal(ctx, n, free)
    y = T().FFTTuneFinder(list(u), use_hanning_filter=True)._sft(0.2)
    w = [2 * math.sin(math.pi * m / n) ** 2 for m in range(n)]
    ctx.eq("amplitude squared", ctx.const(y) * y, amplitude2(ctx, u, 0.2, w), scale=1e4)


@R.case("no_data")
def no_data(ctx):
    ctx.raises("refused", lambda: T().FFTTuneFinder().get_tune(), exc=ValueError)
