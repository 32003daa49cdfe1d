"""C21: peak finders."""
from engine.harness import Registry
from props.lib import *
R = Registry("C21")
R.bounds = {"window": "signals of 1-5 samples (thorough: 7), windows of 1 to more than all samples, steps 1-3, all real samples including ties",
            "uphill": "signals of 1-6 samples (thorough: 8)", "refine": "parabolas with all real coefficients in signals of 9-12 samples, arbitrary signals of 7-9 samples with some samples free",
            "threshold": "signals of 3-4 samples"}
R.assumptions = ["exact real arithmetic", "ROOT's fit is a stand-in: the exact least squares parabola (refine) with symbolic covariances"]
L = 1000


def setup(sym):
    import xboa.algorithms.peak_finder
R.setup = setup


def PF():
    import xboa.algorithms.peak_finder as p
    return p


def signal(ctx, n, nm="y"):
    return [ctx.real("%s%d" % (nm, i), -L, L) for i in range(n)]


def window_spec(y, w, step, free_left=True):
    """Positions that are the first maximum of a window and not on the edge of the window, unless that is the edge of the signal."""
    n = len(y)
    w = min(w, n)
    out = []
    for i in range(0, n - w + 1, step):
        p = i
        for j in range(i + 1, i + w):
            if y[j] > y[p]:
                p = j
        if (p == i and i != 0) or (p == i + w - 1 and i + w != n):
            continue
        if p not in out:
            out.append(p)
    return out


def WIN(ns):
    return [(n, w, s) for n in ns for w in range(1, n + 2) for s in (1, 2, 3) if s == 1 or s <= n - w]


@R.each(WIN([1, 2, 3, 4]), budget=60)
def window(ctx, n, w, step):
    """Exactly the positions that are the maximum of the window around them, in increasing order, once each, the signal left alone."""
    y = signal(ctx, n)
    data = list(y)
    got = PF().WindowPeakFinder(w, 0.0, step).find_peaks(data)
    want = window_spec(y, w, step)
    ctx.check("peaks", list(got) == want)
    ctx.check("increasing", all(a < b for a, b in zip(got, got[1:])))
    ctx.eqs("signal", data, y, exact=True)


@R.each([(5, 2, 1), (5, 3, 1), (5, 3, 2), (5, 4, 1), (6, 3, 1)], budget=60, solver_timeout=20000)
def window5(ctx, n, w, step):
    y = signal(ctx, n)
    got = PF().WindowPeakFinder(w, 0.0, step).find_peaks(list(y))
    ctx.check("peaks", list(got) == window_spec(y, w, step))


@R.each(WIN([6, 7]), tier="thorough", budget=300, max_paths=200000)
def window7(ctx, n, w, step):
    y = signal(ctx, n)
    got = PF().WindowPeakFinder(w, 0.5, step).find_peaks(list(y))
    ctx.check("peaks", list(got) == window_spec(y, w, step))


@R.each([(4, 3), (4, 2), (3, 3)], budget=60)
def window_affine(ctx, n, w):
    """The peaks of a y + c are the peaks of y."""
    y = signal(ctx, n)
    a, c = ctx.real("a", 0.01, 100), ctx.real("c", -L, L)
    f = PF().WindowPeakFinder(w, 0.0, 1)
    g = f.find_peaks([ctx.const(v) * a + c for v in y])
    ctx.check("peaks", list(g) == window_spec(y, w, 1))
    # the finder holds no state
    ctx.check("again", list(f.find_peaks(list(y))) == list(g))


@R.each([(3, 3), (4, 3)], budget=60)
def threshold(ctx, n, w):
    """With a threshold, only peaks that would be found without one, whatever positive factor the signal has."""
    y = signal(ctx, n)
    base = window_spec(y, w, 1)
    f = PF().WindowPeakFinder(w, 1.25, 1)
    g = list(f.find_peaks(list(y)))
    ctx.check("subset", all(p in base for p in g))
    h = list(f.find_peaks([ctx.const(v) * 4 for v in y]))
    ctx.check("scaled", h == g)


@R.case("threshold_shift", budget=60)
def threshold_shift(ctx):
    """With a threshold: adding a constant does not change the peaks."""
    y = [0.0, ctx.real("y", 1, 100), 0.0]
    c = ctx.real("c", -L, L)
    f = PF().WindowPeakFinder(3, 1.25, 1)
    ctx.check("shifted", list(f.find_peaks([ctx.const(v) + c for v in y])) == list(f.find_peaks(list(y))))


# ---- uphill downhill --------------------------------------------------------------------------
class Fit:
    """Stand-in for a ROOT function."""
    def __init__(self, *a):
        self.p = [0.0] * 5
        self.fixed = set()
        self.formula = a[1] if len(a) > 1 else None

    def SetRange(self, a, b):
        pass

    def SetParameter(self, i, v):
        self.p[i] = v

    def FixParameter(self, i, v):
        self.p[i] = v
        self.fixed.add(i)

    def ReleaseParameter(self, i):
        self.fixed.discard(i)

    def GetParameter(self, i):
        return self.p[i]

    def GetParError(self, i):
        return 0.0

    def Eval(self, x):
        return self.p[0] + self.p[1] * x + self.p[2] * x * x


class Fake:
    pass


def root(graph=None):
    r = Fake()
    r.TF1 = Fit
    r.TGraph = graph
    return r


class Patched:
    def __init__(self, mod, **kw):
        self.mod, self.kw = mod, kw

    def __enter__(self):
        self.old = {k: getattr(self.mod, k, None) for k in self.kw}
        for k, v in self.kw.items():
            setattr(self.mod, k, v)

    def __exit__(self, *a):
        for k, v in self.old.items():
            setattr(self.mod, k, v)


def ud():
    import xboa.algorithms.peak_finder._uphill_downhill_peak_finder as mod
    with Patched(mod, ROOT=root()):
        return PF().UphillDownhillPeakFinder()


def _uphill(ctx, n):
    y = signal(ctx, n)
    data = list(y)
    got = list(ud().find_peaks(data))
    want = [i for i in range(1, n - 1) if y[i] > y[i - 1] and y[i] > y[i + 1]]
    ctx.check("peaks", got == want)
    ctx.eqs("signal", data, y, exact=True)


@R.each([1, 2, 3, 4, 5, 6], budget=60)
def uphill(ctx, n):
    """Exactly the samples above both of their neighbours."""
    _uphill(ctx, n)


@R.each([8], tier="thorough", budget=300, max_paths=100000)
def uphill8(ctx, n):
    _uphill(ctx, n)


@R.case("uphill_affine")
def uphill_affine(ctx):
    y = signal(ctx, 5)
    a, c = ctx.real("a", 0.01, 100), ctx.real("c", -L, L)
    got = list(ud().find_peaks([ctx.const(v) * a + c for v in y]))
    ctx.check("peaks", got == [i for i in range(1, 4) if y[i] > y[i - 1] and y[i] > y[i + 1]])


# ---- refinement -------------------------------------------------------------------------------
def lsq(ctx, xs, ys):
    """Exact least squares parabola through (x, y)."""
    from fractions import Fraction as F
    s = [sum((F(x) ** k for x in xs), F(0)) for k in range(5)]
    m = [[s[i + j] for j in range(3)] for i in range(3)]
    # inverse of the concrete matrix
    n = 3
    a = [list(r) + [F(int(i == j)) for j in range(n)] for i, r in enumerate(m)]
    for c in range(n):
        p = next(r for r in range(c, n) if a[r][c] != 0)
        a[c], a[p] = a[p], a[c]
        a[c] = [v / a[c][c] for v in a[c]]
        for r in range(n):
            if r != c:
                a[r] = [u - a[r][c] * v for u, v in zip(a[r], a[c])]
    inv = [r[n:] for r in a]
    out = []
    for i in range(3):
        t = ctx.const(0.0)
        for x, y in zip(xs, ys):
            k = sum(inv[i][j] * F(x) ** j for j in range(3))
            t = t + ctx.const(y) * k
        out.append(t)
    return out


def refiner(ctx, peaks, seed, mx, cov):
    """RefinePeakFinder on stand-ins; returns finder, patch and the list of fits made."""
    import xboa.algorithms.peak_finder._refine_peak_finder as mod
    fits = []

    class Graph:
        def __init__(self, xs, ys):
            self.xs, self.ys = list(xs), list(ys)

        def Fit(self, f, opt=""):
            f.p[:3] = lsq(ctx, self.xs, self.ys)
            fits.append((list(self.xs), list(self.ys), list(f.p[:3]), opt))
            r = Fake()
            r.GetCovarianceMatrix = lambda: (lambda i, j: cov[i][j])
            return r

        def SetMarkerStyle(self, *a):
            pass

        def Draw(self, *a):
            pass
    fake = Fake()
    fake.make_root_graph = lambda name, xs, xl, ys, yl: (Fake(), Graph(xs, ys))
    fake.clear_root = lambda: None
    return PF().RefinePeakFinder(peaks, seed, mx, False), Patched(mod, ROOT=root(), common=fake), fits


def sym_cov(ctx):
    c = [[None] * 3 for _ in range(3)]
    for i in range(3):
        for j in range(i, 3):
            c[i][j] = c[j][i] = ctx.real("k%d%d" % (i, j), -10, 10)
    return c


def check_cov(ctx, label, got, p, cov):
    """Propagation of the covariances of the parameters to the vertex (times powers of p2)."""
    c = ctx.const
    p1, p2 = c(p[1]), c(p[2])
    # derivatives of x = -p1 / 2 p2 and y = p0 - p1^2 / 4 p2, times 4 p2^2
    J = [[0.0, -2 * p2, 2 * p1], [4 * p2 * p2, -2 * p1 * p2, p1 * p1]]
    d = 16 * p2 * p2 * p2 * p2
    for i in range(2):
        for j in range(2):
            s = 0
            for a in range(3):
                for b in range(3):
                    s = s + c(J[i][a]) * cov[a][b] * J[j][b]
            ctx.eq("%s covariance %d%d" % (label, i, j), c(got[i][j]) * d, s)


@R.each([(9, 4, 2, 4), (9, 3, 1, 3), (12, 5, 2, 5), (9, 1, 2, 4), (12, 10, 1, 9)], budget=60)
def parabola(ctx, n, peak, seed, mx):
    """A signal that is a parabola: the vertex is found wherever it lies within the fitted range, with its height and errors, else nothing."""
    a, b, q = ctx.real("a", -100, 100), ctx.real("b", -100, 100), ctx.real("q", -10, 10)
    ctx.assume((q >= 0.01) | (q <= -0.01))
    c = ctx.const
    y = [c(a) + c(b) * (i - peak) + c(q) * ((i - peak) * (i - peak)) for i in range(n)]
    cov = sym_cov(ctx)
    f, patch, fits = refiner(ctx, [peak], seed, mx, cov)
    with patch:
        tag, got = ctx.outcome(f.find_peak_errors, list(y))
    if tag == "raise":
        # the only excuse is a piece of signal without any spread or too short to compare
        ctx.check("refused only for a flat piece", isinstance(got, (ZeroDivisionError,)))
        ctx.reach("flat")
        return
    xs, ys, p, opt = fits[-1]
    delta = max(xs[-1], -xs[0])
    x2, den = -c(b), 2 * c(q)            # vertex = peak + x2 / den
    # inside the range and the signal (both sides multiplied by den^2)
    dd = den * den
    near = x2 * x2 <= dd * delta * delta
    inside = ((x2 * den + dd * peak) >= 0) & ((x2 * den + dd * peak) <= dd * n)
    if near & inside:
        ctx.check("one peak", len(got) == 1)
        ctx.eq("x", c(got[0]["x"]) * den, x2 + den * peak)
        ctx.eq("y", c(got[0]["y"]) * den * 2, c(a) * den * 2 - c(b) * b)
        ctx.check("seed", got[0]["x_in"] == peak)
        check_cov(ctx, "vertex", got[0]["cov(x,y)"], p, cov)
        ctx.reach("found")
    else:
        ctx.check("no peak", len(got) == 0)


@R.each([(9, [4], 2, 4, (4,)), (9, [3, 5], 2, 4, (3,)), (9, [3, 5], 1, 4, (4,)), (9, [5, 3], 2, 8, (8,))], budget=60)
def refined(ctx, n, peaks, seed, mx, free):
    """Any signal: the points fitted are those around the peak, and the answer for each peak is the vertex of its own last fit."""
    base = [1.0, 2.0, 4.5, 5.0, 5.25, 4.0, 3.5, 1.5, 0.0, -1.0]
    y = [ctx.real("y%d" % i, -10, 10) if i in free else base[i] for i in range(n)]
    c = ctx.const
    cov = sym_cov(ctx)
    f, patch, fits = refiner(ctx, list(peaks), seed, mx, cov)
    with patch:
        tag, got = ctx.outcome(f.find_peak_errors, list(y))
    if tag == "raise":
        ctx.check("refused only for a flat piece %r" % got, isinstance(got, ZeroDivisionError))
        return
    last = [x for x in fits if "S" in x[3]]
    ctx.check("a final fit for every peak", len(last) == len(peaks))
    k = 0
    for peak, (xs, ys, p, opt) in zip(peaks, last):
        d = xs[-1]
        ctx.check("range", any(xs == list(range(max(-peak, -d), min(n - peak, d + 1))) for d in [seed * 2 ** e for e in range(6)] if d <= max(mx, seed)))
        ctx.eqs("fitted samples", ys, [y[peak + x] for x in xs], exact=True)
        d = max(xs[-1], -xs[0])
        x2, den = -c(p[1]), 2 * c(p[2])
        dd = den * den
        if (x2 * x2 <= dd * d * d) & ((x2 * den + dd * peak) >= 0) & ((x2 * den + dd * peak) <= dd * n):
            ctx.check("reported", k < len(got))
            ctx.check("seed", got[k]["x_in"] == peak)
            ctx.eq("x", c(got[k]["x"]) * den, x2 + den * peak)
            ctx.eq("y", c(got[k]["y"]) * den * 2, c(p[0]) * den * 2 - c(p[1]) * p[1])
            check_cov(ctx, "vertex", got[k]["cov(x,y)"], p, cov)
            k += 1
    ctx.check("nothing else", k == len(got))


@R.each([2, 3, 4])
def sigma(ctx, n):
    """The spread used to judge fits is the standard deviation."""
    y = signal(ctx, n)
    m = sum(y[1:], ctx.const(y[0]))
    s = ctx.const(0.0)
    for v in y:
        s = s + (ctx.const(v) * n - m) * (ctx.const(v) * n - m)
    got = PF().RefinePeakFinder.sigma(list(y))
    ctx.eq("variance", ctx.const(got) * got * n ** 3, s)
    ctx.check("not negative", got >= 0)
