"""C22: smoothing."""
from engine.harness import Registry
from props.lib import *
R = Registry("C22")
R.bounds = {"Gaussian": "signals of 0-5 samples (thorough: 8), truncations 0 to more than the signal, all real samples, all widths in 0.1-100 (exp uninterpreted, positive, increasing)",
            "cut": "signals of 1-5 samples, windows of 1-6 samples, tables of up to three columns, all real samples and cuts"}
R.assumptions = ["exact real arithmetic", "exp is any positive increasing function with exp(0) = 1"]
L = 1000


def setup(sym):
    import xboa.algorithms.smoothing
R.setup = setup


def S():
    import xboa.algorithms.smoothing as s
    return s


def signal(ctx, n, nm="y"):
    return [ctx.real("%s%d" % (nm, i), -L, L) for i in range(n)]


def weights(ctx, sigma, r):
    """exp(-k^2 / 2 sigma^2) for k = 0 .. r"""
    c = ctx.const
    return [c(1.0) if k == 0 else ctx.m.exp(-c(float(k * k)) / (2 * c(sigma) * sigma)) for k in range(r + 1)]


def _gauss(ctx, n, r, adjust):
    sigma = ctx.real("sigma", 0.1, 100)
    y = signal(ctx, n)
    data = list(y)
    g = S().GaussianSmoothing(sigma, r, adjust)
    out = g.smooth(data)
    w = weights(ctx, sigma, r)
    full = w[0]
    for k in range(1, r + 1):
        full = full + 2 * w[k]
    ctx.check("as many samples", len(out) == n)
    for i in range(n):
        s, t = 0, 0
        for j in range(n):
            if abs(i - j) <= r:
                s = s + w[abs(i - j)] * y[j]
                t = t + w[abs(i - j)]
        ctx.eq("sample %d" % i, ctx.const(out[i]) * (t if adjust else full), s)
    ctx.eqs("signal left alone", data, y, exact=True)
    return out, g, y


@R.each([(n, r, a) for n in (0, 1, 2, 3, 5) for r in (0, 1, 2, 4) for a in (True, False) if r <= n + 1], budget=60)
def gauss(ctx, n, r, adjust):
    """Each output is the Gaussian average of the samples within the range, divided by the weights available or by all weights."""
    _gauss(ctx, n, r, adjust)


@R.each([(8, 3, True), (8, 7, False), (7, 9, True), (6, 2, False)], tier="thorough", budget=300)
def gauss8(ctx, n, r, adjust):
    _gauss(ctx, n, r, adjust)


@R.each([(1, 0), (2, 1), (3, 1), (3, 2), (4, 5)])
def constant(ctx, n, r):
    """A constant signal stays as it is, up to the edges."""
    v = ctx.real("v", -L, L)
    out = S().GaussianSmoothing(ctx.real("sigma", 0.1, 100), r, True).smooth([v] * n)
    for i, x in enumerate(out):
        ctx.eq("sample %d" % i, x, v)


@R.each([(2, 1), (3, 1), (3, 2)], budget=60)
def range_of_data(ctx, n, r):
    """No output is above the largest or below the smallest sample."""
    y = signal(ctx, n)
    lo, hi = ctx.real("lo", -L, L), ctx.real("hi", -L, L)
    for v in y:
        ctx.assume((v >= lo) & (v <= hi))
    sigma = ctx.real("sigma", 0.1, 100)
    out = S().GaussianSmoothing(sigma, r, True).smooth(list(y))
    w = weights(ctx, sigma, r)
    for i, x in enumerate(out):
        t, s = 0, 0
        for j in range(n):
            if abs(i - j) <= r:
                t = t + w[abs(i - j)]
                s = s + w[abs(i - j)] * (ctx.const(hi) - y[j])
        # hi - out = (average of hi - y), a sum of products of numbers that are not negative
        ctx.eq("distance to the maximum %d" % i, (ctx.const(hi) - x) * t, s)
        for k in range(r + 1):
            ctx.check("weight %d" % k, w[k] > 0)


@R.each([True, False])
def linear(ctx, adjust):
    """Smoothing a y + b z gives a smooth(y) + b smooth(z); the smoother keeps nothing from earlier signals."""
    y, z = signal(ctx, 3), signal(ctx, 3, "z")
    a, b = ctx.real("a", -10, 10), ctx.real("b", -10, 10)
    g = S().GaussianSmoothing(1.5, 1, adjust)
    c = ctx.const
    p, q = g.smooth(list(y)), g.smooth(list(z))
    o = g.smooth([c(a) * u + c(b) * v for u, v in zip(y, z)])
    for i in range(3):
        ctx.eq("sample %d" % i, o[i], c(a) * p[i] + c(b) * q[i], scale=1e4)
    ctx.eqs("again", g.smooth(list(y)), p)


# ---- cuts -------------------------------------------------------------------------------------
def cut_spec(ctx, y, step, cut):
    """Which samples are cut: more than cut away from the mean of their window; the samples after the last whole window use the last step samples."""
    n = len(y)
    out = []
    for j in range(n):
        k = j // step
        win = y[k * step:(k + 1) * step] if (k + 1) * step <= n else y[max(n - step, 0):]
        s = sum(win[1:], ctx.const(win[0]))
        d = ctx.const(y[j]) * len(win) - s
        out.append(bool((d > ctx.const(cut) * len(win)) | (-d > ctx.const(cut) * len(win))))
    return out


@R.each([(1, 1), (2, 1), (2, 2), (3, 2), (4, 2), (3, 3), (2, 3), (3, 5), (5, 3)], budget=60)
def cut(ctx, n, step):
    """Exactly the samples near enough to the mean of their window remain, in order."""
    y = signal(ctx, n)
    lim = ctx.real("cut", 0, L)
    data = list(y)
    out = S().CutSmoothing(lim, step).smooth(data)
    keep = [v for v, c in zip(y, cut_spec(ctx, y, step, lim)) if not c]
    ctx.check("number", len(out) == len(keep))
    ctx.eqs("samples", list(out), keep, exact=True)
    ctx.eqs("signal left alone", data, y, exact=True)


@R.each([(3, 2, 0), (3, 2, 1), (4, 2, 2)], budget=60)
def table(ctx, n, step, target):
    """The rows of a table stay together; all columns lose the rows of the outliers in the chosen column."""
    cols = [signal(ctx, n, "abc"[k]) for k in range(target + 1)] + [["row%d" % i for i in range(n)]]
    lim = ctx.real("cut", 0, L)
    data = [list(c) for c in cols]
    out = S().CutSmoothing(lim, step).smooth_table(data, target)
    cutrow = cut_spec(ctx, cols[target], step, lim)
    ctx.check("columns", len(out) == len(cols))
    for k, c in enumerate(cols):
        keep = [v for v, x in zip(c, cutrow) if not x]
        if k == len(cols) - 1:
            ctx.check("names", list(out[k]) == keep)
        else:
            ctx.check("length of column %d" % k, len(out[k]) == len(keep))
            ctx.eqs("column %d" % k, list(out[k]), keep, exact=True)
        ctx.check("table left alone", len(data[k]) == n)


@R.each({"short": ([1.0, 2.0], [1.0]), "long": ([1.0], [1.0, 2.0]), "third": ([1.0], [1.0], [])})
def ragged(ctx, *cols):
    ctx.raises("refused", lambda: S().CutSmoothing(1.0, 1).smooth_table([list(c) for c in cols], 0), exc=IndexError)
