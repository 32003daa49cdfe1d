"""C18: multipole weighting."""
from engine.harness import Registry
from props.lib import *
from props.C06 import fresh
R = Registry("C18")
R.bounds = {"hits": "2-3 (thorough: 4)", "targets": "one or two moments of one or two variables (first and second order; thorough: three), all real targets", "weights": "initial local weights symbolic in some cases, 1 otherwise; both local and global application"}
R.assumptions = ["exact real arithmetic", "the moment equations have a solution: their determinant and the total weight afterwards are at least 1e-3 in size",
                 "targets are the raw moments given to set_target_moments, or the ellipse of a beam with zero mean given to the constructor"]


def setup(sym):
    import xboa.bunch.weighting
R.setup = setup


def weighting(ctx, vars, pole=2):
    from xboa.bunch.weighting import MultipoleWeighting
    np = ctx.np
    n = len(vars)
    return MultipoleWeighting(pole, vars, np.array([[float(i == j) for j in range(n)] for i in range(n)]), np.array([0.0] * n))


def beam(ctx, n, vars, weights, lim=10, free=9):
    """n hits, the first few of them anywhere and the others at fixed spots."""
    fresh()
    b = Bunch()()
    val, wts = [], []
    for i in range(n):
        if i >= free:
            h, st = mk(ctx, "h%d" % i, [], event_number=i + 1, **{v: SPOTS[i][k] for k, v in enumerate(vars)})
        else:
            h, st = mk(ctx, "h%d" % i, vars, lim, event_number=i + 1)
        w = 1.0
        if weights:
            w = ctx.real("w%d" % i, 0.1, 10)
            h.set("local_weight", w)
        b.append(h)
        val.append([ctx.const(st[v]) for v in vars])
        wts.append(ctx.const(w))
    return b, val, wts


def power(v, p):
    q = 1.0
    for x, k in zip(v, p):
        for _ in range(k):
            q = x * q
    return q


def system(ctx, val, wts, idx, tgt):
    """Equations of the correction 1 + sum a_j x^j: matrix and right hand side (the total weight multiplied in), and the total weight."""
    W = sum(wts[1:], wts[0])

    def f(p):
        s = 0
        for v, w in zip(val, wts):
            s = s + w * power(v, p)
        return s
    m = [[f([a + b for a, b in zip(p, q)]) - ctx.const(t) * f(q) for q in idx] for p, t in zip(idx, tgt)]
    u = [ctx.const(t) * W - f(p) for p, t in zip(idx, tgt)]
    return m, u, W


def small_det(m):
    if len(m) == 1:
        return m[0][0]
    return m[0][0] * m[1][1] - m[0][1] * m[1][0]


SPOTS = [(1.0, 0.5), (-2.0, 1.5), (0.5, -1.0), (3.0, 2.0)]


def _moments(ctx, vars, idx, n, weights, glob, free, pole):
    b, val, wts = beam(ctx, n, vars, weights, free=free)
    c = ctx.const
    tgt = [ctx.real("t%d" % i, -10, 10) for i in range(len(idx))]
    m, u, W = system(ctx, val, wts, idx, tgt)
    d = small_det(m)
    ctx.assume((d >= 1e-3) | (d <= -1e-3))
    # Cramer: a_j = dj / d
    if len(idx) == 1:
        num = [u[0]]
    else:
        num = [u[0] * m[1][1] - m[0][1] * u[1], m[0][0] * u[1] - m[1][0] * u[0]]
    corr = []   # correction of each hit, times d
    for v in val:
        s = d
        for a, p in zip(num, idx):
            s = s + a * power(v, p)
        corr.append(s)
    tot = sum(corr[1:], corr[0])
    ctx.assume((tot >= 1e-3) | (tot <= -1e-3))
    mw = weighting(ctx, vars, pole)
    a, t = [list(p) for p in idx], list(tgt)
    mw.set_target_moments(a, t)
    ctx.check("arguments left alone", a == [list(p) for p in idx] and len(t) == len(tgt))
    out = mw.apply_weights(b, glob)
    ctx.check("the same bunch", len(out) == n and len(b) == n)
    new = []
    for i, h in enumerate(b):
        w = c(h.get("local_weight"))
        g = c(h.get("global_weight"))
        # corrections are relative, scaled so that their average is one
        if glob:
            ctx.eq("local weight of hit %d" % i, w, wts[i])
            ctx.eq("global weight of hit %d" % i, g * tot, corr[i] * n)
        else:
            ctx.eq("global weight of hit %d" % i, g, 1.0)
            ctx.eq("local weight of hit %d" % i, w * tot, wts[i] * corr[i] * n)
        new.append(w * g)
        for v, x in zip(vars, val[i]):
            ctx.eq("%s of hit %d" % (v, i), h.get(v), x)
    # and therefore (checked on its own) the weighted moments are the targets
    for k, (p, t) in enumerate(zip(idx, tgt)):
        s, q = 0, 0
        for w, v in zip(new, val):
            s = s + w * power(v, p)
            q = q + w
        ctx.eq("moment %s" % list(p), s, q * t)


@R.each([(["x"], [[1]], 2, False, False, 9, 2), (["x"], [[1]], 2, True, True, 9, 2), (["x"], [[2]], 2, False, False, 9, 2), (["x"], [[2]], 3, True, False, 0, 2), (["x"], [[2]], 2, True, False, 9, 2), (["x", "px"], [[1, 0]], 2, False, True, 9, 2), (["x", "px"], [[1, 1]], 2, True, False, 9, 2),
         (["x"], [[3]], 2, False, False, 9, 3)], budget=60)
def one_target(ctx, vars, idx, n, weights, glob, free, pole):
    """One target moment of a bunch of arbitrary hits."""
    _moments(ctx, vars, idx, n, weights, glob, free, pole)


@R.each([(["x", "px"], [[1, 0], [0, 1]], 3, False, False, 0, 2), (["x", "px"], [[0, 1], [1, 0]], 3, True, True, 0, 2), (["x"], [[1], [2]], 3, False, False, 0, 2), (["x", "px"], [[1, 0], [0, 1]], 3, False, False, 1, 2), (["x"], [[1], [2]], 3, False, True, 1, 2), (["x"], [[2], [1]], 3, True, False, 0, 2), (["x", "px"], [[2, 0], [0, 1]], 4, False, True, 0, 2)], budget=60)
def two_targets(ctx, vars, idx, n, weights, glob, free, pole):
    """Two target moments, hits at fixed places and arbitrary weights and targets."""
    _moments(ctx, vars, idx, n, weights, glob, free, pole)


@R.each([(["x", "px"], [[1, 0], [0, 1]], 3, True, False, 1, 2), (["x", "px"], [[1, 1], [0, 1]], 3, False, True, 1, 2), (["x"], [[1], [2]], 3, True, False, 1, 2)], tier="thorough", budget=600, solver_timeout=120000)
def two_targets_free(ctx, vars, idx, n, weights, glob, free, pole):
    _moments(ctx, vars, idx, n, weights, glob, free, pole)


@R.each([1, 2])
def ellipse(ctx, n):
    """A target ellipse without mean is the list of its means and second moments."""
    from xboa.bunch.weighting import MultipoleWeighting
    np = ctx.np
    vars = ["x", "px"][:n]
    e = [[0.0] * n for _ in range(n)]
    for i in range(n):
        for j in range(i, n):
            e[i][j] = e[j][i] = ctx.real("e%d%d" % (i, j), -10, 10)
    mw = MultipoleWeighting(2, vars, np.array(e), np.array([0.0] * n))
    got = {tuple(int(k) for k in p): v for p, v in zip(mw.v_g_index_by_power, mw.v_g_list)}
    want = {}
    for i in range(n):
        k = [0] * n
        k[i] = 1
        want[tuple(k)] = 0.0
        for j in range(n):
            k = [0] * n
            k[i] += 1
            k[j] += 1
            want[tuple(k)] = e[i][j]
    ctx.check("moments", set(got) == set(want))
    for k in want:
        ctx.eq("target %s" % (k,), got[k], want[k])


@R.each({"adjacent": [[1, 0], [1, 0]], "apart": [[1, 0], [0, 1], [1, 0]], "last": [[1, 0], [0, 1], [0, 1]], "length": [[1, 0], [1]], "long": [[1, 0, 0]], "float": [[1.0, 0]], "text": [["1", 0]]})
def refused(ctx, idx):
    """Repeated or malformed indices are refused and the earlier targets stay."""
    mw = weighting(ctx, ["x", "px"])
    t0 = [ctx.real("a", -10, 10)]
    mw.set_target_moments([[1, 1]], t0)
    ctx.raises("refused", lambda: mw.set_target_moments(idx, [ctx.real("t%d" % i, -10, 10) for i in range(len(idx))]), exc=ValueError)
    ctx.check("earlier targets", [list(p) for p in mw.v_g_index_by_power] == [[1, 1]])
    ctx.eq("earlier target", mw.v_g_list[0], t0[0])


@R.each([0, 1, 3])
def refused_length(ctx, k):
    mw = weighting(ctx, ["x", "px"])
    ctx.raises("refused", lambda: mw.set_target_moments([[1, 0], [0, 1]], [ctx.real("t%d" % i, -10, 10) for i in range(k)]), exc=ValueError)


@R.each({"order3": ([[3]], 2), "order2": ([[2]], 1), "mixed": ([[1], [3]], 2)})
def beyond(ctx, idx, pole):
    """A target whose equations need moments beyond the maximum is an error and changes no weight."""
    b, val, wts = beam(ctx, 2, ["x"], True)
    mw = weighting(ctx, ["x"], pole)
    mw.set_target_moments(idx, [ctx.real("t%d" % i, -10, 10) for i in range(len(idx))])
    ctx.raises("refused", lambda: mw.apply_weights(b, False))
    for i, h in enumerate(b):
        ctx.eq("weight %d" % i, h.get("local_weight"), wts[i], exact=True)
