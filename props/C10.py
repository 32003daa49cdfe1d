"""C10: coordinate transformations."""
from engine.harness import Registry
from props.lib import *
R = Registry("C10")
R.bounds = {"hits": "bunches of up to three hits (two for the matching cases)", "variables": "one to three transformed variables, any real matrix, origin and offset in +-1000 (matrix +-100)",
            "periods": "frequency among eight fixed values, |variable| <= 50 periods", "matching": "two variables; every symmetric positive matrix with eigenvalues in [1/100, 100], eigenvectors of any angle; three variables with diagonal matrices"}
R.assumptions = ["numpy.linalg.eigh returns an exact orthogonal decomposition of a symmetric matrix (any angle, either order and sign of its vectors)", "float arithmetic is exact"]
ALL = DBL + INT


def hits(ctx, n, ints=False, lim=1000):
    b, out = Bunch()(), []
    for i in range(n):
        h, st = full_hit(ctx, "h%d" % i, ints=ints, lim=lim)
        h.set("event_number", i)
        st["event_number"] = i
        b.append(h)
        out.append((h, st))
    return b, out


def sq(ctx, st, vs):
    s = 0
    for v in vs:
        s = s + ctx.const(st[v]) * st[v]
    return s


def shelled(ctx, label, h, st, shell):
    """h holds st after the mass shell condition on one variable was applied."""
    same(ctx, label, h, st, skip=[shell])
    c = ctx.const
    if shell == "":
        return
    if shell == "energy":
        need = sq(ctx, st, ["px", "py", "pz", "mass"])
        ctx.eq(label + ": shell", c(h["energy"]) * h["energy"], need)
        ctx.check(label + ": shell sign", h["energy"] >= 0)
    else:
        need = sq(ctx, st, ["energy"]) - sq(ctx, st, [v for v in ("px", "py", "pz", "mass") if v != shell])
        if need > 1e-6:
            ctx.reach("shell")
            ctx.eq(label + ": shell", c(h[shell]) * h[shell], need)
        elif need <= 0:
            ctx.eq(label + ": no shell", h[shell], 0.0)


TR = [({"x": 1},), ({"x": 1, "pz": 1},), ({"t": 1, "energy": 1, "px": 1},), ({},), ({"local_weight": 1, "mass": 1},)]


@R.each(prod(range(5), ["", "energy", "pz", "px"]), reach=[])
def translate(ctx, k, shell):
    """Each variable of each hit gets its amount once, nothing else changes but the mass shell variable."""
    b, hs = hits(ctx, 2 if shell in ("", "energy") else 1)
    d = {v: ctx.real("d_" + v, -1000, 1000) for v in TR[k][0]}
    arg = dict(d)
    b.translate(arg, *([shell] if shell else []))
    ctx.check("arguments", sorted(arg) == sorted(d) and all(arg[v] is d[v] for v in d))
    for i, (h, st) in enumerate(hs):
        new = dict(st)
        for v in d:
            new[v] = ctx.const(st[v]) + d[v]
        shelled(ctx, "hit %d" % i, b[i], new, shell)


@R.each(["x", "t", "energy", "px"])
def translate_hit(ctx, v):
    h, st = full_hit(ctx, "h")
    d = ctx.real("d", -1000, 1000)
    r = h.translate({v: d}, "")
    new = dict(st)
    new[v] = ctx.const(st[v]) + d
    same(ctx, "hit", h, new)


@R.each(["x", "energy"])
def unknown_translation(ctx, v):
    """An unknown name is refused."""
    h, st = full_hit(ctx, "h")
    ctx.raises("unknown", lambda: h.translate({"nope": 1.0}, ""))
    same(ctx, "hit", h, st)


def matrix(ctx, nm, n, kind):
    m = [[ctx.real("%s%d%d" % (nm, i, j), -100, 100) for j in range(n)] for i in range(n)]
    if kind == "list":
        return m, m
    return m, (ctx.np.matrix(m) if kind == "matrix" else ctx.np.array(m))


LISTS = [["x"], ["x", "px"], ["px", "x"], ["t", "energy"], ["x", "y", "z"], ["x", "px", "z"], ["pz", "mass"], ["bx", "local_weight"]]


def linear(ctx, obj, hs, vars, kind, given, shell, m=None):
    n = len(vars)
    if m is None:
        m, arg = matrix(ctx, "r", n, kind)
    else:
        arg = ctx.np.matrix(m)
    t = {v: ctx.real("t_" + v, -1000, 1000) for v in vars if given != "none" and (given != "part" or v != vars[0])}
    o = {v: ctx.real("o_" + v, -1000, 1000) for v in vars if given != "none" and (given != "part" or v != vars[-1])}
    vl, ta, oa = list(vars), dict(t), dict(o)
    if given == "none" and not shell:
        obj.abelian_transformation(vl, arg)
    else:
        obj.abelian_transformation(vl, arg, ta, oa, shell)
    ctx.check("variables argument", vl == list(vars))
    ctx.check("translation argument", sorted(ta) == sorted(t) and all(ta[v] is t[v] for v in t))
    ctx.check("origin argument", sorted(oa) == sorted(o) and all(oa[v] is o[v] for v in o))
    for i in range(n):
        for j in range(n):
            a = arg[i][j] if kind == "list" else arg[i, j]
            ctx.eq("matrix argument", a, m[i][j])
    for k, (h, st) in enumerate(hs):
        new = dict(st)
        for i, v in enumerate(vars):
            s = ctx.const(o.get(v, 0.0)) + t.get(v, 0.0)
            for j, w in enumerate(vars):
                s = s + ctx.const(m[i][j]) * (ctx.const(st[w]) - o.get(w, 0.0))
            new[v] = s
        shelled(ctx, "hit %d" % k, h, new, shell)


@R.each(prod(range(8), ["matrix", "array", "list"], ["all", "part"]))
def linear_hit(ctx, k, kind, given):
    """V -> O + R (V - O) + T on a hit."""
    h, st = full_hit(ctx, "h", ints=k == 1)
    linear(ctx, h, [(h, st)], LISTS[k], kind, given, "")


@R.each(range(8))
def linear_energy(ctx, k):
    h, st = full_hit(ctx, "h", ints=False, lim=1000)
    linear(ctx, h, [(h, st)], LISTS[k], "matrix", "all", "energy")


@R.each(prod([1, 2, 5, 6, 7], ["pz", "py"]))
def linear_shell(ctx, k, shell):
    """With a momentum component for the mass shell; the matrix has one free entry."""
    h, st = full_hit(ctx, "h", ints=False, lim=1000)
    n = len(LISTS[k])
    m = [[1.0 if i == j else 0.0 for j in range(n)] for i in range(n)]
    m[0][1] = ctx.real("k", -10, 10)
    linear(ctx, h, [(h, st)], LISTS[k], "matrix", "none" if k != 7 else "all", shell, m)


@R.each(prod([0, 1, 4], [1, 2, 3]))
def linear_bunch(ctx, k, n):
    """Every hit of a bunch once, with all of origin and offset given."""
    b, hs = hits(ctx, n)
    linear(ctx, b, hs, LISTS[k], "matrix", "all", "")
    ctx.check("length", len(b) == n)


@R.each([1, 3])
def linear_default_hit(ctx, k):
    """A hit's origin and offset default to zero."""
    h, st = full_hit(ctx, "h", ints=False)
    linear(ctx, h, [(h, st)], LISTS[k], "matrix", "none", "")


@R.case()
def default_origin(ctx):
    """A bunch's origin defaults to its mean."""
    b, hs = hits(ctx, 2)
    m, arg = matrix(ctx, "r", 1, "matrix")
    for h, st in hs:
        h.set("local_weight", 1.0)
    b.abelian_transformation(["x"], arg)
    mean = (ctx.const(hs[0][1]["x"]) + hs[1][1]["x"]) / 2
    for k, (h, st) in enumerate(hs):
        ctx.eq("hit %d" % k, h["x"], mean + ctx.const(m[0][0]) * (ctx.const(st["x"]) - mean))


@R.each([1, 2])
def twice(ctx, n):
    """A transformation and its inverse about the same origin restore the bunch."""
    b, hs = hits(ctx, n)
    o = {v: ctx.real("o_" + v, -1000, 1000) for v in ("x", "px")}
    k = ctx.real("k", -10, 10)
    b.abelian_transformation(["x", "px"], ctx.np.matrix([[1.0, k], [0.0, 1.0]]), {}, o)
    b.abelian_transformation(["x", "px"], ctx.np.matrix([[1.0, -k], [0.0, 1.0]]), {}, o)
    for i, (h, st) in enumerate(hs):
        same(ctx, "hit %d" % i, h, st)


FREQ = [1.0, 0.5, 0.25, 2.0, 0.125, 4.0, 0.03125, 0.75]


@R.each(prod(range(8), ["t", "x"], [1, 2]))
def periods(ctx, k, var, n):
    """The variable relative to the offset, less a whole number of periods, in the half period around zero."""
    f = FREQ[k]
    b, hs = hits(ctx, n, lim=50 / f / 2)
    off = ctx.real("off", -10, 10)
    if var == "t":
        b.period_transformation(off, f)
    else:
        b.period_transformation(off, f, var)
    for i, (h, st) in enumerate(hs):
        new = ctx.const(h[var])
        turns = (ctx.const(st[var]) - off - new) * f
        ctx.check("whole periods %d" % i, abs(turns - round(turns)) < 1e-6)
        ctx.check("in the half period %d" % i, (new * f >= -0.5 - 1e-9) & (new * f <= 0.5 + 1e-9) if hasattr(new, "n") else -0.5 - 1e-9 <= new * f <= 0.5 + 1e-9)
        same(ctx, "other %d" % i, h, st, skip=[var])


def rotated(ctx, nm, order):
    """A symmetric positive matrix, and its decomposition in some order and sign."""
    c = ctx.const
    t = c(ctx.real(nm + "_angle", -1, 1))
    q1, q2 = [c(ctx.real("%s_q%d" % (nm, i), 0.1, 10)) for i in (1, 2)]
    w = t * t + 1
    cs, sn = (1 - t * t) / w, 2 * t / w
    v = [[cs, -sn], [sn, cs]]
    d = [q1 * q1, q2 * q2]
    if order:
        v = [[-r[1], r[0]] for r in v]
        d = d[::-1]
    m = [[v[i][0] * d[0] * v[j][0] + v[i][1] * d[1] * v[j][1] for j in (0, 1)] for i in (0, 1)]
    m[1][0] = m[0][1]
    return m, d, v


def probe(ctx, b, vars, o, n):
    """Hits at O, O + e_i; the matrix the transformation applied is read from their images."""
    for i in range(n + 1):
        h = Hit()()
        h.set("event_number", i)
        for j, v in enumerate(vars):
            h.set(v, o[v] + (1.0 if i == j + 1 else 0.0))
        b.append(h)


def applied(ctx, b, vars, n):
    c = ctx.const
    return [[c(b[j + 1][vars[i]]) - b[0][vars[i]] for j in range(n)] for i in range(n)]


@R.each(prod([0, 1], [0, 1]), solver_timeout=60000)
def matching_algebra(ctx, k1, k2):
    """The applied matrix has determinant +-1 and carries the bunch's covariances to a multiple of the target, whatever they are."""
    a, da, va = rotated(ctx, "a", k1)
    g, dg, vg = rotated(ctx, "g", k2)
    A, G = ctx.np.matrix(a), ctx.np.matrix(g)
    ctx.eig(A, da, va)
    ctx.eig(G, dg, vg)
    b = Bunch()()
    seen = []
    b.covariance_matrix = lambda axes, origin={}, *k: seen.append((list(axes), dict(origin))) or A
    vars = ["x", "px"]
    o = {"x": ctx.real("ox", -100, 100), "px": ctx.real("opx", -100, 100)}
    probe(ctx, b, vars, o, 2)
    b.transform_to(vars, G, {}, o)
    T = applied(ctx, b, vars, 2)
    det = T[0][0] * T[1][1] - T[0][1] * T[1][0]
    ctx.eq("determinant", det * det, 1.0)
    im = [[sum((T[i][p] * a[p][q] * T[j][q] for p in (0, 1) for q in (0, 1)), ctx.const(0.0)) for j in (0, 1)] for i in (0, 1)]
    for (i, j) in ((0, 0), (0, 1), (1, 1)):
        for (p, q) in ((0, 0), (1, 1)):
            if (i, j) != (p, q):
                ctx.eq("proportional %d%d %d%d" % (i, j, p, q), im[i][j] * g[p][q], im[p][q] * g[i][j])
    for v in vars:
        ctx.eq("origin stays", b[0][v], o[v])
    ctx.check("covariances of the right variables about the origin", seen[0][0] == vars and all(seen[0][1].get(v) is o[v] for v in vars))


@R.each([1, 2])
def matching_bunch(ctx, k):
    """Weighted bunch of two hits and one variable: no value changes but the chosen one; translation of other variables is applied too."""
    vars = ["x"]
    b = Bunch()()
    hs = []
    for i in range(2):
        h, st = mk(ctx, "h%d" % i, ["x", "px", "pz"], lim=100, event_number=i, py=0.0, local_weight=1.0, energy=0.0, mass=0.0, y=1.0)
        b.append(h)
        hs.append((h, st))
    d = ctx.const(hs[0][1]["x"]) - hs[1][1]["x"]
    ctx.assume(d * d >= 0.01)
    G = ctx.np.matrix([[4.0]])
    var = d * d / 4
    ctx.eig(ctx.np.matrix([[var]]), [var], [[1.0]])
    ctx.eig(G, [4.0], [[1.0]])
    tr = {"pz": ctx.real("dpz", -10, 10)}
    if k == 2:
        tr["x"] = ctx.real("dx", -10, 10)
    b.transform_to(vars, G, dict(tr), {}, "energy")
    for i, (h, st) in enumerate(hs):
        new = dict(st)
        new["x"] = ctx.const(st["x"]) + tr.get("x", 0.0)
        new["pz"] = ctx.const(st["pz"]) + tr["pz"]
        shelled(ctx, "hit %d" % i, h, new, "energy")
