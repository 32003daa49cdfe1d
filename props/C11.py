"""C11: emittance, optics functions, amplitudes, ellipses, dispersion and angular momentum."""
from engine.harness import Registry
from props.lib import *
from props.C06 import fresh, nonzero, mom, means
R = Registry("C11")
R.bounds = {"hits": "bunches of three hits (two for moments that are not optics), coordinates in +-1000, positive local weights in one case", "matrices": "every positive definite 2x2, every symmetric 4x4 with positive determinant, 6x6 with positive determinant and coupling of neighbours",
            "momenta": "longitudinal momentum 1 to 1000; for divergences fixed at 200, 250 and 400"}
R.assumptions = ["determinant of the covariance matrix at least 1e-6", "mass at least 0.1", "exact real arithmetic"]
AX = ["x", "y", "z", "t"]
MOM = {"x": "px", "y": "py", "z": "pz", "t": "energy"}


class Mode:
    """Momentum convention by class default or by argument."""
    def __init__(self, how):
        self.geo = how.startswith("geo")
        self.arg = how.endswith("arg")
        self.B = Bunch()
        self.kw = {"geometric": self.geo} if self.arg else {}

    def __enter__(self):
        self.B.set_geometric_momentum(self.geo != self.arg)   # an explicit argument overrides the opposite default
        return self

    def __exit__(self, *a):
        self.B.set_geometric_momentum(False)

    def vars(self, axes):
        return [v for a in axes for v in (a, a + "'" if self.geo else MOM[a])]


MODES = ["kin", "kin_arg", "geo", "geo_arg"]


def det(m):
    if len(m) == 1:
        return m[0][0]
    s = 0
    for j in range(len(m)):
        c = m[0][j]
        if isinstance(c, float) and c == 0.0:
            continue
        d = c * det([r[:j] + r[j + 1:] for r in m[1:]])
        s = s + d if j % 2 == 0 else s - d
    return s


def three(ctx, mode, axis, n=3, weights=False):
    """Three hits that vary in one axis and its momentum."""
    fresh()
    b = Bunch()()
    vals, wts = [], []
    m = ctx.real("mass", 0.1, 1000)
    for i in range(n):
        pz = [200.0, 250.0, 400.0][i]
        names = [axis, MOM[axis]]
        st = {v: ctx.real("h%d_%s" % (i, v), -1000, 1000) for v in names if not (mode.geo and v == "pz")}
        h = Hit()()
        h.set("event_number", i)
        h.set("pz", pz)
        h.set("mass", m)
        for v, x in st.items():
            h.set(v, x)
        w = ctx.real("w%d" % i, 0.1, 10) if weights else [1.0, 0.5, 0.5][i]
        h.set("local_weight", w)
        b.append(h)
        p = {v: ctx.const(h.get(v)) for v in mode.vars([axis])}
        vals.append(p)
        wts.append(ctx.const(w))
    return b, vals, wts, ctx.const(m)


def cov(vals, wts, vs):
    W = sum(wts[1:], wts[0])
    mu = means(vals, wts, vs)
    s = {}
    for i, a in enumerate(vs):
        for c in vs[i:]:
            t = 0
            for v, w in zip(vals, wts):
                t = t + w * (v[a] - mu[a]) * (v[c] - mu[c])
            s[a, c] = s[c, a] = t / W
    return [[s[a, c] for c in vs] for a in vs]


def positive(ctx, d):
    ctx.assume(d >= 1e-6)


@R.each(prod(["x", "y", "t"], MODES))
def emittance_of_bunch(ctx, axis, how):
    """Emittance of a bunch in one axis."""
    with Mode(how) as mode:
        b, vals, wts, m = three(ctx, mode, axis)
        c = cov(vals, wts, mode.vars([axis]))
        d = det(c)
        positive(ctx, d)
        e = ctx.const(b.get_emittance([axis], **mode.kw))
        ctx.check("positive", e >= 0)
        ctx.eq("square", e * e * (1 if mode.geo else m * m), d)


@R.each(prod(["kin", "geo"]), solver_timeout=60000)
def weighted(ctx, how):
    with Mode(how) as mode:
        b, vals, wts, m = three(ctx, mode, "x", weights=True)
        d = det(cov(vals, wts, mode.vars(["x"])))
        positive(ctx, d)
        e = ctx.const(b.get_emittance(["x"], **mode.kw))
        ctx.eq("square", e * e * (1 if mode.geo else m * m), d)


def matrix(ctx, n, band=None, neg=True):
    m = [[0.0] * n for _ in range(n)]
    for i in range(n):
        for j in range(i, n):
            if band is None or j - i <= band or (i, j) == (0, 3):
                m[i][j] = m[j][i] = ctx.real("v%d%d" % (i, j), 0.01 if i == j else -100, 100)
    return m


def internal(ctx, axes, m):
    """The 10x10 matrix for set_covariance_matrix with m on the given axes, in their order."""
    order = ["x", "y", "z", "t", "ct"]
    big = [[1.0 if i == j else 0.0 for j in range(10)] for i in range(10)]
    idx = [k for a in axes for k in (2 * order.index(a), 2 * order.index(a) + 1)]
    for i, p in enumerate(idx):
        for j, q in enumerate(idx):
            big[p][q] = m[i][j]
    return ctx.np.matrix(big)


def some(ctx, n=2, **fix):
    """Hits of the same mass for the calculations that need them next to a given matrix."""
    fresh()
    b = Bunch()()
    m = ctx.real("mass", 0.1, 1000)
    for i in range(n):
        h = Hit()()
        h.set("event_number", i)
        h.set("mass", m)
        h.set("px", 0.0)
        h.set("pz", ctx.real("pz%d" % i, 1, 1000))
        for k, v in fix.items():
            h.set(k, v)
        b.append(h)
    return b, ctx.const(m)


SETS = {"x": ["x"], "z": ["z"], "t": ["t"], "xy": ["x", "y"], "yx": ["y", "x"], "xt": ["x", "t"], "zy": ["z", "y"]}


@R.each(prod(sorted(SETS), ["given", "internal"], MODES))
def emittance_of_matrix(ctx, k, where, how):
    """Emittance from a covariance matrix given or kept by the bunch: the 2n-th root of its determinant (over the mass)."""
    axes = SETS[k]
    n = 2 * len(axes)
    with Mode(how) as mode:
        b, mass = some(ctx, 1)
        m = matrix(ctx, n)
        d = det([[ctx.const(x) for x in r] for r in m])
        positive(ctx, d)
        if where == "given":
            M = ctx.np.matrix(m)
            e = b.get_emittance(axes, M, mode.geo) if mode.arg else b.get_emittance(axes, M)
            for i in range(n):
                for j in range(n):
                    ctx.eq("matrix kept", M[i, j], m[i][j])
        else:
            if mode.arg:
                return
            b.set_covariance_matrix(True, internal(ctx, axes, m), {"x": 0.0})
            e = b.get_emittance(axes, **mode.kw)
        e = ctx.const(e) * (1 if mode.geo else mass)
        ctx.check("positive", e >= 0)
        ctx.eq("power", e ** n, d)


@R.each(["kin", "geo"], tier="thorough", solver_timeout=60000)
def emittance_6d(ctx, how):
    with Mode(how) as mode:
        b, mass = some(ctx, 1)
        m = matrix(ctx, 6, band=1)
        d = det([[ctx.const(x) for x in r] for r in m])
        positive(ctx, d)
        e = ctx.const(b.get_emittance(["x", "y", "t"], ctx.np.matrix(m))) * (1 if mode.geo else mass)
        ctx.eq("power", e ** 6, d)


def optics(ctx, b, axes, mode, ref, pm, mass, product=True):
    """beta, gamma, alpha against a covariance matrix ref (element by element) and its determinant."""
    n = len(axes)
    E = ctx.const(b.get_emittance(axes, **mode.kw))
    be, ga, al = [ctx.const(f(axes, **mode.kw)) for f in (b.get_beta, b.get_gamma, b.get_alpha)]
    xx = sum((ref[2 * i][2 * i] for i in range(n)), ctx.const(0.0))
    pp = sum((ref[2 * i + 1][2 * i + 1] for i in range(n)), ctx.const(0.0))
    xp = sum((ref[2 * i][2 * i + 1] for i in range(n)), ctx.const(0.0))
    m, p = (ctx.const(1.0), ctx.const(1.0)) if mode.geo else (mass, pm)
    ctx.eq("beta", be * E * m * n, xx * p)
    ctx.eq("gamma", ga * E * m * p * n, pp)
    ctx.eq("alpha", al * E * m * n, -xp)
    if n == 1 and product:
        ctx.eq("beta gamma - alpha^2", (be * ga - al * al) * (E * m * E * m), E * m * E * m)


@R.each(prod(["x", "y", "t"], MODES), solver_timeout=60000)
def optics_of_bunch(ctx, axis, how):
    with Mode(how) as mode:
        b, vals, wts, m = three(ctx, mode, axis)
        c = cov(vals, wts, mode.vars([axis]))
        positive(ctx, det(c))
        pm = (ctx.const(b[0].get("p")) * 2 + b[1].get("p") + b[2].get("p")) / 4
        optics(ctx, b, [axis], mode, c, pm, m, False)


@R.each(prod(sorted(SETS), ["kin", "geo"]))
def optics_of_matrix(ctx, k, how):
    """Optics functions of a bunch with its own covariance matrix."""
    axes = SETS[k]
    with Mode(how) as mode:
        b, mass = some(ctx, 2)
        m = matrix(ctx, 2 * len(axes))
        m = [[ctx.const(x) for x in r] for r in m]
        positive(ctx, det(m))
        b.set_covariance_matrix(True, internal(ctx, axes, m), {"x": 0.0})
        pm = (ctx.const(b[0].get("p")) + b[1].get("p")) / 2
        optics(ctx, b, axes, mode, m, pm, mass)


def maha(ctx, m, u):
    """u^T m^-1 u times det m, by cofactors."""
    n = len(m)
    s = ctx.const(0.0)
    for i in range(n):
        for j in range(n):
            minor = [r[:j] + r[j + 1:] for k, r in enumerate(m) if k != i]
            c = det(minor) if minor else ctx.const(1.0)
            s = s + u[i] * u[j] * (c if (i + j) % 2 == 0 else -c)
    return s


@R.each(prod(["x", "t", "xy", "yx", "zy"], ["given", "internal"], ["kin", "kin_arg", "geo", "geo_arg"]), solver_timeout=60000)
def amplitude_of_matrix(ctx, k, where, how):
    """Amplitude is emittance times the squared distance of the hit from the mean in the metric of the matrix."""
    axes = SETS[k]
    n = 2 * len(axes)
    B = Bunch()
    with Mode(how) as mode:
        b, mass = some(ctx, 1)
        m = matrix(ctx, n)
        mc = [[ctx.const(x) for x in r] for r in m]
        d = det(mc)
        positive(ctx, d)
        vs = mode.vars(axes)
        h = Hit()()
        h.set("pz", 250.0)
        h.set("mass", 1.0)
        for a in axes:
            for v in (a, MOM[a]):
                if v != "pz":
                    h.set(v, ctx.real("h_" + v, -100, 100))
        mu = {v: ctx.real("mu_" + v, -100, 100) for v in vs}
        M = ctx.np.matrix(m)
        if where == "given":
            a = B.get_amplitude(b, h, axes, M, dict(mu), **mode.kw)
            ctx.eq("matrix kept", M[0, 1], m[0][1])
        else:
            if mode.arg:
                return
            b.set_covariance_matrix(True, internal(ctx, axes, m), dict(mu))
            a = B.get_amplitude(b, h, axes)
        u = [ctx.const(h.get(v)) - mu[v] for v in vs]
        E = ctx.const(b.get_emittance(axes, M, mode.geo))
        ctx.eq("emittance", (E * (1 if mode.geo else mass)) ** n, d)
        ctx.eq("amplitude", ctx.const(a) * d, E * maha(ctx, mc, u))


@R.each(prod(["x", "t"], MODES), solver_timeout=60000)
def amplitude_in_bunch(ctx, axis, how):
    """Amplitude of one of the hits relative to the bunch's own mean and covariances."""
    B = Bunch()
    with Mode(how) as mode:
        b, vals, wts, m = three(ctx, mode, axis)
        vs = mode.vars([axis])
        c = cov(vals, wts, vs)
        d = det(c)
        positive(ctx, d)
        mu = means(vals, wts, vs)
        a = ctx.const(B.get_amplitude(b, b[1], [axis], **mode.kw))
        E = ctx.const(b.get_emittance([axis], **mode.kw))
        ctx.eq("amplitude", a * d, E * maha(ctx, c, [vals[1][v] - mu[v] for v in vs]))
        if how == "kin":
            ctx.eq("as a hit variable", b.get_hit_variable(b[1], "amplitude " + axis), a)
            ctx.eq("in a list of hit variables", b.list_get_hit_variable(["x", "amplitude " + axis], ["m", "mm"])[1][1], a)
            ctx.eq("other column", b.list_get_hit_variable(["x", "amplitude " + axis], ["m", "mm"])[0][1], ctx.const(b[1]["x"]) / 1000)


@R.each(["geo", "kin"])
def ellipse_2d(ctx, how):
    """An ellipse built from optics functions has them."""
    geo = how == "geo"
    B = Bunch()
    be, al, em, p, m = ctx.real("beta", -1000, 1000), ctx.real("alpha", -100, 100), ctx.real("emittance", -100, 100), ctx.real("p", 1, 1000), ctx.real("mass", 0.1, 1000)
    o, v = ctx.outcome(B.build_ellipse_2d, be, al, em, p, m, geo)
    if (be <= 0) or (em <= 0):
        ctx.reach("refused")
        ctx.check("refused", o == "raise")
        return
    ctx.reach("built")
    ctx.check("built", o == "ok")
    b, mass = Bunch()(), ctx.const(m)
    h = Hit()()
    h.set("mass", m)
    b.append(h)
    ctx.eq("emittance", b.get_emittance(["x"], v, geo), em)
    f, g = (ctx.const(1.0), ctx.const(1.0)) if geo else (mass / p, mass * p)
    ctx.eq("beta", v[0, 0], ctx.const(be) * em * f)
    ctx.eq("alpha", v[0, 1], -ctx.const(al) * em * (1 if geo else mass))
    ctx.eq("symmetric", v[1, 0], v[0, 1])
    ctx.eq("gamma", ctx.const(v[1, 1]) * be, (ctx.const(al) * al + 1) * em * g)


@R.case(reach=["refused", "built"])
def penn(ctx):
    """Solenoid ellipse: cylindrically symmetric, with that emittance, beta, alpha and angular momentum."""
    B = Bunch()
    em, m, be, al, p, L, bz = [ctx.real(n, *r) for n, r in (("emittance", (-100, 100)), ("mass", (-10, 1000)), ("beta", (-1000, 1000)), ("alpha", (-10, 10)), ("p", (1, 1000)), ("L", (-10, 10)), ("bz", (-1, 1)))]
    q = ctx.choice([1.0, -1.0])
    o, v = ctx.outcome(B.build_penn_ellipse, em, m, be, al, p, L, bz, q)
    if (em <= 0) or (m <= 0) or (be <= 0):
        ctx.reach("refused")
        ctx.check("refused", o == "raise")
        return
    ctx.reach("built")
    ctx.check("built", o == "ok")
    ctx.assume((em >= 0.01) & (m >= 0.01) & (be >= 0.01))
    em, m, be, al, p, L, bz = [ctx.const(x) for x in (em, m, be, al, p, L, bz)]
    V = [[ctx.const(v[i, j]) for j in range(4)] for i in range(4)]
    k = bz * Common().constants["c_light"] / p / 2
    for i in range(4):
        for j in range(i):
            ctx.eq("symmetric", V[i][j], V[j][i])
    ctx.eq("var x", V[0][0] * p, em * m * be)
    ctx.eq("var y", V[2][2], V[0][0])
    ctx.eq("cov x px", V[0][1], -em * m * al)
    ctx.eq("cov y py", V[2][3], V[0][1])
    ctx.eq("var px", V[1][1] * be, em * m * p * (1 + al * al + (be * k - L) * (be * k - L)))
    ctx.eq("var py", V[3][3], V[1][1])
    ctx.eq("cov x py", V[0][3], -em * m * (be * k - L) * q)
    ctx.eq("cov y px", V[1][2], -V[0][3])
    ctx.eq("cov x y", V[0][2], 0.0)
    ctx.eq("cov px py", V[1][3], 0.0)
    ctx.eq("4D emittance", det(V), (em * m) ** 4)


@R.each(["", "build_MR_ellipse", "build_ET_ellipse"])
def not_there(ctx, name):
    if name:
        ctx.raises("not implemented", getattr(Bunch(), name))
    else:
        b, m = some(ctx, 1)
        for bad in ("q", "px", "xx"):
            ctx.raises("no such axis", lambda: b.get_emittance([bad]))
            ctx.raises("no such axis", lambda: b.get_beta([bad]))
            ctx.raises("no such axis", lambda: Bunch().convert_string_to_axis_list(bad))
        ctx.raises("no such variable", lambda: b.get("nope", ["x"]))


def two(ctx, vars, n=2, lim=100, **fix):
    fresh()
    b = Bunch()()
    vals, wts = [], []
    for i in range(n):
        h, st = mk(ctx, "h%d" % i, vars, lim, event_number=i, **fix)
        w = ctx.real("w%d" % i, 0.1, 10)
        h.set("local_weight", w)
        b.append(h)
        vals.append({k: ctx.const(v) for k, v in st.items()})
        wts.append(ctx.const(w))
    return b, vals, wts


@R.each(prod(["x", "y"], ["", "prime", "prime_arg", "prime_geo"], [2]))
def dispersion(ctx, axis, prime, n):
    """cov(q, E) mean(E) / var(E)"""
    if prime == "prime_geo":
        b, vals, wts = two(ctx, ["p" + axis, "energy"], n, pz=250.0)
        v = axis + "'"
        for x in vals:
            x[v] = x["p" + axis] / 250
    else:
        v = "p" + axis if prime else axis
        b, vals, wts = two(ctx, [v, "energy"], n)
    W = sum(wts[1:], wts[0])
    mu = means(vals, wts, [v, "energy"])
    ee = mom(ctx, vals, wts, ["energy", "energy"], mu)
    ctx.assume(ee >= 1e-3)
    if prime == "":
        d = b.get_dispersion(axis)
        ctx.eq("through get", b.get("dispersion", [axis]), d)
    elif prime == "prime":
        d = b.get_dispersion_prime(axis)
        ctx.eq("through get", b.get("dispersion_prime", [axis]), d)
    else:
        d = b.get_dispersion_prime(axis, prime == "prime_geo")
    ctx.eq("dispersion", ctx.const(d) * ee, mom(ctx, vals, wts, [v, "energy"], mu) * mu["energy"])


@R.each(["centred", "displaced"])
def dispersion_rsquared(ctx, how):
    b, vals, wts = two(ctx, ["x", "y", "energy"], 2)
    if how == "centred":
        for v in "xy":
            ctx.assume(wts[0] * vals[0][v] + wts[1] * vals[1][v] == 0)
    for x in vals:
        x["r2"] = x["x"] * x["x"] + x["y"] * x["y"]
    W = wts[0] + wts[1]
    mu = means(vals, wts, ["r2", "energy"])
    ee = mom(ctx, vals, wts, ["energy", "energy"], mu)
    ctx.assume(ee >= 1e-3)
    z = {"r2": ctx.const(0.0), "energy": ctx.const(0.0)}
    ctx.eq("dispersion of r squared", ctx.const(b.get_dispersion_rsquared()) * ee, (mom(ctx, vals, wts, ["r2", "energy"], z) - mu["r2"] * mu["energy"] * W) * mu["energy"])


@R.each(["default", "given", "geo"])
def angular_momentum(ctx, how):
    """<x py> - <y px> about the given axis."""
    vs = ["x", "y", "px", "py"]
    c = {v: ctx.const(0.0) for v in vs}
    if how == "given":
        c = {v: ctx.real("c_" + v, -100, 100) for v in vs}
    b, vals, wts = two(ctx, vs, 2, **({"pz": 250.0} if how == "geo" else {}))
    W = wts[0] + wts[1]
    if how == "geo":
        with Mode("geo"):
            L = b.get_kinetic_angular_momentum()
    elif how == "given":
        ref = dict(c)
        L = b.get_kinetic_angular_momentum(c)
        ctx.check("argument", sorted(c) == sorted(ref) and all(c[v] is ref[v] for v in c))
    else:
        L = b.get_kinetic_angular_momentum()
        ctx.eq("through get", b.get("angular_momentum", ["x"]), L)
    c = {v: ctx.const(x) for v, x in c.items()}
    ctx.eq("angular momentum", ctx.const(L) * W, mom(ctx, vals, wts, ["x", "py"], c) - mom(ctx, vals, wts, ["y", "px"], c))


@R.each(["default", "field"])
def canonical_angular_momentum(ctx, how):
    """The kinetic one plus half of c_light bz <r^2> about the field axis."""
    vs = ["x", "y", "px", "py"]
    b, vals, wts = two(ctx, vs, 2)
    W = wts[0] + wts[1]
    f = {"x": ctx.const(0.0), "y": ctx.const(0.0)}
    if how == "default":
        bz = ctx.real("bz", -1, 1)
        b[0]["bz"] = bz
        b[1]["bz"] = 7.0
        L = b.get_canonical_angular_momentum()
        c = {v: ctx.const(0.0) for v in vs}
    else:
        bz = ctx.real("bz", -1, 1)
        f = {v: ctx.real("f_" + v, -100, 100) for v in "xy"}
        c = {v: ctx.real("c_" + v, -100, 100) for v in vs}
        L = b.get_canonical_angular_momentum(bz, f, c)
        f, c = [{v: ctx.const(x) for v, x in d.items()} for d in (f, c)]
    kin = mom(ctx, vals, wts, ["x", "py"], c) - mom(ctx, vals, wts, ["y", "px"], c)
    r2 = mom(ctx, vals, wts, ["x", "x"], f) + mom(ctx, vals, wts, ["y", "y"], f)
    ctx.eq("canonical angular momentum", ctx.const(L) * W, kin + r2 * ctx.const(bz) * Common().constants["c_light"] / 2)


@R.each(prod(["emittance", "beta", "alpha", "gamma", "mean", "moment", "bunch_weight", "standard_deviation"]))
def through_get(ctx, var):
    """The named bunch variables are those of the methods."""
    with Mode("kin") as mode:
        b, vals, wts, m = three(ctx, mode, "x")
        d = det(cov(vals, wts, ["x", "px"]))
        positive(ctx, d)
        f = {"emittance": lambda: b.get_emittance(["x"]), "beta": lambda: b.get_beta(["x"]), "alpha": lambda: b.get_alpha(["x"]), "gamma": lambda: b.get_gamma(["x"]),
             "mean": lambda: b.mean(["px"])["px"], "moment": lambda: b.moment(["x", "px"]), "bunch_weight": b.bunch_weight, "standard_deviation": lambda: b.standard_deviation(["x"])}[var]
        ctx.eq("value", b.get(var, {"mean": ["px", "x"], "moment": ["x", "px"]}.get(var, ["x"])), f())
