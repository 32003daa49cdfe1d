"""C06: means, moments and covariances."""
from engine.harness import Registry
from props.lib import *
R = Registry("C06")
R.bounds = {"hits": "1 to 3, all real coordinates in +-1000 (moments of up to three variables)", "weights": "local and global weights real in +-10, including zero and negative",
            "centres": "given, missing, or given for some of the variables", "core": "Bunchcore with an empty slot"}
R.assumptions = ["total weight at least 1e-6 in size where a number is expected (the code refuses less than 1e-9)",
                 "exact real arithmetic: rounding is outside the claim"]
V = ["x", "px", "energy"]


def fresh():
    from xboa.core._weight_context import WeightContext
    from xboa.core._hitcore import Hitcore
    c = WeightContext()
    Hitcore.set_weight_context(c)
    return c


def bunch(ctx, n, vars, glob=0, lim=1000, wlim=10, **fix):
    """A bunch of n hits of which the given variables and the weights are symbolic; returns it, the values and the total weights."""
    fresh()
    b = Bunch()()
    val, wts = [], []
    for i in range(n):
        h, st = mk(ctx, "h%d" % i, vars, lim, event_number=i, **fix)
        w = ctx.real("w%d" % i, -wlim, wlim)
        h.set("local_weight", w)
        w = ctx.const(w)
        if i < glob:
            g = ctx.real("g%d" % i, -wlim, wlim)
            h.set("global_weight", g)
            w = w * g
        b.append(h)
        val.append({k: ctx.const(v) for k, v in st.items()})
        wts.append(w)
    return b, val, wts


def nonzero(ctx, W):
    ctx.assume((W >= 1e-6) | (W <= -1e-6))


def mom(ctx, val, wts, vs, c):
    """Sum of w * product of deviations (not divided by the total weight)."""
    s = 0
    for v, w in zip(val, wts):
        t = w
        for k in vs:
            t = t * (v[k] - c[k])
        s = s + t
    return s


def means(val, wts, vs):
    W = sum(wts[1:], wts[0])
    r = {}
    for k in vs:
        s = 0
        for v, w in zip(val, wts):
            s = s + w * v[k]
        r[k] = s / W
    return r


@R.each([(1, ["x"]), (2, ["x", "px"]), (2, ["x", "x"]), (3, ["x"]), (3, ["x", "px"]), (2, ["x", "px", "energy"]), (2, ["x", "x", "energy"])])
def given_centre(ctx, n, vs):
    """Moments about a given centre."""
    b, val, wts = bunch(ctx, n, sorted(set(vs)), glob=1)
    W = sum(wts[1:], wts[0])
    nonzero(ctx, W)
    c = {k: ctx.real("c_" + k, -1000, 1000) for k in set(vs)}
    cc = {k: ctx.const(x) for k, x in c.items()}
    ref = dict(c)
    m = b.moment(vs, c)
    ctx.eq("moment times weight", ctx.const(m) * W, mom(ctx, val, wts, vs, cc))
    ctx.check("the centre given is not modified", c == ref and list(c) == list(ref))
    ctx.eq("bunch weight", b.bunch_weight(), W)


@R.each([(2, ["x"]), (3, ["x"]), (2, ["x", "px"]), (2, ["x", "x", "x"])])
def default_centre(ctx, n, vs):
    """The default centre is the weighted mean, for every way of leaving it out."""
    b, val, wts = bunch(ctx, n, sorted(set(vs)), glob=1)
    W = sum(wts[1:], wts[0])
    nonzero(ctx, W)
    mu = means(val, wts, set(vs))
    got = b.mean(vs)
    ctx.check("means are of the variables asked for", set(got) == set(vs))
    for k in got:
        ctx.eq("mean of " + k, ctx.const(got[k]) * W, mu[k] * W)
    ctx.eq("moment", ctx.const(b.moment(vs)) * W, mom(ctx, val, wts, vs, mu))
    ctx.eq("moment with empty centre", ctx.const(b.moment(vs, {})) * W, mom(ctx, val, wts, vs, mu))


@R.each(["core", "derived", "bunchcore", "bunchcore covariance"])
def part_centre(ctx, how):
    """A variable for which no centre is given is taken about its mean."""
    other = {"derived": "ct"}.get(how, "px")
    b, val, wts = bunch(ctx, 2, ["x", "t" if how == "derived" else "px"], glob=0)
    cl = Common().constants["c_light"]
    for v in val:
        if how == "derived":
            v["ct"] = v["t"] * cl
    W = wts[0] + wts[1]
    nonzero(ctx, W)
    c = ctx.real("c", -1000, 1000)
    cen = {"x": ctx.const(c), other: means(val, wts, [other])[other]}
    if how == "bunchcore":
        m = b._Bunch__bunchcore.moment(["x", other], {"x": c})
    elif how == "bunchcore covariance":
        m = b._Bunch__bunchcore.covariance_matrix(["x", other], {"x": c})[0][1]
    else:
        m = b.moment(["x", other], {"x": c})
    ctx.eq("moment", ctx.const(m) * W, mom(ctx, val, wts, ["x", other], cen))


@R.each([["ct", "x"], ["ct", "ct"], ["r_squared"], ["l_kin"], ["pid", "x"], ["station", "status"]])
def other_variables(ctx, vs):
    """Moments of variables the core does not know."""
    need = {"ct": ["t"], "r_squared": ["x", "y"], "l_kin": ["x", "y", "px", "py"], "pid": ["pid"], "x": ["x"], "station": ["station"], "status": ["status"]}
    nv = []
    for v in vs:
        nv += [k for k in need[v] if k not in nv]
    b, val, wts = bunch(ctx, 2, nv, glob=1)
    cl = Common().constants["c_light"]
    for v in val:
        for k in nv:
            v[k] = ctx.const(1.0) * v[k]
        if "t" in nv:
            v["ct"] = v["t"] * cl
        if "y" in nv:
            v["r_squared"] = v["x"] * v["x"] + v["y"] * v["y"]
        if "py" in nv:
            v["l_kin"] = v["x"] * v["py"] - v["y"] * v["px"]
    W = wts[0] + wts[1]
    nonzero(ctx, W)
    c = {k: ctx.real("c_" + k, -1000, 1000) for k in set(vs)}
    ctx.eq("given centre", ctx.const(b.moment(vs, c)) * W, mom(ctx, val, wts, vs, {k: ctx.const(x) for k, x in c.items()}))
    mu = means(val, wts, set(vs))
    if len(vs) > 1 or ctx.bool():
        ctx.eq("mean", ctx.const(b.mean([vs[0]])[vs[0]]) * W, mu[vs[0]] * W)
        ctx.eq("default centre", ctx.const(b.moment(vs)) * W, mom(ctx, val, wts, vs, mu))


@R.each([(2, ["x", "px"], "given"), (2, ["x", "px"], "default"), (3, ["x", "px"], "given"), (2, ["x", "px", "y"], "given"), (2, ["x", "px", "y"], "part"),
         (2, ["ct", "x"], "given"), (2, ["ct", "x"], "part")])
def covariance(ctx, n, vs, how):
    """The covariance matrix is symmetric and agrees with the moments."""
    b, val, wts = bunch(ctx, n, ["t" if v == "ct" else v for v in vs], glob=1 if how == "given" else 0)
    for v in val:
        if "t" in v:
            v["ct"] = v["t"] * Common().constants["c_light"]
    W = sum(wts[1:], wts[0])
    nonzero(ctx, W)
    c = {k: ctx.real("c_" + k, -1000, 1000) for k in (vs if how == "given" else vs[:1] if how == "part" else [])}
    cen = means(val, wts, vs)
    cen.update({k: ctx.const(x) for k, x in c.items()})
    ref = dict(c)
    m = b.covariance_matrix(vs, c) if c or ctx.bool() else b.covariance_matrix(vs)
    ctx.check("shape", m.shape == (len(vs), len(vs)))
    ctx.check("the centre given is not modified", c == ref)
    for i in range(len(vs)):
        for j in range(len(vs)):
            ctx.eq("element %d %d" % (i, j), ctx.const(m[i, j]) * W, mom(ctx, val, wts, [vs[i], vs[j]], cen))


@R.each([("x", "default"), ("x", "number"), ("x", "dict"), (["x"], "dict"), (["x"], "default"), ("ct", "number")])
def deviation(ctx, v, how):
    """The standard deviation squared is the second moment."""
    nm = v if isinstance(v, str) else v[0]
    b, val, wts = bunch(ctx, 2, ["t" if nm == "ct" else nm], wlim=10)
    for w in wts:
        ctx.assume(w >= 1e-3)
    for x in val:
        if nm == "ct":
            x["ct"] = x["t"] * Common().constants["c_light"]
    W = wts[0] + wts[1]
    if how == "default":
        s = b.standard_deviation(v)
        cen = means(val, wts, [nm])
    else:
        c = ctx.real("c", -1000, 1000)
        cen = {nm: ctx.const(c)}
        s = b.standard_deviation(v, c if how == "number" else {nm: c})
    s = ctx.const(s)
    ctx.check("not negative", s >= 0)
    ctx.eq("square of the deviation", s * s * W, mom(ctx, val, wts, [nm, nm], cen))


@R.each([2, 3])
def order_and_scale(ctx, n):
    """Neither the order of the hits nor a common factor of the weights matters."""
    b, val, wts = bunch(ctx, n, ["x", "px"])
    W = sum(wts[1:], wts[0])
    nonzero(ctx, W)
    f = ctx.real("f", -10, 10)
    ctx.assume((f >= 0.01) | (f <= -0.01))
    nonzero(ctx, W * f)
    m = ctx.const(b.moment(["x", "px"])) * W * W
    hits = [h for h in b]
    d = Bunch()()
    for h in hits[1:] + hits[:1]:
        d.append(h)
    ctx.eq("other order", ctx.const(d.moment(["x", "px"])) * W * W, m)
    for h in hits:
        h.set("local_weight", h.get("local_weight") * f)
    ctx.eq("scaled weights", ctx.const(b.moment(["x", "px"])) * W * W, m)


@R.each([1, 2, 3])
def no_weight(ctx, n):
    """A bunch without weight gives an error for every moment."""
    b, val, wts = bunch(ctx, n, ["x"], glob=1 if n == 2 else 0)
    W = sum(wts[1:], wts[0])
    ctx.assume((W == 0))
    h = b
    for nm, f in [("moment", lambda: h.moment(["x"], {"x": 0.0})), ("second moment", lambda: h.moment(["x", "x"])), ("mean", lambda: h.mean(["x"])),
                  ("covariance", lambda: h.covariance_matrix(["x", "px"])), ("derived", lambda: h.moment(["r_squared"], {"r_squared": 0.0})),
                  ("deviation", lambda: h.standard_deviation("x")), ("get mean", lambda: h.get("mean", ["x"])), ("core", lambda: h._Bunch__bunchcore.moment(["x"], {"x": 0.0})),
                  ("core covariance", lambda: h._Bunch__bunchcore.covariance_matrix(["x"], {"x": 0.0}))]:
        ctx.raises(nm, f)
    ctx.raises("no hits", lambda: Bunch()().moment(["x"], {"x": 0.0}))


@R.each(["moment", "covariance"])
def core_slots(ctx, how):
    """The core ignores empty slots."""
    from xboa.core._bunchcore import Bunchcore
    fresh()
    bc = Bunchcore()
    val, wts = [], []
    gap = ctx.choice([0, 1])
    for i in range(2):
        h, st = mk(ctx, "h%d" % i, ["x", "y"], event_number=i)
        w = ctx.real("w%d" % i, -10, 10)
        h.set("local_weight", w)
        bc.set_item(h._Hit__hitcore, i if i < gap else i + 1)
        val.append({k: ctx.const(v) for k, v in st.items()})
        wts.append(ctx.const(w))
    W = wts[0] + wts[1]
    nonzero(ctx, W)
    c = {k: ctx.real("c_" + k, -1000, 1000) for k in ["x", "y"]}
    cen = {k: ctx.const(x) for k, x in c.items()}
    ctx.check("length", bc.length() == 3)
    if how == "moment":
        ctx.eq("moment", ctx.const(bc.moment(["x", "y"], c)) * W, mom(ctx, val, wts, ["x", "y"], cen))
    else:
        m = bc.covariance_matrix(["x", "y"], c)
        for i in range(2):
            for j in range(2):
                vs = [["x", "y"][i], ["x", "y"][j]]
                ctx.eq("element %d %d" % (i, j), ctx.const(m[i][j]) * W, mom(ctx, val, wts, vs, cen))


@R.case()
def bad_arguments(ctx):
    """Unknown variables and centres that are not numbers are errors."""
    b, val, wts = bunch(ctx, 1, ["x"])
    nonzero(ctx, wts[0])
    bc = b._Bunch__bunchcore
    for nm, f in [("unknown", lambda: b.moment(["nope"], {"nope": 0.0})), ("unknown mean", lambda: b.mean(["nope"])), ("unknown in matrix", lambda: b.covariance_matrix(["x", "nope"])),
                  ("core unknown", lambda: bc.moment(["nope"], {"nope": 0.0})), ("core matrix unknown", lambda: bc.covariance_matrix(["nope"], {"nope": 0.0})),
                  ("core centre", lambda: bc.moment(["x"], {"x": "a"})), ("core centre list", lambda: bc.moment(["x"], [0.0])), ("core variable list", lambda: bc.moment("x", {"x": 0.0})),
                  ("centre", lambda: b.moment(["x"], {"x": "a"}))]:
        ctx.raises(nm, f)


@R.each(["get mean", "get moment", "get deviation", "get weight"])
def by_name(ctx, how):
    """The same numbers by Bunch.get."""
    b, val, wts = bunch(ctx, 2, ["x", "px"])
    for w in wts:
        ctx.assume(w >= 1e-3)
    W = wts[0] + wts[1]
    mu = means(val, wts, ["x", "px"])
    if how == "get mean":
        ctx.eq("mean", ctx.const(b.get("mean", ["x"])) * W, mu["x"] * W)
    elif how == "get moment":
        ctx.eq("moment", ctx.const(b.get("moment", ["x", "px"])) * W, mom(ctx, val, wts, ["x", "px"], mu))
    elif how == "get deviation":
        s = ctx.const(b.get("standard_deviation", ["x"]))
        ctx.eq("deviation", s * s * W, mom(ctx, val, wts, ["x", "x"], mu))
    else:
        ctx.eq("weight", b.get("bunch_weight", []), W)


@R.each(["own", "given", "off", "later"])
def internal(ctx, how):
    """An internal covariance matrix and internal means are used as given until switched off."""
    b, val, wts = bunch(ctx, 2, ["x", "px"], wlim=10, pz=200.0, mass=105.0)
    for w in wts:
        ctx.assume(w >= 1e-3)
    W = wts[0] + wts[1]
    ctx.check("nothing set at first", not b.covariances_set() and not b.means_set())
    mu = means(val, wts, ["x", "px"])
    if how == "given":
        import itertools
        cv = ctx.np.matrix([[ctx.const(0.0)] * 10 for i in range(10)]) if False else ctx.np.matrix(ctx.np.zeros((10, 10)))
        e = ctx.real("e", -1000, 1000)
        cv[0, 1] = e
        cv[1, 0] = e
        mx = ctx.real("mx", -1000, 1000)
        b.set_covariance_matrix(True, cv, {"x": mx})
        ctx.check("set", b.covariances_set() and b.means_set())
        ctx.eq("moment", b.moment(["x", "px"]), e)
        ctx.eq("mean", b.mean(["x"])["x"], mx)
        ctx.eq("mean of a variable not given", ctx.const(b.mean(["px"])["px"]) * W, mu["px"] * W)
        return
    b.set_covariance_matrix()
    ctx.check("set", b.covariances_set() and b.means_set())
    if how == "off":
        b.set_covariance_matrix(False)
        ctx.check("not set any more", not b.covariances_set() and not b.means_set())
    if how in ("off", "later"):
        x = ctx.real("new", -1000, 1000)
        b[0].set("x", x)
        if how == "off":
            val[0]["x"] = ctx.const(x)
            mu = means(val, wts, ["x", "px"])
    for a, c in [("x", "px"), ("x", "x"), ("px", "x")]:
        ctx.eq("moment %s %s" % (a, c), ctx.const(b.moment([a, c])) * W, mom(ctx, val, wts, [a, c], mu))
    ctx.eq("mean", ctx.const(b.mean(["x"])["x"]) * W, mu["x"] * W)
