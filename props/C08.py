"""C08: derived variables of a hit."""
from engine.harness import Registry
from props.lib import *
R = Registry("C08")
R.bounds = {"hits": "one, every stored real variable in +-1e6", "written values": "all reals in +-1e6"}
R.assumptions = ["exact real arithmetic; atan2 is an uninterpreted function of its two arguments (which arguments it is given is what is checked)",
                 "total momentum is written with values of at least zero", "divergences are written for |pz| >= 1e-9 (smaller values are refused) and read for pz different from zero"]
P = ["px", "py", "pz"]


def sq(ctx, h, vs):
    s = 0
    for v in vs:
        s = s + ctx.const(h[v]) * h[v]
    return s


def root_of(ctx, label, got, square):
    got = ctx.const(got)
    ctx.check(label + " is not negative", got >= 0)
    ctx.eq(label + " squared", got * got, square)


@R.each(["p", "pt", "r", "r_squared", "spin", "ct", "kinetic_energy", "l_kin", "weight", "z'", "phi", "pphi"])
def definition(ctx, var):
    """Each derived variable equals its formula, by get, by item and by its method, and reading it changes nothing."""
    h, st = full_hit(ctx, "h", ints=False)
    c = ctx.const
    meth = {"p": "get_p", "pt": "get_pt", "r": "get_r", "r_squared": "get_r_squared", "spin": "get_spin", "ct": "get_ct", "kinetic_energy": "get_ek", "l_kin": "get_l_kin", "weight": "get_weight",
            "phi": "get_phi", "pphi": "get_pphi"}.get(var)
    for nm, f in [("get", lambda: h.get(var)), ("item", lambda: h[var])] + ([("method", lambda: getattr(h, meth)())] if meth else []):
        v = f()
        if var in ("p", "pt", "r", "spin"):
            root_of(ctx, nm, v, sq(ctx, st, {"p": P, "pt": P[:2], "r": ["x", "y"], "spin": ["sx", "sy", "sz"]}[var]))
        elif var == "r_squared":
            ctx.eq(nm, v, sq(ctx, st, ["x", "y"]))
        elif var == "ct":
            ctx.eq(nm, v, c(st["t"]) * 299.792458)
        elif var == "kinetic_energy":
            ctx.eq(nm, v, c(st["energy"]) - st["mass"])
        elif var == "l_kin":
            ctx.eq(nm, v, c(st["x"]) * st["py"] - c(st["y"]) * st["px"])
        elif var == "weight":
            ctx.eq(nm, v, c(st["local_weight"]) * h.get("global_weight"))
        elif var == "z'":
            ctx.eq(nm, v, 1.0)
        else:
            a, b = ("y", "x") if var == "phi" else ("py", "px")
            ctx.eq(nm, v, ctx.m.atan2(st[a], st[b]))
    same(ctx, "reading", h, st)


@R.each(["x'", "y'", "t'", "ct'", "r'"])
def divergence(ctx, var):
    """Divergences are momenta over longitudinal momentum; with none there is an error, not a number."""
    h, st = full_hit(ctx, "h", ints=False)
    if st["pz"] == 0:
        ctx.raises("no longitudinal momentum", lambda: h.get(var), exc=ZeroDivisionError)
        ctx.reach("zero")
        return
    ctx.reach("divided")
    c = ctx.const
    v = c(h.get(var))
    if var == "r'":
        q = v * st["pz"]
        ctx.eq("squared", q * q, sq(ctx, st, P[:2]))
        ctx.check("sign", (q >= 0))
    else:
        num = {"x'": c(st["px"]), "y'": c(st["py"])}.get(var, -c(st["energy"]))
        ctx.eq("times pz", v * st["pz"], num)
    same(ctx, "reading", h, st)


@R.each(["set", "item", "method"])
def write_p(ctx, how):
    """Writing total momentum keeps the direction."""
    h, st = full_hit(ctx, "h", ints=False, lim=1000)
    v = ctx.real("v", 0, 1000)
    c = ctx.const
    old = sq(ctx, st, P)
    {"set": lambda: h.set("p", v), "item": lambda: h.__setitem__("p", v), "method": lambda: h.set_p(v)}[how]()
    if old == 0:
        ctx.reach("at rest")
        ctx.eq("momentum squared", sq(ctx, h, P), c(v) * v)
    else:
        ctx.reach("moving")
        ctx.eq("momentum squared", sq(ctx, h, P) * old, c(v) * v * old)
        for a, b in (("px", "py"), ("py", "pz"), ("pz", "px")):
            ctx.eq("direction %s %s" % (a, b), c(h[a]) * st[b], c(h[b]) * st[a])
        for a in P:
            ctx.check("same sense " + a, c(h[a]) * st[a] >= 0)
    same(ctx, "other", h, st, skip=P)


@R.each(["x'", "y'"])
def write_xy(ctx, var):
    """Writing a divergence changes the transverse momentum only."""
    h, st = full_hit(ctx, "h", ints=False)
    v = ctx.real("v", -1000, 1000)
    comp = "px" if var == "x'" else "py"
    c = ctx.const
    k, e = ctx.outcome(lambda: h.set(var, v))
    small = (c(st["pz"]) < 1e-9) & (c(st["pz"]) > -1e-9)
    if small:
        ctx.reach("refused")
        ctx.check("refused without longitudinal momentum", k == "raise" and isinstance(e, FloatingPointError))
        same(ctx, "refused", h, st)
        return
    ctx.reach("written")
    ctx.check("accepted", k == "ok")
    ctx.eq("momentum", h[comp], c(v) * st["pz"])
    ctx.eq("read back", h[var], v)
    same(ctx, "other", h, st, skip=[comp])


@R.case(reach=["refused", "written", "too small"])
def write_t(ctx):
    """Writing t' sets the energy (and the sense of pz) so that it reads back, or raises if the energy would be less than the mass."""
    h, st = full_hit(ctx, "h", ints=False)
    c = ctx.const
    v = ctx.real("v", -1000, 1000)
    ctx.assume(st["mass"] >= 0)
    k, e = ctx.outcome(lambda: h.set("t'", v))
    pz = c(st["pz"])
    if (pz < 1e-9) & (pz > -1e-9):
        ctx.reach("refused")
        ctx.check("refused without longitudinal momentum", k == "raise" and isinstance(e, FloatingPointError))
        same(ctx, "refused", h, st)
        return
    en = v * pz
    if en < 0:
        en = -en
    if en < st["mass"]:
        ctx.reach("too small")
        ctx.check("refused with energy below the mass", k == "raise" and isinstance(e, FloatingPointError))
        return
    ctx.reach("written")
    ctx.check("accepted", k == "ok")
    ctx.eq("energy", h["energy"], en)
    ctx.eq("read back", h["t'"], v)
    ctx.eq("size of pz", c(h["pz"]) * h["pz"], pz * pz)
    same(ctx, "other", h, st, skip=["pz", "energy"])


@R.each([("ct", "set"), ("ct", "method"), ("kinetic_energy", "set"), ("kinetic_energy", "method")])
def write_linear(ctx, var, how):
    h, st = full_hit(ctx, "h", ints=False)
    c = ctx.const
    v = ctx.real("v", -BIG, BIG)
    if how == "set":
        h.set(var, v)
    else:
        (h.set_ct if var == "ct" else h.set_ek)(v)
    tgt = "t" if var == "ct" else "energy"
    ctx.eq("read back", h[var], v)
    if var == "ct":
        ctx.eq("time", c(h["t"]) * 299.792458, v)
    else:
        ctx.eq("energy", h["energy"], c(v) + st["mass"])
    same(ctx, "other", h, st, skip=[tgt])


@R.each(["pt", "r", "phi", "pphi", "r_squared", "spin", "l_kin", "r'", "z'", "weight", "ct'", "nope"])
def not_writable(ctx, var):
    """A derived variable that cannot be written raises and leaves the hit alone."""
    h, st = full_hit(ctx, "h", ints=False)
    v = ctx.real("v", -BIG, BIG)
    ctx.check("not listed", var not in Hit().set_variables())
    ctx.raises("set", lambda: h.set(var, v))
    ctx.raises("item", lambda: h.__setitem__(var, v))
    same(ctx, "refused", h, st)


@R.case()
def vector(ctx):
    """A vector holds the variables asked for relative to the origin, zero where none is given."""
    h, st = full_hit(ctx, "h", ints=False)
    o = {k: ctx.real("o_" + k, -1000, 1000) for k in ("x", "ct")}
    c = ctx.const
    m = h.get_vector(["px", "x", "ct", "kinetic_energy"], o)
    ctx.check("shape", m.shape == (1, 4))
    for i, e in enumerate([c(st["px"]), c(st["x"]) - o["x"], c(st["t"]) * 299.792458 - o["ct"], c(st["energy"]) - st["mass"]]):
        ctx.eq("element %d" % i, m[0, i], e)
    m = h.get_vector(["y"])
    ctx.eq("no origin", m[0, 0], st["y"])
    same(ctx, "unchanged", h, st)


@R.case()
def names(ctx):
    """Every variable listed as readable can be read, every one listed as writable can be written."""
    h, st = full_hit(ctx, "h", ints=False)
    ctx.assume(ctx.const(st["pz"]) >= 1)
    ctx.assume(ctx.const(st["mass"]) == 0)
    for v in Hit().get_variables():
        k, e = ctx.outcome(lambda: h.get(v))
        ctx.check("readable " + v, k == "ok")
    for v in Hit().set_variables():
        g, _ = mk(ctx, "g", [], pz=2.0, energy=5.0)
        k, e = ctx.outcome(lambda: g.set(v, -1 if v == "t'" else 1))
        ctx.check("writable " + v, k == "ok")
    ctx.raises("unknown", lambda: h.get("nope"), exc=IndexError)
    ctx.raises("unknown item", lambda: h["nope"], exc=IndexError)
