"""C09: mass shell condition."""
from engine.harness import Registry
from props.lib import *
R = Registry("C09")
R.bounds = {"hits": "one (three where made from dictionaries), momenta and energies in +-1000, mass in 0 to 1000", "particle types": "every type of the table, a few unknown ones and zero, of either sign"}
R.assumptions = ["a required square of a momentum component between 0 and 1e-6 may be treated as zero (the documented tolerance)",
                 "mass and mass shell agree within the tolerance of the check; a mismatch of E^2 between 0 and 1 is not claimed either way"]
P = ["px", "py", "pz"]


def sq(ctx, h, vs):
    s = 0
    for v in vs:
        s = s + ctx.const(h[v]) * h[v]
    return s


def hit(ctx, nm="h"):
    h, st = full_hit(ctx, nm, ints=False, lim=1000)
    ctx.assume(st["mass"] >= 0)
    return h, st


@R.each(P)
def component(ctx, var):
    h, st = hit(ctx)
    c = ctx.const
    ok = h.mass_shell_condition(var)
    need = c(st["energy"]) * st["energy"] - c(st["mass"]) * st["mass"] - sq(ctx, st, [p for p in P if p != var])
    if need > 1e-6:
        ctx.reach("solved")
        ctx.check("success", ok is True)
        ctx.eq("square of the component", c(h[var]) * h[var], need)
    else:
        ctx.reach("none")
        ctx.check("failure", ok is False)
        ctx.eq("component", h[var], 0.0)
    same(ctx, "other", h, st, skip=[var])


@R.case(reach=["solved", "none"])
def total(ctx):
    h, st = hit(ctx)
    c = ctx.const
    old = sq(ctx, st, P)
    ctx.assume(st["energy"] >= 0)
    ok = h.mass_shell_condition("p")
    need = c(st["energy"]) * st["energy"] - c(st["mass"]) * st["mass"]
    new = sq(ctx, h, P)
    if need > 1e-6:
        ctx.reach("solved")
        ctx.check("success", ok is True)
        ctx.eq("momentum squared", new * (old + 1), need * (old + 1))
        for a, b in (("px", "py"), ("py", "pz"), ("pz", "px")):
            ctx.eq("direction %s %s" % (a, b), c(h[a]) * st[b], c(h[b]) * st[a])
        for a in P:
            ctx.check("sense " + a, c(h[a]) * st[a] >= 0)
    elif need < 0:
        ctx.reach("none")
        ctx.check("failure", ok is False)
        for a in P:
            ctx.eq("momentum " + a, h[a], 0.0)
    same(ctx, "other", h, st, skip=P)


@R.case()
def energy(ctx):
    h, st = hit(ctx)
    c = ctx.const
    ok = h.mass_shell_condition("energy")
    ctx.check("success", ok is True)
    ctx.eq("energy squared", c(h["energy"]) * h["energy"], sq(ctx, st, P + ["mass"]))
    ctx.check("not negative", h["energy"] >= 0)
    same(ctx, "other", h, st, skip=["energy"])


@R.each(["", "mass", "nope", "x", "E"])
def choice(ctx, var):
    h, st = hit(ctx)
    if var == "":
        h.mass_shell_condition(var)
    else:
        ctx.raises("unknown choice", lambda: h.mass_shell_condition(var), exc=IndexError)
    same(ctx, "unchanged", h, st)
    ctx.check("listed", set(Hit().mass_shell_variables()) == {"", "p", "px", "py", "pz", "energy"})


@R.each(["dict", "translate", "transformation"])
def entry(ctx, how):
    """The other ways to ask for the condition do the same."""
    c = ctx.const
    st = {k: ctx.real(k, -1000, 1000) for k in P}
    st["mass"] = ctx.real("mass", 0, 1000)
    st["x"] = ctx.real("x", -1000, 1000)
    st["energy"] = ctx.real("energy", -1000, 1000)
    if how == "dict":
        h = Hit().new_from_dict(st, "energy")
    else:
        h = Hit().new_from_dict(st)
        same(ctx, "made without condition", h, st)
        if how == "translate":
            h.translate({}, "energy")
        else:
            h.abelian_transformation([], ctx.np.matrix(ctx.np.zeros((0, 0))), mass_shell_variable="energy") if False else h.abelian_transformation(["x"], ctx.np.matrix([[1.0]]), mass_shell_variable="energy")
    ctx.eq("energy squared", c(h["energy"]) * h["energy"], sq(ctx, st, P + ["mass"]))
    same(ctx, "other", h, st, skip=["energy"])


@R.each(["type", "unknown", "shell"])
def check(ctx, kind):
    """The check accepts a hit exactly when type, mass and mass shell agree."""
    tab = Common().pdg_pid_to_mass
    c = ctx.const
    h = Hit()()
    st = {k: ctx.real(k, -1000, 1000) if kind == "shell" else 3.0 for k in P}
    st["mass"] = ctx.real("mass", 0, 10000)
    st["energy"] = ctx.real("energy", -10000, 10000)
    for k, v in st.items():
        h.set(k, v)
    pid = {"type": lambda: ctx.choice(sorted(tab)), "unknown": lambda: ctx.choice([999999, 17, 1000]), "shell": lambda: 13}[kind]()
    pid = pid * ctx.choice([1, -1])
    h.set("pid", pid)
    ok = h.check()
    off = c(st["energy"]) * st["energy"] - sq(ctx, st, P + ["mass"])
    if kind == "unknown":
        ctx.check("unknown type", ok is False)
    elif (c(st["mass"]) - tab[abs(pid)] > 1e-3) | (c(st["mass"]) - tab[abs(pid)] < -1e-3):
        ctx.reach("mass")
        ctx.check("mass of another type", ok is False)
    elif off == 0:
        ctx.reach("good")
        ctx.check("consistent", ok is True)
    elif (off > 1.001) | (off < -1.001):
        ctx.reach("off shell")
        ctx.check("off the mass shell", ok is False)
    ctx.eq("type unchanged", h["pid"], pid)
    same(ctx, "unchanged", h, st)


@R.case()
def check_zero(ctx):
    """A hit without a type is not refused as unknown."""
    h = Hit()()
    e = ctx.real("e", 0, 1000)
    for k, v in (("energy", e), ("pz", e)):
        h.set(k, v)
    ctx.check("accepted", h.check() is True)
