"""C07: cuts."""
import operator
from engine.harness import Registry
from props.lib import *
R = Registry("C07")
R.bounds = {"hits": "1 to 3 in the bunch, 0 to 3 in the partner", "values": "real in +-1000, integers over all 32 bits", "cut value": "any real in +-1000",
            "comparison": "< <= > >= == != of the operator module and a comparison written by the user", "identifiers": "all integers, up to two symbolic components; one real variable with the float tolerance"}
R.assumptions = ["a cut in standard deviations is claimed for one variable at a time and positive total weight",
                 "identifiers of a transmission cut: integers, or one real variable (several real variables with a tolerance are outside)"]
OPS = {"lt": operator.lt, "le": operator.le, "gt": operator.gt, "ge": operator.ge, "eq": operator.eq, "ne": operator.ne, "user": lambda v, c: v > c + 1}
ID = ("spill", "event_number", "particle_number")


def fresh():
    from xboa.core._weight_context import WeightContext
    from xboa.core._hitcore import Hitcore
    c = WeightContext()
    Hitcore.set_weight_context(c)
    return c


def bunch(ctx, n, vars, nm="h", share=False, **fix):
    b = Bunch()()
    sts = []
    for i in range(n):
        h, st = mk(ctx, "%s%d" % (nm, i), vars, event_number=0 if share and i else i, **fix)
        for k in ("local_weight", "global_weight"):
            st[k] = ctx.real("%s%d_%s" % (nm, i, k), -10, 10)
            h.set(k, st[k])
        b.append(h)
        sts.append(st)
    return b, sts


def snap(b):
    return [{v: h.get(v) for v in DBL + INT if v != "local_weight"} for h in b]


def untouched(ctx, b, before):
    ctx.check("number of hits", len(b) == len(before))
    for h, st in zip(b, before):
        same(ctx, "untouched", h, st)


@R.each(prod([1, 2], sorted(OPS), ["x"]) + prod([1], sorted(OPS), ["energy"]))
def cut_double(ctx, n, op, var):
    """A local cut on a real variable."""
    fresh()
    b, sts = bunch(ctx, n, [var])
    before = snap(b)
    c = ctx.real("c", -1000, 1000)
    d = {var: c}
    for again in (0, 1):
        b.cut(d, OPS[op])
        for h, st in zip(b, sts):
            hit = bool(OPS[op](st[var], c))
            ctx.reach("cut" if hit else "kept")
            ctx.eq("local weight", h.get("local_weight"), 0.0 if hit else st["local_weight"])
            ctx.eq("global weight", h.get("global_weight"), st["global_weight"])
        untouched(ctx, b, before)
    ctx.check("the cut values given are not modified", list(d) == [var] and d[var] is c)


@R.each(prod(["x", "pid", "r_squared", "station", "t'", "global_weight", "local_weight", "weight"], [False, True]))
def variables(ctx, var, glob):
    """Cuts on stored, integer and derived variables, local and global."""
    fresh()
    need = {"r_squared": ["x", "y"], "t'": ["t"]}.get(var, [var])
    b, sts = bunch(ctx, 2, [v for v in need if "weight" not in v and v != "t'"], **({"energy": 250.0, "pz": 200.0} if var == "t'" else {}))
    before = snap(b)
    val = [h.get(var) for h in b]
    c = ctx.real("c", -1000, 1000)
    b.cut({var: c}, operator.ge, False, glob)
    for h, st, v, be in zip(b, sts, val, before):
        hit = bool(v >= c)
        ctx.reach("cut" if hit else "kept")
        ctx.eq("local weight", h.get("local_weight"), 0.0 if hit and not glob else st["local_weight"])
        ctx.eq("global weight", h.get("global_weight"), 0.0 if hit and glob else st["global_weight"])
        be.pop("global_weight", None)
    untouched(ctx, b, before)


@R.case(reach=["one", "both", "none"])
def global_shared(ctx):
    """A global cut takes the weight of the particle away everywhere, whichever of its hits fails."""
    fresh()
    b = Bunch()()
    x = []
    for i in range(2):
        h, st = mk(ctx, "h%d" % i, ["x"], event_number=5, station=i, local_weight=2.0)
        b.append(h)
        x.append(st["x"])
    g = ctx.real("g", -10, 10)
    b[0].set("global_weight", g)
    o, _ = mk(ctx, "o", [], event_number=6)
    o.set("global_weight", g)
    c = ctx.real("c", -1000, 1000)
    b.cut({"x": c}, operator.gt, global_cut=True)
    k = [bool(v > c) for v in x]
    ctx.reach(["none", "one", "both"][sum(k)])
    for h in b:
        ctx.eq("global weight", h.get("global_weight"), 0.0 if any(k) else g)
        ctx.eq("local weight", h.get("local_weight"), 2.0)
    ctx.eq("another particle", o.get("global_weight"), g)


@R.each(["x", "pid"])
def two_variables(ctx, second):
    """A cut on two variables removes the hits that fail either."""
    fresh()
    b, sts = bunch(ctx, 2, ["y", second])
    c, e = ctx.real("c", -1000, 1000), ctx.real("e", -1000, 1000)
    b.cut({"y": c, second: e}, operator.lt)
    for h, st in zip(b, sts):
        hit = bool(st["y"] < c) or bool(st[second] < e)
        ctx.eq("local weight", h.get("local_weight"), 0.0 if hit else st["local_weight"])


@R.each(prod([1, 2], ["x", "ct"]))
def n_sigma(ctx, n, var):
    """A cut in standard deviations."""
    fresh()
    b = Bunch()()
    vals = []
    for i in range(n):
        h, st = mk(ctx, "h%d" % i, ["t" if var == "ct" else "x"], event_number=i)
        w = ctx.real("w%d" % i, 0.1, 10)
        h.set("local_weight", w)
        b.append(h)
        vals.append((h.get(var), w))
    k = ctx.real("k", -10, 10)
    s = ctx.const(b.standard_deviation(var))
    mine = s * k
    b.cut({var: k}, operator.gt, True)
    for h, (v, w) in zip(b, vals):
        hit = bool(v > mine)
        ctx.eq("local weight", h.get("local_weight"), 0.0 if hit else w)


@R.each(prod([1, 2, 3], ["lt", "ge", "eq", "user"]))
def remove(ctx, n, op):
    """Conditional removal takes out exactly the hits for which the comparison is true and keeps the others in order, in both layers."""
    fresh()
    b, sts = bunch(ctx, n, ["x"])
    hits = [h for h in b]
    before = snap(b)
    c = ctx.real("c", -1000, 1000)
    b.conditional_remove({"x": c}, OPS[op])
    keep = [i for i in range(n) if not OPS[op](sts[i]["x"], c)]
    ctx.reach("some" if keep else "none")
    ctx.check("hits kept, in order", len(b) == len(keep) and all(b[j] is hits[i] for j, i in enumerate(keep)))
    bc = b._Bunch__bunchcore
    ctx.check("length of the core", bc.length() == len(keep))
    for j, i in enumerate(keep):
        ctx.eq("hit of the core", bc.get_item(j).get("x"), sts[i]["x"])
        same(ctx, "kept hit", b[j], before[i])
    for h, st in zip(hits, sts):
        ctx.eq("weights kept", h.get("local_weight"), st["local_weight"])
        ctx.eq("global weights kept", h.get("global_weight"), st["global_weight"])


@R.each(["pid", "r_squared"])
def remove_other(ctx, var):
    fresh()
    b, sts = bunch(ctx, 2, ["x", "y"] if var == "r_squared" else [var])
    hits, val = [h for h in b], [h.get(var) for h in b]
    c, y = ctx.real("c", -1000, 1000), ctx.real("cy", -1000, 1000)
    b.conditional_remove({var: c, "y": y}, operator.gt)
    keep = [h for h, v in zip(hits, val) if not v > c and not h.get("y") > y]
    ctx.check("hits kept", len(b) == len(keep) and all(p is q for p, q in zip(b, keep)))
    ctx.check("length of the core", b._Bunch__bunchcore.length() == len(keep))


@R.each([1, 2])
def remove_n_sigma(ctx, n):
    """Conditional removal in standard deviations."""
    fresh()
    b = Bunch()()
    for i in range(n):
        h, st = mk(ctx, "h%d" % i, ["x"], event_number=i)
        h.set("local_weight", ctx.real("w%d" % i, 0.1, 10))
        b.append(h)
    hits = [h for h in b]
    k = ctx.real("k", -10, 10)
    mine = ctx.const(b.standard_deviation("x")) * k
    b.conditional_remove({"x": k}, operator.gt, True)
    keep = [h for h in hits if not h.get("x") > mine]
    ctx.check("hits kept", len(b) == len(keep) and all(p is q for p, q in zip(b, keep)))


def idhits(ctx, nm, n, sym, **fix):
    b = Bunch()()
    ids = []
    for i in range(n):
        h = Hit()()
        v = [ctx.int("%s%d_%s" % (nm, i, k), -I32, I32 - 1) if k in sym else 3 for k in ID]
        for k, x in zip(ID, v):
            h.set(k, x)
        for k, x in fix.items():
            h.set(k, x)
        b.append(h)
        ids.append(v)
    return b, ids


def same3(a, b):
    for x, y in zip(a, b):
        if x != y:
            return False
    return True


@R.each([(1, 1, ID[:2]), (1, 1, ID[1:]), (1, 1, ID), (1, 2, ID[:1]), (2, 1, ID[1:2]), (1, 0, ID[:1]), (0, 1, ID[:1])])
@R.each([(1, 2, ID[1:]), (2, 2, ID[2:]), (1, 3, ID[2:]), (1, 3, ID[1:])], tier="thorough")
def transmission(ctx, n, m, sym):
    """A transmission cut zeroes exactly the hits without a partner."""
    fresh()
    b, ib = idhits(ctx, "h", n, sym)
    t, it = idhits(ctx, "t", m, sym)
    w = []
    for i, h in enumerate(b):
        w.append(ctx.real("w%d" % i, -10, 10))
        h.set("local_weight", w[-1])
    for h in t:
        h.set("local_weight", 7.0)
    for again in (0, 1):
        b.transmission_cut(t)
        for h, i, x in zip(b, ib, w):
            p = any(same3(i, j) for j in it)
            ctx.reach("partner" if p else "alone")
            ctx.eq("local weight", h.get("local_weight"), x if p else 0.0)
            ctx.eq("global weight", h.get("global_weight"), 1.0)
            for k, v in zip(ID, i):
                ctx.eq("identifier", h.get(k), v)
        for h, i in zip(t, it):
            ctx.eq("partner bunch unchanged", h.get("local_weight"), 7.0)
            for k, v in zip(ID, i):
                ctx.eq("partner identifier", h.get(k), v)


@R.each(["global", "station", ["station", "pid"]])
def transmission_how(ctx, how):
    """Global transmission cuts and other test variables."""
    fresh()
    g = how == "global"
    tv = ID[:] if g else [how] if isinstance(how, str) else how
    sym = [ID[1]] if g else tv
    b, t = Bunch()(), Bunch()()
    ib, it, w = [], [], []
    for nm, bb, ii, n in (("h", b, ib, 2 if g else 1), ("t", t, it, 1)):
        for i in range(n):
            h, st = mk(ctx, "%s%d" % (nm, i), sym, **({} if g else {"event_number": i + (nm == "t")}))
            bb.append(h)
            ii.append([st[k] for k in sym])
            if nm == "h":
                w.append(ctx.real("w%d" % i, -10, 10))
                h.set("local_weight", w[-1])
    args = {"global_cut": True} if g else {"test_variable": how}
    gw = [h.get("global_weight") for h in b]
    b.transmission_cut(t, **args)
    for h, i, x in zip(b, ib, w):
        p = any(same3(i, j) for j in it)
        ctx.reach("partner" if p else "alone")
        ctx.eq("local weight", h.get("local_weight"), x if p or g else 0.0)
        ctx.eq("global weight", h.get("global_weight"), 1.0 if p or not g else 0.0)


@R.each([1, 2])
def transmission_real(ctx, m):
    """With a real test variable a partner is a hit within the tolerance."""
    fresh()
    b, t = Bunch()(), Bunch()()
    h, st = mk(ctx, "h", ["x"])
    b.append(h)
    w = ctx.real("w", -10, 10)
    h.set("local_weight", w)
    xs = []
    for i in range(m):
        q, sq = mk(ctx, "t%d" % i, ["x"])
        t.append(q)
        xs.append(sq["x"])
    tol = 0.5
    b.transmission_cut(t, False, "x", tol)
    p = any(bool((x - st["x"] < tol) & (st["x"] - x < tol)) for x in xs)
    ctx.reach("partner" if p else "alone")
    ctx.eq("local weight", h.get("local_weight"), w if p else 0.0)


@R.case()
def bad_arguments(ctx):
    """Unknown variables and comparisons that fail raise and change no weight."""
    fresh()
    b, sts = bunch(ctx, 2, ["x"])
    c = ctx.real("c", -1000, 1000)

    def fails(v, c):
        raise KeyError("comparison")
    for nm, f in [("unknown", lambda: b.cut({"nope": c}, operator.ge)), ("failing comparison", lambda: b.cut({"x": c}, fails)), ("not callable", lambda: b.cut({"x": c}, 3)),
                  ("derived failing", lambda: b.cut({"r_squared": c}, fails)), ("remove unknown", lambda: b.conditional_remove({"nope": c}, operator.ge)),
                  ("remove failing", lambda: b.conditional_remove({"x": c}, fails))]:
        ctx.raises(nm, f)
        ctx.check("hits kept", len(b) == 2 and b._Bunch__bunchcore.length() == 2)
        for h, st in zip(b, sts):
            for k in ("x", "local_weight", "global_weight"):
                ctx.eq("unchanged by " + nm, h.get(k), st[k])
