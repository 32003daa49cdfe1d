"""C02: a global weight belongs to one particle."""
from engine.harness import Registry
from props.lib import *
R = Registry("C02")
R.bounds = {"hits": "up to 3, ids over all 32-bit integers (three components for 2 hits, one for 3)", "contexts": "2", "weights": "all reals in +-1000",
            "history": "set / read / clear / select, orders fixed per case, from arbitrary weights"}
K = ("spill", "event_number", "particle_number")


def core():
    from xboa.core._hitcore import Hitcore
    return Hitcore


def WC():
    from xboa.core._weight_context import WeightContext
    return WeightContext()


def ident(ctx, nm, k=3):
    return [ctx.int("%s_%s" % (nm, n), -I32, I32 - 1) if i >= 3 - k else 0 for i, n in enumerate(K)]


def hit(ctx, nm, k=3, ids=None):
    h = Hit()()
    ids = ids or ident(ctx, nm, k)
    for n, v in zip(K, ids):
        h.set(n, v)
    return h, ids


def same3(a, b):
    for x, y in zip(a, b):
        if x != y:
            return False
    return True


def fresh(ctx, default=None):
    """Select a new context, so that nothing is left over from an earlier run of the process."""
    c = WC()
    if default is not None:
        c.set_default_weight(default)
    core().set_weight_context(c)
    return c


@R.each(["method", "set", "item", "core"])
def one_hit(ctx, how):
    """Setting the weight of one hit changes exactly the hits of the same particle."""
    d = ctx.real("d", -1000, 1000)
    c = fresh(ctx, d)
    h, ih = hit(ctx, "h")
    g, ig = hit(ctx, "g")
    w = ctx.real("w", -1000, 1000)
    ctx.eq("before", h.get("global_weight"), d)
    {"method": lambda: h.set_global_weight(w), "set": lambda: h.set("global_weight", w), "item": lambda: h.__setitem__("global_weight", w),
     "core": lambda: h._Hit__hitcore.set("global_weight", w)}[how]()
    ctx.eq("the hit", h.get("global_weight"), w)
    s = same3(ih, ig)
    ctx.reach("same" if s else "different")
    ctx.eq("another hit", g.get("global_weight"), w if s else d)
    ctx.eq("another hit, by method", g.get_global_weight(), w if s else d)
    ctx.eq("through the context: the hit", c.get_weight(*ih), w)
    ctx.eq("through the context: the other hit", c.get_weight(*ig), w if s else d)
    ctx.eq("through the selected context", core().get_weight_context().get_weight(*ih), w)
    ctx.eq("local weight untouched", h.get("local_weight"), 1.0)


@R.case(reach=["same", "different"])
def via_context(ctx):
    """A weight set in the context table is the weight of the hits of that particle."""
    c = fresh(ctx)
    h, ih = hit(ctx, "h")
    q = ident(ctx, "q")
    w = ctx.real("w", -1000, 1000)
    c.set_weight(w, *q)
    s = same3(ih, q)
    ctx.reach("same" if s else "different")
    ctx.eq("weight of the hit", h.get("global_weight"), w if s else 1.0)
    c.set_default_weight(ctx.const(w) + 1)
    ctx.eq("weight of the hit after changing the default", h.get("global_weight"), w if s else ctx.const(w) + 1)


@R.case()
def moved(ctx):
    """The weight follows the numbers of the hit, not the record."""
    fresh(ctx)
    h, ih = hit(ctx, "h")
    w, v = ctx.real("w", -1000, 1000), ctx.real("v", -1000, 1000)
    h.set("global_weight", w)
    k = ctx.choice(K)
    j = list(ih)
    j[K.index(k)] = ctx.int("new", -I32, I32 - 1)
    h.set(k, j[K.index(k)])
    s = same3(ih, j)
    ctx.eq("weight under the new numbers", h.get("global_weight"), w if s else 1.0)
    h.set("global_weight", v)
    h.set(k, ih[K.index(k)])
    ctx.eq("weight under the old numbers", h.get("global_weight"), v if s else w)


@R.each([2, 3])
def total(ctx, n):
    """Total weight is local times global; the weight of a bunch is the sum."""
    fresh(ctx)
    b = Bunch()()
    exp = 0
    for i in range(n):
        h, _ = hit(ctx, "h%d" % i, 1, [0, i, 7 - i])
        l, g = ctx.real("l%d" % i, -1000, 1000), ctx.real("g%d" % i, -1000, 1000)
        h.set("local_weight", l)
        h.set("global_weight", g)
        ctx.eq("total weight", h.get("weight"), ctx.const(l) * g)
        ctx.eq("total weight by method", h.get_weight(), ctx.const(l) * g)
        ctx.eq("total weight in the core", h._Hit__hitcore.get("weight"), ctx.const(l) * g)
        exp = exp + ctx.const(l) * g
        b.append(h)
    ctx.eq("weight of the bunch", b.bunch_weight(), exp)
    for i in range(n):
        ctx.eq("total weight later", b[i].get("weight"), ctx.const(b[i].get("local_weight")) * b[i].get("global_weight"))


@R.each(["Hit", "Hitcore", "Bunch", "Bunch.clear_weights", "Bunch.clear_local_weights"])
def clear(ctx, who):
    """Clearing gives every particle the default weight, of hits and of the table."""
    d = ctx.real("d", -1000, 1000)
    c = fresh(ctx, d)
    b = Bunch()()
    hs = []
    for i in range(2):
        h, ids = hit(ctx, "h%d" % i, 2)
        h.set("global_weight", ctx.real("g%d" % i, -1000, 1000))
        h.set("local_weight", ctx.real("l%d" % i, -1000, 1000))
        hs.append((h, ids))
    x, ix = hit(ctx, "x", 1)
    x.set("global_weight", ctx.real("gx", -1000, 1000))
    b.append(hs[0][0])
    before = [(h.get("global_weight"), h.get("local_weight")) for h, _ in hs]
    {"Hit": Hit().clear_global_weights, "Hitcore": core().clear_global_weights, "Bunch": Bunch().clear_global_weights,
     "Bunch.clear_weights": b.clear_weights, "Bunch.clear_local_weights": b.clear_local_weights}[who]()
    local = who.startswith("Bunch.")
    for i, (h, ids) in enumerate(hs):
        if who == "Bunch.clear_local_weights":
            ctx.eq("global weight kept", h.get("global_weight"), before[i][0])
        else:
            ctx.eq("global weight cleared", h.get("global_weight"), d)
            ctx.eq("cleared in the table", c.get_weight(*ids), d)
        ctx.eq("local weight", h.get("local_weight"), 1.0 if local and i == 0 else before[i][1])
    if who != "Bunch.clear_local_weights":
        ctx.eq("hit outside the bunch cleared", x.get("global_weight"), d)
        ctx.eq("default weight kept", c.get_default_weight(), d)
    w = ctx.real("w", -1000, 1000)
    hs[1][0].set("global_weight", w)
    ctx.eq("weights can be set again", hs[1][0].get("global_weight"), w)


@R.case(reach=["same", "different"])
def select(ctx):
    """After selecting a context every hit reads and writes that one; the other one keeps its weights and can be selected again."""
    a, b = WC(), WC()
    h, ih = hit(ctx, "h", 2)
    g, ig = hit(ctx, "g", 2)
    wa, wb, v = ctx.real("wa", -1000, 1000), ctx.real("wb", -1000, 1000), ctx.real("v", -1000, 1000)
    db = ctx.real("db", -1000, 1000)
    a.set_weight(wa, *ih)
    b.set_default_weight(db)
    b.set_weight(wb, *ig)
    s = same3(ih, ig)
    ctx.reach("same" if s else "different")
    core().set_weight_context(a)
    ctx.eq("first context: h", h.get("global_weight"), wa)
    ctx.eq("first context: g", g.get("global_weight"), wa if s else 1.0)
    core().set_weight_context(b)
    ctx.eq("second context: h", h.get("global_weight"), wb if s else db)
    ctx.eq("second context: g", g.get("global_weight"), wb)
    h.set("global_weight", v)
    ctx.eq("second context after writing: h", h.get("global_weight"), v)
    ctx.eq("second context after writing: g", g.get("global_weight"), v if s else wb)
    ctx.eq("first context keeps its weight", a.get_weight(*ih), wa)
    core().set_weight_context(a)
    ctx.eq("first context again: h", h.get("global_weight"), wa)
    ctx.eq("first context again: g", g.get("global_weight"), wa if s else 1.0)
    ctx.eq("second context keeps its weight", b.get_weight(*ih), v)
    core().clear_global_weights()
    ctx.eq("clearing affects the selected context", a.get_weight(*ih), 1.0)
    ctx.eq("clearing leaves the other one", b.get_weight(*ih), v)


@R.each(["moment", "cut", "tensor", "covariance", "mean"])
def bunch_context(ctx, what):
    """Calculations of a bunch use the selected context."""
    a, c = WC(), WC()
    b = Bunch()()
    xs, ws = [], []
    for i in range(2):
        h, ids = hit(ctx, "h%d" % i, 1, [0, i, 5])
        xs.append(ctx.real("x%d" % i, -1000, 1000))
        ws.append(ctx.real("w%d" % i, 0, 1000))
        h.set("x", xs[-1])
        b.append(h)
        a.set_weight(ws[-1], *ids)
        c.set_weight(1 + i, *ids)
    when = ctx.choice(["before", "after"])
    ctx.assume(ctx.const(ws[0]) + ws[1] > 1)
    core().set_weight_context(c)
    if when == "after":
        ctx.eq("mean in the first context", b.mean(["x"])["x"], (ctx.const(xs[0]) + 2 * ctx.const(xs[1])) / 3)
    core().set_weight_context(a)
    W = ctx.const(ws[0]) + ws[1]
    m = (ctx.const(ws[0]) * xs[0] + ctx.const(ws[1]) * xs[1]) / W
    ctx.eq("weight of the bunch", b.bunch_weight(), W)
    if what == "moment":
        ctx.eq("raw moment", b.moment(["x", "x"], {"x": 0.0}), (ctx.const(ws[0]) * xs[0] * xs[0] + ctx.const(ws[1]) * xs[1] * xs[1]) / W)
    elif what == "mean":
        ctx.eq("mean", b.mean(["x"])["x"], m)
    elif what == "covariance":
        ctx.eq("variance", b.covariance_matrix(["x"], {"x": 0.0})[0, 0], (ctx.const(ws[0]) * xs[0] * xs[0] + ctx.const(ws[1]) * xs[1] * xs[1]) / W)
    elif what == "tensor":
        from xboa.core._bunchcore import Bunchcore
        bc = b._Bunch__bunchcore
        ctx.eq("first moment of the tensor", bc.moment_tensor(["x"], 1)[1], m)
    else:
        import operator
        cut = ctx.real("cut", -1000, 1000)
        b.cut({"x": cut}, operator.gt, False, True)
        for i in range(2):
            ctx.eq("global weight after the cut", b[i].get("global_weight"), 0.0 if xs[i] > cut else ws[i])
            ctx.eq("in the selected table", a.get_weight(0, i, 5), 0.0 if xs[i] > cut else ws[i])
            ctx.eq("not in the other table", c.get_weight(0, i, 5), 1 + i)


@R.case()
def lifetime(ctx):
    """A selected context stays in force when the caller lets go of it."""
    c = WC()
    h, ih = hit(ctx, "h")
    w, v = ctx.real("w", -1000, 1000), ctx.real("v", -1000, 1000)
    c.set_weight(w, *ih)
    core().set_weight_context(c)
    del c
    ctx.eq("weight through the selected context", h.get("global_weight"), w)
    h.set("global_weight", v)
    ctx.eq("weight written", h.get("global_weight"), v)
    k = core().get_weight_context()
    ctx.eq("weight through the returned context", k.get_weight(*ih), v)
    k.set_weight(w, *ih)
    ctx.eq("the returned context is the one in force", h.get("global_weight"), w)
    del k
    ctx.eq("still in force", h.get("global_weight"), w)
    ctx.raises("something else cannot be selected", lambda: core().set_weight_context(ctx.choice([None, 1.0, "a", [1]])))
    ctx.eq("refusal changes nothing", h.get("global_weight"), w)


@R.case(tier="thorough")
def three(ctx):
    """Three hits and three writes."""
    fresh(ctx)
    hs = [hit(ctx, "h%d" % i, 2) for i in range(3)]
    last = []
    for i in range(3):
        w = ctx.real("w%d" % i, -1000, 1000)
        hs[i][0].set("global_weight", w)
        last.append((hs[i][1], w))
    for h, ids in hs:
        exp = 1.0
        for j, w in last:
            if same3(j, ids):
                exp = w
        ctx.eq("last weight written for the particle", h.get("global_weight"), exp)
