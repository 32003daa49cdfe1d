"""C04: a bunch is the list of its hits, in both layers."""
from engine.harness import Registry
from props.lib import *
R = Registry("C04")
R.bounds = {"hits": "up to 4 at a time", "history": "up to 2 operations quick (3 thorough) from every bunch of up to 3 hits, a hit possibly present twice",
            "indices": "every integer from two below to two above the valid range", "values": "all reals in +-1000"}


def new(ctx, tag, w=True):
    h = Hit()()
    h.set("x", ctx.real("x" + tag, -1000, 1000))
    if w:
        h.set("local_weight", ctx.real("w" + tag, 0.5, 10))
    return h


def hcore(h):
    return h._Hit__hitcore


def agree(ctx, label, b, model, moments=True):
    """The bunch (both layers) holds exactly the hits of model, in order."""
    n = len(model)
    ctx.eq(label + ": length", len(b), n)
    ctx.eq(label + ": length of the list", len(b.hits()), n)
    bc = b._Bunch__bunchcore
    ctx.eq(label + ": length of the core", bc.length(), n)
    for i, h in enumerate(model):
        ctx.check(label + ": hit", b[i] is h)
        ctx.check(label + ": hit from the end", b[i - n] is h)
        ctx.check(label + ": hit of the list", b.hits()[i] is h)
        ctx.check(label + ": hit of the core", bc.get_item(i) == hcore(h))
    for k in (n, n + 1, -n - 1):
        ctx.raises(label + ": index outside is refused", lambda: b[k], exc=IndexError)
    ctx.raises(label + ": core index outside is refused", lambda: bc.get_item(n), exc=IndexError)
    it = []
    for h in b:
        it.append(h)
    ctx.check(label + ": iteration", len(it) == n and all(p is q for p, q in zip(it, model)))
    if not moments:
        return
    W = ctx.const(0)
    S = ctx.const(0)
    Q = ctx.const(0)
    for h in model:
        w, x = ctx.const(h.get("weight")), h.get("x")
        W, S, Q = W + w, S + w * x, Q + w * x * x
    ctx.eq(label + ": weight", b.bunch_weight(), W)
    if n:
        ctx.eq(label + ": mean of the core", bc.moment(["x"], {"x": 0.0}), S / W)
        ctx.eq(label + ": moment of the core", bc.moment(["x", "x"], {"x": 0.0}), Q / W)
        ctx.eq(label + ": list of values", len(b.list_get_hit_variable(["x"])[0]), n)
    b._Bunch__means = {}


def start(ctx, n, twice=False):
    b, model = Bunch()(), []
    for i in range(n):
        h = new(ctx, "s%d" % i)
        if twice and i and ctx.bool():
            h = model[0]
        b.append(h)
        model.append(h)
    return b, model


def index(ctx, nm, n):
    return ctx.int(nm, -n - 2, n + 1)


OPS = ["append", "append_same", "set", "set_same", "del", "remove", "bad"]


def step(ctx, op, k, b, model):
    n = len(model)
    if op == "append":
        h = new(ctx, "n%d" % k)
        b.append(h)
        model.append(h)
    elif op == "append_same":
        h = model[0] if model else new(ctx, "n%d" % k)
        b.append(h)
        model.append(h)
    elif op in ("set", "set_same"):
        h = model[-1] if op == "set_same" and model else new(ctx, "n%d" % k)
        i = index(ctx, "i%d" % k, n)
        if -n <= i and i < n:
            b[i] = h
            model[i] = h
        else:
            ctx.raises("replacing outside is refused", lambda: b.__setitem__(i, h), exc=IndexError)
    elif op == "del":
        i = index(ctx, "i%d" % k, n)
        if -n <= i and i < n:
            del b[i]
            del model[i]
        else:
            ctx.raises("deleting outside is refused", lambda: b.__delitem__(i), exc=IndexError)
    elif op == "remove":
        import operator
        c = ctx.real("c%d" % k, -1000, 1000)
        b.conditional_remove({"x": c}, operator.ge)
        model[:] = [h for h in model if not h.get("x") >= c]
    elif op == "bad":
        v = ctx.choice([None, 1.0, "hit", [1]])
        ctx.raises("something else cannot be appended", lambda: b.append(v))
        ctx.raises("something else cannot be stored", lambda: b.__setitem__(0, v))
        bad = ctx.choice([None, "0", 1.5])
        ctx.raises("not an index", lambda: b.__setitem__(bad, new(ctx, "n%d" % k)))
        ctx.raises("not an index to delete", lambda: b.__delitem__(bad))


@R.each([(n, op) for n in range(4) for op in OPS])
def one(ctx, n, op):
    """One operation on an arbitrary bunch."""
    b, model = start(ctx, n, True)
    step(ctx, op, 0, b, model)
    agree(ctx, "after", b, model)


@R.each([(a, c) for a in OPS[:6] for c in OPS[2:6]])
def two(ctx, a, c):
    """Two operations on a bunch of two hits."""
    b, model = start(ctx, 2)
    step(ctx, a, 0, b, model)
    agree(ctx, "between", b, model, False)
    step(ctx, c, 1, b, model)
    agree(ctx, "after", b, model)


@R.each([(a, c, d) for a in OPS[:6] for c in OPS[1:6] for d in ("set", "del", "remove", "append")], tier="thorough")
def three(ctx, a, c, d):
    """Three operations on a bunch of up to two hits."""
    b, model = start(ctx, ctx.choice([0, 1, 2]))
    for k, op in enumerate((a, c, d)):
        step(ctx, op, k, b, model)
    agree(ctx, "after", b, model)


@R.case()
def shared(ctx):
    """Two bunches that share hits: changing the membership of one leaves the other alone, changing the hit is seen in both."""
    b, model = start(ctx, 2)
    c, other = Bunch()(), []
    for h in model:
        c.append(h)
        other.append(h)
    op = ctx.choice(["append", "set", "del", "remove"])
    step(ctx, op, 0, b, model)
    agree(ctx, "the other bunch", c, other)
    agree(ctx, "the bunch", b, model)
    v = ctx.real("v", -1000, 1000)
    other[0].set("x", v)
    ctx.eq("shared value", c[0].get("x"), v)
    agree(ctx, "the other bunch after a change of the hit", c, other)
    agree(ctx, "the bunch after a change of the hit", b, model)
    b._Bunch__hits[:] = []
    del b
    agree(ctx, "after the first bunch is gone", c, other)


@R.each([0, 1, 2, 3])
def from_hits(ctx, n):
    """A bunch built from a list of hits holds copies of them in order."""
    hs, st = [], []
    for i in range(n):
        h, s = full_hit(ctx, "h%d" % i, lim=1000, ints=n < 2)
        h.set("event_number", i)
        s["event_number"] = i
        hs.append(h)
        st.append(s)
    b = Bunch().new_from_hits(hs)
    ctx.eq("length", len(b), n)
    ctx.eq("length of the core", b._Bunch__bunchcore.length(), n)
    for i in range(n):
        same(ctx, "copy %d" % i, b[i], st[i])
        ctx.check("a new hit", b[i] is not hs[i])
        ctx.check("hit of the core", b._Bunch__bunchcore.get_item(i) == hcore(b[i]))
    if n:
        v = ctx.real("v", -1000, 1000)
        b[0].set("x", v)
        same(ctx, "the original", hs[0], st[0])


@R.each([(2, 3)])
def core_set(ctx, nk, top):
    """The core keeps hits at the slots they were put in; unfilled slots hold nothing and count for nothing."""
    from xboa.core._bunchcore import Bunchcore
    bc = Bunchcore()
    slots = []
    for k in range(nk):
        i = ctx.int("i%d" % k, 0, top)
        h = new(ctx, str(k))
        bc.set_item(hcore(h), i)
        i = int(i)
        while len(slots) <= i:
            slots.append(None)
        slots[i] = h
    ctx.eq("length", bc.length(), len(slots))
    for i, h in enumerate(slots):
        g = bc.get_item(i)
        ctx.check("slot", g is None if h is None else g == hcore(h))
    W = S = ctx.const(0)
    for h in slots:
        if h is not None:
            W, S = W + h.get("weight"), S + ctx.const(h.get("weight")) * h.get("x")
    ctx.eq("mean", bc.moment(["x"], {"x": 0.0}), S / W)
    j = ctx.int("j", 0, top + 2)
    if j < len(slots):
        bc.del_item(j)
        del slots[int(j)]
    else:
        ctx.raises("deleting outside is refused", lambda: bc.del_item(j), exc=IndexError)
    ctx.eq("length after deleting", bc.length(), len(slots))
    for i, h in enumerate(slots):
        g = bc.get_item(i)
        ctx.check("slot after deleting", g is None if h is None else g == hcore(h))


@R.each(["get", "set", "del"])
def core_negative(ctx, op):
    """Negative indices of the core count from the end, as its documentation says."""
    from xboa.core._bunchcore import Bunchcore
    bc = Bunchcore()
    hs = [new(ctx, str(k)) for k in range(3)]
    for k, h in enumerate(hs):
        bc.set_item(hcore(h), k)
    i = ctx.int("i", -3, -1)
    j = int(i) + 3
    if op == "get":
        ctx.check("negative index", bc.get_item(i) == hcore(hs[j]))
    elif op == "set":
        g = new(ctx, "g")
        bc.set_item(hcore(g), i)
        ctx.check("negative index", bc.get_item(j) == hcore(g))
    else:
        bc.del_item(i)
        ctx.check("negative index", all(bc.get_item(k) == hcore(h) for k, h in enumerate(hs[:j] + hs[j + 1:])))


@R.case(tier="thorough")
def core_set_deep(ctx):
    core_set(ctx, 3, 4)
