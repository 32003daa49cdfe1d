"""C03: weight contexts obey pointwise arithmetic."""
from engine.harness import Registry
R = Registry("C03")
R.bounds = {"entries per operand": "0..2", "ids": "spill, event, particle: all 32-bit values (ranges named per case)", "weights": "all reals in [-1000, 1000]; divisors nonzero"}
OPS = {"add": lambda a, b: a + b, "subtract": lambda a, b: a - b, "multiply": lambda a, b: a * b, "divide": lambda a, b: a / b}
I31 = 2 ** 31 - 1


def WC():
    from xboa.core._weight_context import WeightContext
    return WeightContext()


def ident(ctx, nm, k=3):
    """An id whose first 3-k components are zero."""
    return tuple([0] * (3 - k) + [ctx.int("%s_%d" % (nm, i), -I31 - 1, I31) for i in range(k)])


def build(ctx, nm, n, k, nz=False):
    c = WC()
    c.set_default_weight(ctx.real(nm + "_default", -1000, 1000, 0 if nz else None))
    ids = []
    for i in range(n):
        j = ident(ctx, "%s%d" % (nm, i), k)
        c.set_weight(ctx.real("%s%d_w" % (nm, i), -1000, 1000, 0 if nz else None), *j)
        ids.append(j)
    return c, ids


def same(a, b):
    for x, y in zip(a, b):
        if x != y:
            return False
    return True


@R.each({"%d_%d" % (n, k): (n, k) for n, k in ((0, 3), (1, 3), (2, 3), (3, 1))})
def mapping(ctx, n, k):
    """A context is a map: the last weight set, or else the default."""
    c = WC()
    ctx.eq("initial default", c.get_default_weight(), 1.0)
    ents = []
    for i in range(n):
        j = ident(ctx, "e%d" % i, k)
        w = ctx.real("w%d" % i, -1000, 1000)
        c.set_weight(w, *j)
        ents.append((j, w))
    d = ctx.real("d", -1000, 1000)
    q = ident(ctx, "q", k)
    exp = 1.0
    for j, w in ents:
        if same(j, q):
            exp = w
    ctx.eq("weight of any particle", c.get_weight(*q), exp)
    c.set_default_weight(d)
    ctx.eq("default weight", c.get_default_weight(), d)
    hit = False
    for j, w in ents:
        if same(j, q):
            exp, hit = w, True
    if not hit:
        exp = d
        ctx.reach("unlisted")
    ctx.eq("weight of any particle after changing the default", c.get_weight(*q), exp)


PAIRS = [(op, na, nb, k) for op in OPS for na, nb, k in ((0, 0, 3), (1, 0, 3), (0, 1, 3), (1, 1, 3), (2, 1, 1), (1, 2, 1))]


@R.each(PAIRS)
def binary(ctx, op, na, nb, k):
    f = OPS[op]
    a, ia = build(ctx, "a", na, k)
    b, ib = build(ctx, "b", nb, k, op == "divide")
    q = ident(ctx, "q", k)
    wa, wb = a.get_weight(*q), b.get_weight(*q)
    da, db = a.get_default_weight(), b.get_default_weight()
    c = f(a, b)
    ctx.eq("weight of the result", c.get_weight(*q), f(ctx.const(wa), wb))
    ctx.eq("default weight of the result", c.get_default_weight(), f(ctx.const(da), db))
    ctx.eq("left operand keeps its weight", a.get_weight(*q), wa)
    ctx.eq("right operand keeps its weight", b.get_weight(*q), wb)
    ctx.eq("left operand keeps its default", a.get_default_weight(), da)
    ctx.eq("right operand keeps its default", b.get_default_weight(), db)
    # later changes are not shared
    before = c.get_weight(*q)
    a.set_weight(77.0, *q)
    b.set_weight(78.0, *q)
    a.set_default_weight(79.0)
    b.set_default_weight(80.0)
    ctx.eq("result is independent of the operands", c.get_weight(*q), before)
    c.set_weight(81.0, *q)
    c.set_default_weight(82.0)
    ctx.eq("operands are independent of the result", a.get_weight(*q), 77.0)
    ctx.eq("operands are independent of the result (right)", b.get_weight(*q), 78.0)
    ctx.eq("operand default is independent of the result", a.get_default_weight(), 79.0)
    ctx.reach("end")


@R.each([(op, side, n, k) for op in OPS for side in ("right", "left") for n, k in ((0, 3), (1, 3), (2, 1))])
def scalar(ctx, op, side, n, k):
    f = OPS[op]
    a, ia = build(ctx, "a", n, k)
    x = ctx.real("x", -1000, 1000, 0 if op == "divide" else None)
    q = ident(ctx, "q", k)
    wa, da = a.get_weight(*q), a.get_default_weight()
    if side == "left" and op in ("subtract", "divide"):
        ctx.raises("a number minus or over a context is refused", lambda: f(x, a))
    else:
        c = f(a, x) if side == "right" else f(x, a)
        ctx.eq("weight of the result", c.get_weight(*q), f(ctx.const(wa), x))
        ctx.eq("default weight of the result", c.get_default_weight(), f(ctx.const(da), x))
        c.set_weight(81.0, *q)
        c.set_default_weight(82.0)
    ctx.eq("operand keeps its weight", a.get_weight(*q), wa)
    ctx.eq("operand keeps its default", a.get_default_weight(), da)


@R.each([(0, 3), (1, 3), (2, 1), (3, 1)])
def complement(ctx, n, k):
    a, ids = build(ctx, "a", n, k)
    q = ident(ctx, "q", k)
    wa, da = a.get_weight(*q), a.get_default_weight()
    c = ~a
    listed = False
    for j in ids:
        if same(j, q):
            listed = True
    exp = da if (listed and wa == 0) else 0.0
    ctx.eq("weight of the complement", c.get_weight(*q), exp)
    ctx.eq("default weight of the complement", c.get_default_weight(), 0.0)
    ctx.eq("operand keeps its weight", a.get_weight(*q), wa)
    ctx.eq("operand keeps its default", a.get_default_weight(), da)
    c.set_weight(5.0, *q)
    ctx.eq("operand is independent", a.get_weight(*q), wa)


@R.each(list(OPS))
def chain(ctx, op):
    """Results of operations can be operands; a context combined with itself is handled pointwise."""
    f = OPS[op]
    a, ia = build(ctx, "a", 1, 1, True)
    b, ib = build(ctx, "b", 1, 1, True)
    q = ident(ctx, "q", 1)
    wa, wb, da = ctx.const(a.get_weight(*q)), ctx.const(b.get_weight(*q)), ctx.const(a.get_default_weight())
    c = f(a * b, b)
    ctx.eq("weight of a compound expression", c.get_weight(*q), f(wa * wb, wb))
    d = f(a, a)
    ctx.eq("weight of a context combined with itself", d.get_weight(*q), f(wa, wa))
    ctx.eq("default of a context combined with itself", d.get_default_weight(), f(da, da))
    ctx.eq("operand keeps its weight", a.get_weight(*q), wa)


@R.each([(op, kind) for op in OPS for kind in ("none", "text", "list", "object")])
def unsupported(ctx, op, kind):
    f = OPS[op]
    a, ia = build(ctx, "a", 1, 1)
    q = ident(ctx, "q", 1)
    wa = a.get_weight(*q)
    bad = {"none": None, "text": "abc", "list": [1.0], "object": object()}[kind]
    ctx.raises("an unsupported right operand is refused", lambda: f(a, bad))
    ctx.raises("an unsupported left operand is refused", lambda: f(bad, a))
    ctx.eq("operand keeps its weight", a.get_weight(*q), wa)
    ctx.raises("a weight that is not a number is refused", lambda: a.set_weight(bad, 1, 2, 3))
    ctx.raises("a default weight that is not a number is refused", lambda: a.set_default_weight(bad))
    ctx.raises("an id that is not a number is refused", lambda: a.set_weight(1.0, bad, 2, 3))
    ctx.eq("operand keeps its weight after refused changes", a.get_weight(*q), wa)


@R.each(["event_number particle_number", "eventNumber particleNumber"])
def keywords(ctx, names):
    """The particle can be named by keyword; numbers that are not given are zero, and a weight must be given."""
    en, pn = names.split()
    c = WC()
    s, e, p = [ctx.int(n, -I31 - 1, I31) for n in ("s", "e", "p")]
    w = ctx.real("w", -1000, 1000)
    d = ctx.real("d", -1000, 1000)
    ctx.assume(w != d)
    c.set_default_weight(d)
    c.set_weight(w, **{"spill": s, en: e, pn: p})
    ctx.eq("set by keyword, read by position", c.get_weight(s, e, p), w)
    ctx.eq("set by keyword, read by keyword", c.get_weight(**{pn: p, en: e, "spill": s}), w)
    if e != p:
        ctx.eq("another particle keeps the default", c.get_weight(s, p, e), d)
    if s != e:
        ctx.eq("another spill keeps the default", c.get_weight(e, s, p), d)
    ctx.eq("numbers not given are zero", c.get_weight(s), w if (e == 0) & (p == 0) else d)
    ctx.eq("particle by keyword alone", c.get_weight(**{pn: p}), w if (s == 0) & (e == 0) else d)
    ctx.raises("a weight must be given", lambda: c.set_weight(spill=s))
    ctx.raises("an unknown keyword is refused", lambda: c.get_weight(nosuch=s))
    ctx.eq("refused calls change nothing", c.get_weight(s, e, p), w)
    ctx.eq("refused calls change nothing: default", c.get_default_weight(), d)
