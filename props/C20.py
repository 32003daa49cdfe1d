"""C20: index tables and moment tensors."""
import itertools
from engine.harness import Registry
from props.lib import *
from props.C06 import fresh, bunch, nonzero
R = Registry("C20")
R.bounds = {"tables": "1-4 axes, orders 0-4 (thorough: up to 5 axes and order 6); the two sizes are the only inputs, wrong sizes are symbolic", "tensors": "1-2 hits (thorough: 3), 1-3 axes, orders 1-3 (thorough: 4), all real coordinates in +-1000 and weights in +-10",
            "core": "hits missing from slots; repeated axes; weights that sum to zero"}
R.assumptions = ["total weight at least 1e-6 in size where numbers are expected", "exact real arithmetic"]


def core():
    from xboa.core._bunchcore import Bunchcore
    return Bunchcore()


def _table(ctx, order, n):
    t = core().index_by_power(order, n)
    want = [list(p) for p in itertools.product(range(order + 1), repeat=n) if sum(p) <= order]
    got = [[int(k) for k in p] for p in t]
    ctx.check("every index once", sorted(got) == sorted(want))
    ctx.check("starts with the unit", got[0] == [0] * n)
    ctx.check("keywords", [[int(k) for k in p] for p in core().index_by_power(n_axes=n, max_power=order)] == got)


@R.each(prod([0, 1, 2, 3, 4], [1, 2, 3, 4]))
def table(ctx, order, n):
    """The table has each set of powers up to the order exactly once."""
    _table(ctx, order, n)


@R.each([(6, 3), (5, 4), (3, 5), (6, 2), (9, 1)], tier="thorough", budget=300)
def table_more(ctx, order, n):
    _table(ctx, order, n)


@R.each(["order", "axes", "both"])
def table_wrong(ctx, what):
    """A negative order or fewer than one axis is an error."""
    a = ctx.int("order", -I32, -1) if what != "axes" else 2
    b = ctx.int("axes", -I32, 0) if what != "order" else 2
    c = core()
    ctx.raises("wrong size", lambda: c.index_by_power(a, b), exc=ValueError)
    ctx.check("still works", len(c.index_by_power(1, 1)) == 2)


def _tensor(ctx, n, axes, order, glob=0):
    b, val, wts = bunch(ctx, n, sorted(set(axes)), glob=glob)
    W = sum(wts[1:], wts[0])
    nonzero(ctx, W)
    bc = b._Bunch__bunchcore
    t = bc.moment_tensor(axes, order)
    idx = bc.index_by_power(order, len(axes))
    ctx.check("one moment per index", len(t) == len(idx))
    for m, p in zip(t, idx):
        s = 0
        for v, w in zip(val, wts):
            q = w
            for a, k in zip(axes, p):
                for _ in range(int(k)):
                    q = q * v[a]
            s = s + q
        ctx.eq("moment %s" % [int(k) for k in p], ctx.const(m) * W, s)


@R.each([(1, ["x"], 1, 0), (1, ["x", "px"], 2, 1), (2, ["x"], 3, 1), (2, ["x", "px"], 2, 0), (2, ["x", "px", "energy"], 2, 0), (2, ["t", "y"], 2, 2), (2, ["px", "x"], 3, 0), (2, ["x", "x"], 2, 0)])
def tensor(ctx, n, axes, order, glob):
    """Each entry of the tensor is the weighted raw moment of the index in the same place of the table."""
    _tensor(ctx, n, axes, order, glob)


@R.each([(3, ["x", "px"], 2, 0), (2, ["x", "px"], 4, 0), (3, ["x", "y", "energy"], 2, 1), (3, ["x"], 4, 3)], tier="thorough", budget=300)
def tensor_more(ctx, n, axes, order, glob):
    _tensor(ctx, n, axes, order, glob)


@R.case("tensor_hole")
def tensor_hole(ctx):
    """Slots without a hit do not count."""
    fresh()
    h, st = mk(ctx, "h", ["x", "px"], event_number=1)
    bc = core()
    bc.set_item(h._Hit__hitcore, 2)
    t = bc.moment_tensor(["x", "px"], 2)
    for m, p in zip(t, bc.index_by_power(2, 2)):
        q = ctx.const(1.0)
        for a, k in zip(["x", "px"], p):
            for _ in range(int(k)):
                q = q * st[a]
        ctx.eq("moment %s" % [int(k) for k in p], m, q)


@R.each(["weightless", "axis", "none", "negative", "zero", "kind"])
def tensor_wrong(ctx, what):
    """No weight, an unknown variable, no axes or a wrong order are errors; the bunch works afterwards."""
    b, val, wts = bunch(ctx, 2, ["x"])
    bc = b._Bunch__bunchcore
    W = wts[0] + wts[1]
    axes, order = ["x"], 2
    if what == "weightless":
        ctx.assume(W == 0)
    elif what == "axis":
        axes = ["x", "nonsense"]
    elif what == "none":
        axes = []
    elif what == "negative":
        order = ctx.int("order", -I32, -1)
    elif what == "zero":
        order = 0
    else:
        axes = ctx.choice([5, None, "x", [1], ["x", None]])
    ctx.raises("wrong request", lambda: bc.moment_tensor(axes, order), exc=(RuntimeError, ValueError, TypeError))
    if what != "weightless":
        nonzero(ctx, W)
        ctx.eq("still works", ctx.const(bc.moment_tensor(["x"], 1)[1]) * W, wts[0] * val[0]["x"] + wts[1] * val[1]["x"])
