"""C05: memory and ownership in the core."""
from engine.harness import Registry
from props.lib import *
R = Registry("C05")
R.bounds = {"objects": "2 bunches (core arrays), up to 3 hit records, 3 weight tables", "history": "2 to 3 operations quick, 4 thorough, every order",
            "arguments": "one argument at a time replaced by each of 14 wrong values, and wrong numbers of arguments",
            "leaks": "each call once after a warm-up call; on the real build 400 repetitions"}
R.assumptions = ["leaks of Python temporaries are judged by blocks that stay allocated after a repeated call"]


def mods():
    from xboa.core._hitcore import Hitcore
    from xboa.core._bunchcore import Bunchcore
    from xboa.core._weight_context import WeightContext
    return Hitcore, Bunchcore, WeightContext


def counts(before):
    """Number of holders of every record made since before."""
    H = mods()[0]
    d = H.dump_memory()
    return sorted(v - before.get(k, 0) for k, v in d.items() if v != before.get(k, 0)), d


def model_counts(slots, names):
    """names: variable -> record id or None, slots: list of lists of record ids."""
    c = {}
    for r in names.values():
        if r is not None:
            c[r] = c.get(r, 0) + 1
    for s in slots:
        for r in s or ():
            if r is not None:
                c[r] = c.get(r, 0) + 1
    return sorted(c.values()), c


OPS = ["new", "put", "get", "del_item", "drop_hit", "drop_bunch", "reinit"]


def history(ctx, ops, top=2):
    H, B, W = mods()
    before = dict(H.dump_memory())
    var, who, val = {}, {"a": None, "b": None}, {}
    bun, slots = [B(), B()], [[], []]
    n = 0

    def make(v):
        nonlocal n
        var[v] = H()
        x = ctx.real("x%d" % n, -1000, 1000)
        var[v].set("x", x)
        val[n] = x
        who[v] = n
        n += 1
    make("a")
    bun[0].set_item(var["a"], 0)
    slots[0].append(0)
    for k, op in enumerate(ops):
        b = ctx.choice([0, 1]) if op in ("put", "get", "del_item", "drop_bunch") else 0
        v = ctx.choice(["a", "b"]) if op in ("new", "put", "get", "drop_hit") else "a"
        if op == "new":
            make(v)
        elif op == "put":
            if var.get(v) is None or slots[b] is None:
                continue
            i = ctx.int("i%d" % k, 0, top)
            bun[b].set_item(var[v], i)
            i = int(i)
            while len(slots[b]) <= i:
                slots[b].append(None)
            slots[b][i] = who[v]
        elif op == "get":
            if slots[b] is None:
                continue
            i = ctx.int("i%d" % k, 0, top)
            o, r = ctx.outcome(bun[b].get_item, i)
            i = int(i)
            ctx.check("get is refused exactly outside", (o == "ok") == (i < len(slots[b])))
            if o == "ok":
                ctx.check("an empty slot holds nothing", (r is None) == (slots[b][i] is None))
                var[v] = r
                who[v] = slots[b][i]
            del r
        elif op == "del_item":
            if slots[b] is None:
                continue
            i = ctx.int("i%d" % k, 0, top)
            o, r = ctx.outcome(bun[b].del_item, i)
            i = int(i)
            ctx.check("delete is refused exactly outside", (o == "ok") == (i < len(slots[b])))
            if o == "ok":
                del slots[b][i]
            del r
        elif op == "drop_hit":
            var[v] = None
            who[v] = None
        elif op == "drop_bunch":
            bun[b] = None
            slots[b] = None
        elif op == "reinit":
            if var.get("a") is not None:
                var["a"].__init__()
            if bun[0] is not None:
                bun[0].__init__()
        exp, c = model_counts(slots, who)
        got, _ = counts(before)
        ctx.eq("holders of the records", list(got), exp)
        for v2 in ("a", "b"):
            if who[v2] is not None:
                ctx.eq("content of a held record", var[v2].get("x"), val[who[v2]])
        for b2 in (0, 1):
            if slots[b2] is not None:
                ctx.eq("length", bun[b2].length(), len(slots[b2]))
                for i, r in enumerate(slots[b2]):
                    if r is not None:
                        ctx.eq("content of a record in a bunch", bun[b2].get_item(i).get("x"), val[r])
    var.clear()
    bun[:] = []
    ctx.eq("everything is freed in the end", list(counts(before)[0]), [])


@R.each([(a, c) for a in OPS for c in OPS])
def records(ctx, a, c):
    """Shared records through every order of operations."""
    history(ctx, [a, c])


@R.each([(a, c) for a in OPS[1:6] for c in OPS[3:6]])
def records3(ctx, a, c):
    history(ctx, [a, c, ctx.choice(OPS[3:6])], top=1)


@R.each([(a, c, d) for a in OPS for c in OPS[1:6] for d in OPS[1:6]], tier="thorough")
def records_deep(ctx, a, c, d):
    history(ctx, [a, c, d, ctx.choice(OPS[1:6])], top=1)


@R.each(["select_first", "select_second", "result", "drop_all"])
def contexts(ctx, how):
    """Weight tables: results of arithmetic and selected tables live on without their makers."""
    H, B, W = mods()
    a, b = W(), W()
    i, j = ctx.int("i", -100, 100), ctx.int("j", -100, 100)
    wa, wb = ctx.real("wa", 0.5, 100), ctx.real("wb", 0.5, 100)
    a.set_weight(wa, i, 0, 0)
    b.set_weight(wb, j, 0, 0)
    h = H()
    h.set("spill", i)
    c = a * b
    same = i == j
    exp = ctx.const(wa) * (wb if same else 1.0)
    order = ctx.choice([(0, 1), (1, 0)])
    if how == "select_first":
        H.set_weight_context(a)
        for k in order:
            if k == 0:
                del a
            else:
                del b, c
        ctx.eq("selected table outlives its name", h.get("global_weight"), wa)
        g = H.get_weight_context()
        H.set_weight_context(W())
        ctx.eq("the fetched table outlives the selection", g.get_weight(i, 0, 0), wa)
        ctx.eq("the new one is in force", h.get("global_weight"), 1.0)
        del g
        ctx.eq("still in force", h.get("global_weight"), 1.0)
    elif how == "select_second":
        H.set_weight_context(a)
        H.set_weight_context(b)
        H.set_weight_context(b)
        del b
        ctx.eq("selected table", h.get("global_weight"), wb if same else 1.0)
        H.set_weight_context(a)
        del a
        ctx.eq("selected again", h.get("global_weight"), wa)
        H.set_weight_context(H.get_weight_context())
        ctx.eq("selecting the selected one", h.get("global_weight"), wa)
    elif how == "result":
        del a, b
        ctx.eq("the result outlives its operands", c.get_weight(i, 0, 0), exp)
        d = ~(c + 1.0 - c)
        H.set_weight_context(c)
        del c
        ctx.eq("result selected", h.get("global_weight"), exp)
        del d
        ctx.eq("result still selected", h.get("global_weight"), exp)
    else:
        H.set_weight_context(c)
        x = [a, b, c]
        a = b = c = None
        while x:
            x.pop(ctx.choice(range(len(x))))
        ctx.eq("selected result", h.get("global_weight"), exp)
    H.set_weight_context(W())
    ctx.eq("at the end", h.get("global_weight"), 1.0)


# ------------------------------------------------------------------------------------------ wrong arguments
def world(ctx):
    H, B, W = mods()
    wc = W()
    H.set_weight_context(wc)
    hs, bc = [H(), H()], B()
    for k, h in enumerate(hs):
        h.set("x", ctx.real("x%d" % k, -100, 100))
        h.set("event_number", k)
        h.set("local_weight", ctx.real("l%d" % k, 0.5, 10))
        h.set("global_weight", ctx.real("g%d" % k, 0.5, 10))
        bc.set_item(h, k)
    wc.set_default_weight(ctx.real("d", 0.5, 10))
    return H, B, W, wc, hs, bc


def snapshot(w):
    H, B, W, wc, hs, bc = w
    out = [bc.length(), wc.get_default_weight()]
    for i, h in enumerate(hs):
        out += [h.get(v) for v in H.get_variables()]
        out += [bc.get_item(i) == h if i < bc.length() else None, wc.get_weight(0, i, 0)]
    c = H.get_weight_context()
    out.append(c == wc)
    return out


import operator
CALLS = {
    "Hitcore.get": (lambda w: w[4][0].get, ["x"]),
    "Hitcore.get_global": (lambda w: w[4][0].get, ["global_weight"]),
    "Hitcore.set": (lambda w: w[4][0].set, ["x", 2.0]),
    "Hitcore.set_int": (lambda w: w[4][0].set, ["pid", 2]),
    "Hitcore.set_weight_context": (lambda w: w[0].set_weight_context, ["wc"]),
    "Hitcore.get_weight_context": (lambda w: w[0].get_weight_context, []),
    "Hitcore.get_variables": (lambda w: w[0].get_variables, []),
    "Hitcore.set_variables": (lambda w: w[0].set_variables, []),
    "Hitcore.dump_memory": (lambda w: w[0].dump_memory, []),
    "Hitcore.eq": (lambda w: lambda a: (w[4][0] == a, w[4][0] != a), ["hit"]),
    "Bunchcore.set_item": (lambda w: w[5].set_item, ["hit", 1]),
    "Bunchcore.get_item": (lambda w: w[5].get_item, [1]),
    "Bunchcore.del_item": (lambda w: w[5].del_item, [1]),
    "Bunchcore.length": (lambda w: w[5].length, []),
    "Bunchcore.moment": (lambda w: w[5].moment, [["energy", "energy"], {"energy": 0.5}]),
    "Bunchcore.covariance_matrix": (lambda w: w[5].covariance_matrix, [["energy", "px"], {"energy": 0.5}]),
    "Bunchcore.cut_double": (lambda w: w[5].cut_double, ["x", operator.gt, 0.0, False]),
    "Bunchcore.moment_tensor": (lambda w: w[5].moment_tensor, [["energy", "px"], 2]),
    "Bunchcore.index_by_power": (lambda w: w[5].index_by_power, [2, 2]),
    "WeightContext.get_weight": (lambda w: w[3].get_weight, [0, 1, 0]),
    "WeightContext.set_weight": (lambda w: w[3].set_weight, [2.0, 0, 1, 0]),
    "WeightContext.set_default_weight": (lambda w: w[3].set_default_weight, [2.0]),
    "WeightContext.add": (lambda w: lambda a: w[3] + a, ["wc"]),
    "WeightContext.mul": (lambda w: lambda a: w[3] * a, [2.0]),
    "WeightContext.sub": (lambda w: lambda a: w[3] - a, ["wc"]),
    "WeightContext.div": (lambda w: lambda a: w[3] / a, [2.0]),
    "WeightContext.not": (lambda w: lambda: ~w[3], []),
}
WRONG = [None, "no such", b"x", 1.5, [], {}, [1], ["no such"], {"x": "y"}, {1: 1.0}, -1, 10 ** 30, "obj", "newhit"]


def real_arg(w, a):
    if a == "hit" and isinstance(a, str):
        return w[4][1]
    if a == "wc" and isinstance(a, str):
        return w[3]
    if a == "obj" and isinstance(a, str):
        return object()
    if a == "newhit" and isinstance(a, str):
        return w[0].__new__(w[0])
    return a


@R.each(sorted(CALLS))
def wrong_argument(ctx, name):
    """A call with a wrong argument raises an ordinary exception and changes nothing, or is accepted without harm."""
    w = world(ctx)
    f, args = CALLS[name]
    args = list(args)
    opts = [("n", k) for k in range(len(args) + 2) if k != len(args)] + [(i, k) for i in range(len(args)) for k in range(len(WRONG))]
    i, k = ctx.choice(opts)
    if i == "n":
        args = (args + [1.0])[:k]
    else:
        args[i] = WRONG[k]
    before = snapshot(w)
    got, e = ctx.outcome(f(w), *[real_arg(w, a) for a in args])
    if got == "raise":
        ctx.check("an ordinary exception", not isinstance(e, SystemError))
        after = snapshot(w)
        ctx.eqs("state after a refused call", after, before)
    else:
        ctx.eq("the hit is still there", w[4][0].get("event_number"), 0)
    del e, got
    w[3].set_weight(2.0, 0, 0, 0)
    ctx.eq("the weight table works", w[4][0].get("global_weight") if w[0].get_weight_context() == w[3] else 2.0, 2.0)


def fresh(a):
    """An equal argument that no one else holds."""
    if a.__class__ is float:
        return a + 0.0
    if a.__class__ is str:
        return "".join(list(a))
    if a.__class__ is list:
        return [fresh(x) for x in a]
    if a.__class__ is dict:
        return {fresh(k): fresh(v) for k, v in a.items()}
    return a


@R.each(sorted(CALLS))
def leaks(ctx, name):
    """Repeating a call that succeeds does not use up memory."""
    w = world(ctx)
    f, args = CALLS[name]
    args = [real_arg(w, a) for a in args]
    g = f(w)
    if name.endswith("del_item"):
        g = lambda i: (w[5].set_item(w[4][0], 1), w[5].del_item(i))
    ctx.no_leak("memory of repeated calls", lambda: g(*[fresh(a) for a in args]))


@R.each(["objects", "bunch", "contexts", "select", "shared", "refused", "hit"])
def cycles(ctx, what):
    """Making, using and dropping objects gives the memory back."""
    H, B, W = mods()
    x = ctx.real("x", -10, 10)

    def bunch():
        b = B()
        for k in range(3):
            h = H()
            h.set("x", x)
            b.set_item(h, k)
        b.moment(["x"], {"x": 0.0})
        b.del_item(1)

    def shared():
        a, b, h = B(), B(), H()
        a.set_item(h, 0)
        b.set_item(h, 1)
        b.set_item(a.get_item(0), 0)
        del h, a
        b.get_item(1).set("x", x)

    def contexts():
        a, b = W(), W()
        a.set_weight(x, 1, 2, 3)
        c = ~((a + b) * a - b / 2.0)
        a = c + 1.0

    def select():
        a = W()
        H.set_weight_context(a)
        a = H.get_weight_context()
        H.set_weight_context(a)
        H.set_weight_context(W())

    def refused():
        a, h, c = B(), H(), W()
        for f in (lambda: a.set_item(None, 0), lambda: a.set_item(h, None), lambda: a.get_item(3), lambda: a.moment(["no such"], {}), lambda: a.moment(None, {}),
                  lambda: a.moment(["px"], {"px": 1}), lambda: a.covariance_matrix(["px"], None), lambda: h.set("q", 1.0), lambda: h.get("q"),
                  lambda: h.set("x", None), lambda: c.set_weight("a"), lambda: c.get_weight(None), lambda: H.set_weight_context(None),
                  lambda: a.cut_double("q", operator.gt, 0.0, True), lambda: a.cut_double("x", None, 0.0, True)):
            ctx.outcome(f)

    def hit():
        h = Hit()()
        h.set("x", x)
        b = Bunch()()
        b.append(h)
        b.append(h)
        b.bunch_weight()
    def objects():
        H(), B(), W(), H.__new__(H), B.__new__(B)
    ctx.no_leak("memory of a cycle", locals()[what])


@R.each(["raise", "none", "number", "text", "drop_this", "drop_all", "grow", "clear", "reselect"])
def comparator(ctx, what):
    """A comparison that fails, or that changes the bunch while it is being cut, does no harm."""
    H, B, W, wc, hs, bc = w = world(ctx)
    del w
    n = [0]
    seen = []

    def f(a, b):
        n[0] += 1
        seen.append(a)
        if what == "raise":
            raise RuntimeError("no")
        if what == "none":
            return None
        if what == "number":
            return 3
        if what == "text":
            return "yes"
        if what in ("drop_this", "drop_all"):
            hs[:] = []
            for k in range(bc.length() if what == "drop_all" else min(1, bc.length())):
                bc.del_item(0)
            return True
        if what == "grow":
            if n[0] == 1:
                for k in range(3):
                    bc.set_item(H(), 2 + 40 * k)
            return True
        if what == "clear":
            H.clear_global_weights()
            return True
        if what == "reselect":
            H.set_weight_context(W())
            return True
    glob = ctx.bool()
    o, r = ctx.outcome(bc.cut_double, "x", f, 0.0, glob)
    if o == "raise":
        ctx.check("an ordinary exception", not isinstance(r, SystemError))
    del r
    if what == "raise":
        ctx.check("the failure is reported", o == "raise")
        ctx.eq("weights kept", hs[0].get("local_weight"), bc.get_item(0).get("local_weight"))
    h = H()
    v = ctx.real("v", -10, 10)
    h.set("x", v)
    k = bc.length()
    bc.set_item(h, k)
    ctx.eq("the bunch works", bc.get_item(k).get("x"), v)


@R.each(["same", "tensor", "self"])
def odd_uses(ctx, what):
    """Records made without __init__, used again after __init__, and put in twice."""
    H, B, W = mods()
    h, b = H.__new__(H), B.__new__(B)
    v = ctx.real("v", -10, 10)
    for f in (lambda: h.get("x"), lambda: h.set("x", v), lambda: b.length(), lambda: b.get_item(0), lambda: b.set_item(h, 0), lambda: b.del_item(0),
              lambda: b.moment(["x"], {"x": 0.0}), lambda: b.covariance_matrix(["x"], {}), lambda: b.moment_tensor(["x"], 1),
              lambda: b.cut_double("x", operator.gt, 0.0, True)):
        ctx.raises("an object without __init__ refuses", f)
    b.__init__()
    b.set_item(h, 0)
    ctx.check("an empty record is nothing", b.get_item(0) is None)
    h.__init__()
    ctx.check("the slot stays empty", b.get_item(0) is None)
    h.set("x", v)
    if what == "same":
        for k in range(3):
            b.set_item(h, k)
        b.set_item(b.get_item(1), 1)
        del h
        ctx.eq("record held three times", b.get_item(2).get("x"), v)
    elif what == "tensor":
        b.set_item(h, 2)
        ctx.eq("empty slots count for nothing", b.moment_tensor(["x"], 1)[1], v)
        ctx.eq("moment", b.moment(["x"], {"x": 0.0}), v)
    else:
        ctx.check("a record equals itself only", h == h and not h != h and not h == H() and h != H() and not h == 1 and not h == None)
        ctx.raises("no order", lambda: h < h)
    b.__init__()
    ctx.check("a second __init__ keeps the bunch", b.length() >= 1)
