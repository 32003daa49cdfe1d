"""C01: a hit record returns exactly what was stored and nothing else moves."""
from engine.harness import Registry
from props.lib import *
R = Registry("C01")
R.bounds = {"state before a write": "every stored variable of two hits: all reals in +-1e6, all 32-bit integers", "writes": "one from an arbitrary state (inductive step), two in the thorough tier",
            "names": "every name of the tables, listed unknown names", "values of the wrong kind": "None, text, list, object, complex, non-integer reals, integers up to 2^70"}
R.assumptions = ["the state of a hit is what its variables read, so one write from an arbitrary state stands for any history"]
NAMES = DBL + INT + list(ALIAS.values())


def canonical(v):
    return {b: a for a, b in ALIAS.items()}.get(v, v)


@R.case()
def defaults(ctx):
    """A new hit is all zero, except the local weight which is one."""
    h = Hit()()
    for v in DBL + INT + list(ALIAS.values()):
        ctx.eq("new hit: " + v, h.get(v), 1.0 if v == "local_weight" else 0)
    for v in Hit().get_variables():
        st, r = ctx.outcome(h.get, v)
        ctx.check("every listed variable can be read or fails with division by zero: " + v, st == "ok" or isinstance(r, ZeroDivisionError))
    for v in DBL + INT + list(ALIAS.values()) + ["global_weight"]:
        ctx.check("listed for reading: " + v, v in list(Hit().get_variables()) or v in ALIAS.values())
        ctx.check("listed for writing: " + v, v in list(Hit().set_variables()))


@R.each(NAMES)
def write(ctx, v):
    """From any state of two hits, writing v of one changes v of that hit only."""
    h, sh = full_hit(ctx, "h")
    g, sg = full_hit(ctx, "g")
    same(ctx, "stored", h, sh)
    w = ctx.int("w", -I32, I32 - 1) if canonical(v) in INT else ctx.real("w", -BIG, BIG)
    how = ctx.choice(["set", "item"])
    if how == "set":
        h.set(v, w)
    else:
        h[v] = w
    sh[canonical(v)] = w
    same(ctx, "after the write", h, sh)
    same(ctx, "the other hit", g, sg)
    for a, b in ALIAS.items():
        ctx.eq("alias " + b, h.get(b), sh[a])
        ctx.eq("alias by item " + b, h[b], sh[a])
    ctx.eq("by item", h[v], w)
    ctx.reach("end")


@R.each(NAMES, tier="thorough")
def write2(ctx, v):
    h, sh = full_hit(ctx, "h")
    g, sg = full_hit(ctx, "g")
    for k in range(2):
        n = v if k == 0 else ctx.choice(NAMES)
        w = ctx.int("w%d" % k, -I32, I32 - 1) if canonical(n) in INT else ctx.real("w%d" % k, -BIG, BIG)
        t, st = (h, sh) if k == 0 or ctx.bool() else (g, sg)
        t.set(n, w)
        st[canonical(n)] = w
    same(ctx, "after the writes", h, sh)
    same(ctx, "the other hit", g, sg)


@R.each(["x", "mass", "local_weight", "charge"])
def integers(ctx, v):
    """An integer given for a real variable keeps its value."""
    h = Hit()()
    i = ctx.int("i", -2 ** 50, 2 ** 50)
    h.set(v, i)
    ctx.eq("integer stored in a real variable", h.get(v), i)


UNKNOWN = ["nosuch", "X", "x ", " x", "event", "particle", "px'", "y_", "Spill", "tot", "spill_number"]


@R.each(UNKNOWN)
def unknown(ctx, name):
    h, sh = full_hit(ctx, "h")
    w = ctx.real("w", -BIG, BIG)
    i = ctx.int("i", -I32, I32 - 1)
    ctx.raises("reading an unknown name is refused", lambda: h.get(name))
    ctx.raises("writing an unknown name is refused", lambda: h.set(name, w))
    ctx.raises("writing an integer to an unknown name is refused", lambda: h.set(name, i))
    ctx.raises("item access of an unknown name is refused", lambda: h[name])
    same(ctx, "after the refusal", h, sh)


READ_ONLY = ["r", "phi", "pt", "pphi", "r'", "spin", "weight", "r_squared", "z'", "l_kin"]


@R.each(READ_ONLY)
def read_only(ctx, name):
    h, sh = full_hit(ctx, "h")
    w = ctx.real("w", -BIG, BIG)
    ctx.raises("writing a variable that cannot be written is refused", lambda: h.set(name, w))
    same(ctx, "after the refusal", h, sh)


BAD = {"none": None, "text": "abc", "digits": "12", "number": "1.5e3", "empty": "", "bytes": b"7", "tuple": (1.0,), "dict": {}, "list": [1.0], "object": object(), "complex": 1 + 2j}


@R.each(["x", "energy", "local_weight", "e_dep", "spill", "pid", "eventNumber", "station", "global_weight", "p", "x'"])
def wrong_kind(ctx, v):
    k = ctx.choice(list(BAD))
    h, sh = full_hit(ctx, "h")
    ctx.raises("a value that is not a number is refused", lambda: h.set(v, BAD[k]))
    same(ctx, "after the refusal", h, sh)
    ctx.raises("a value that is not a number is refused as an item", lambda: h.__setitem__(v, BAD[k]))
    same(ctx, "after the refusal", h, sh)
    ctx.raises("the core refuses it too", lambda: core(h).set(v, BAD[k]))
    same(ctx, "after the refusal by the core", h, sh)


def core(h):
    return h._Hit__hitcore


@R.each(INT + list(ALIAS.values()))
def wide(ctx, v):
    """Whatever number is written to an integer variable, it is stored as it is or refused without effect."""
    h, sh = full_hit(ctx, "h")
    kind = ctx.choice(["int", "real", "huge"])
    w = ctx.int("w", -2 ** 63, 2 ** 63 - 1) if kind == "int" else ctx.real("u", -BIG, BIG) if kind == "real" else ctx.choice([2 ** 70, -2 ** 70, 2 ** 64, 2 ** 63, 2 ** 63 + 5])
    st, r = ctx.outcome(lambda: h.set(v, w))
    if st == "ok":
        sh[canonical(v)] = w
        ctx.reach("accepted")
    else:
        ctx.reach("refused")
    same(ctx, "after the call", h, sh)


@R.each(["x", "mass"])
def wide_real(ctx, v):
    h, sh = full_hit(ctx, "h")
    w = ctx.choice([10 ** 400, -10 ** 400])
    st, r = ctx.outcome(lambda: h.set(v, w))
    ctx.check("an integer that does not fit a double is refused", st == "raise")
    same(ctx, "after the call", h, sh)
