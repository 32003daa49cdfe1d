"""C12: copies, dictionaries, pickles and equality of hits and bunches."""
import copy
import pickle
from engine.harness import Registry
from props.lib import *
from props.C06 import fresh
R = Registry("C12")
R.bounds = {"hits": "one to three; every stored variable any real in +-10^6 or any 32-bit integer", "weights": "any local and global weight of up to three particles, coinciding or not", "tolerances": "the default and any in [0, 10]"}
R.assumptions = ["pickling is that of Python itself (the pickle holds references to the symbolic values, restored in the same run)"]
ALL = DBL + INT
KEY = ["spill", "event_number", "particle_number"]


def deep(h):
    return h.deepcopy()


def by_dict(h):
    return Hit().new_from_dict(h.dict_from_hit())


def by_pickle(h):
    return pickle.loads(pickle.dumps(h))


def by_pickle2(h):
    return pickle.loads(pickle.dumps(h, 2))


def by_list(h):
    return Bunch().new_from_hits([h])[0]


def by_bunch(h):
    b = Bunch()()
    b.append(h)
    return b.deepcopy()[0]


def by_copied_bunch(h):
    b = Bunch()()
    b.append(h)
    return copy.deepcopy(b)[0]


WAYS = {"deepcopy": deep, "copy.deepcopy": copy.deepcopy, "dict": by_dict, "pickle": by_pickle, "pickle protocol 2": by_pickle2, "list": by_list, "bunch": by_bunch, "copied bunch": by_copied_bunch}


def weighted(ctx, nm):
    h, st = full_hit(ctx, nm)
    g = ctx.real(nm + "_global", -10, 10)
    h.set("global_weight", g)
    st["global_weight"] = g
    return h, st


@R.each(sorted(WAYS))
def faithful(ctx, way):
    """The copy has every stored variable of the original, which keeps its own; no other particle's weight changes."""
    c = fresh()
    f = WAYS[way]
    h, st = weighted(ctx, "h")
    o, so = mk(ctx, "other", KEY)
    differs = ctx.choice(KEY)
    ctx.assume(so[differs] != st[differs])
    g = ctx.real("other_global", -10, 10)
    o.set("global_weight", g)
    so["global_weight"] = g
    k = f(h)
    ctx.check("another object", k is not h)
    ctx.check("of the same type", type(k) is type(h))
    same(ctx, "copy", k, st)
    same(ctx, "original", h, st)
    same(ctx, "another particle", o, so)
    ctx.check("equal", k == h)


@R.each(prod(sorted(WAYS), [0, 1]))
def unweighted(ctx, way, at_zero):
    """Copying a hit does not give a weight to a particle that had none (the default remains)."""
    c = fresh()
    h, st = weighted(ctx, "h")
    z = Hit()()
    if not at_zero:
        z.set("spill", 7)
    ctx.assume((st["spill"] != z.get("spill")) | (st["event_number"] != 0) | (st["particle_number"] != 0))
    WAYS[way](h)
    ctx.eq("weight of a particle without one", z.get("global_weight"), 1.0)


@R.each(prod(sorted(WAYS), ["copy", "original"]))
def independent(ctx, way, changed):
    """Writing every variable of one leaves the other alone."""
    fresh()
    h, st = full_hit(ctx, "h")
    k = WAYS[way](h)
    a, b = (k, h) if changed == "copy" else (h, k)
    new = {}
    for i, v in enumerate(ALL):
        new[v] = ctx.int("n_" + v, -I32, I32 - 1) if v in INT else ctx.real("n_" + v, -BIG, BIG)
        a.set(v, new[v])
    same(ctx, "kept", b, st)
    same(ctx, "changed", a, new)


@R.each([1, 2, 3])
def dictionary(ctx, n):
    """The dictionary names exactly the variables of a hit, and is not connected to it."""
    fresh()
    h, st = weighted(ctx, "h")
    d = h.dict_from_hit()
    for v, x in st.items():
        ctx.eq("dictionary", d[v], x)
        if v in ALIAS:
            ctx.eq("alias", d[ALIAS[v]], x)
    ctx.check("only variables of a hit", set(d) == set(st) | set(ALIAS.values()))
    if n == 2:
        for v in list(d):
            d[v] = 0.0 if v not in INT else 0
        same(ctx, "hit", h, st)
    if n == 3:
        h.set("x", 5.0)
        ctx.eq("dictionary kept", d["x"], st["x"])


@R.case()
def from_some(ctx):
    """A hit made from a dictionary has the given values, and those of a new hit elsewhere."""
    fresh()
    d = {"y": ctx.real("y", -BIG, BIG), "pid": ctx.int("pid", -I32, I32 - 1), "global_weight": ctx.real("g", -10, 10), "spill": ctx.int("spill", -I32, I32 - 1), "event_number": ctx.int("ev", -I32, I32 - 1)}
    ref = dict(d)
    h = Hit().new_from_dict(d)
    n = Hit()()
    st = {v: n.get(v) for v in ALL}
    st.update(ref)
    same(ctx, "hit", h, st)
    ctx.check("argument", list(d) == list(ref) and all(d[v] is ref[v] for v in ref))
    ctx.raises("unknown name", lambda: Hit().new_from_dict({"nope": 1.0}))


TOL = 1e-9


@R.each(ALL)
def equality(ctx, v):
    """Hits that differ in one variable are equal exactly when the difference is within the tolerance."""
    fresh()
    h, st = full_hit(ctx, "h")
    k = h.deepcopy()
    y = ctx.int("k_" + v, -I32, I32 - 1) if v in INT else ctx.real("k_" + v, -BIG, BIG)
    k.set(v, y)
    d = ctx.const(st[v]) - y
    tol = ctx.choice(["default", "given"])
    if tol == "given":
        t = ctx.real("tol", 0, 10)
        got = h.__eq__(k, t)
        ctx.check("not equal is the opposite", h.__ne__(k, t) is (not got))
    else:
        t = Common().float_tolerance
        got = h == k
        ctx.check("not equal is the opposite", (h != k) is (not got))
        ctx.check("symmetric", (k == h) is got)
    if got:
        ctx.check("equal", (d <= t) & (d >= -ctx.const(t)) if hasattr(d, "n") else abs(d) <= t * (1 + 1e-6) + 1e-12)
    else:
        ctx.check("different", (d > t) | (d < -ctx.const(t)) if hasattr(d, "n") else abs(d) > t * (1 - 1e-6) - 1e-12)


@R.case()
def global_weight_equality(ctx):
    """Hits that differ only in the global weight (of different particles) are different; hits are not equal to other things."""
    fresh()
    h, st = full_hit(ctx, "h", ints=False)
    k = h.deepcopy()
    ctx.check("equal", h == k)
    for other in (None, 1, "hit", {}, [h]):
        ctx.check("other type", not (h == other) and h != other)
    ctx.check("shallow copies are the hit itself", h.copy() is h and copy.copy(h) is h)
    k.set("spill", 3)
    k.set("global_weight", 5.0)
    k2 = h.deepcopy()
    ctx.check("other particle", h != k)
    ctx.check("still equal", h == k2)


def bunch(ctx, n, nm="b", vars=("x", "px", "pid", "local_weight")):
    b, sts = Bunch()(), []
    for i in range(n):
        h, st = mk(ctx, "%s%d" % (nm, i), list(vars), event_number=i)
        b.append(h)
        sts.append(st)
    return b, sts


@R.each(prod([0, 1, 2, 3], ["list", "deepcopy", "copy.deepcopy"]))
def bunch_copies(ctx, n, way):
    """A copied bunch has equal hits in the same order, in both layers, and is independent of the original."""
    fresh()
    b, sts = bunch(ctx, n)
    lst = list(b)
    k = Bunch().new_from_hits(lst) if way == "list" else b.deepcopy() if way == "deepcopy" else copy.deepcopy(b)
    ctx.check("list kept", len(lst) == n and all(lst[i] is b[i] for i in range(n)))
    ctx.check("length", len(k) == n and k._Bunch__bunchcore.length() == n)
    ctx.check("equal", k == b and not (k != b))
    for i in range(n):
        ctx.check("own hits", k[i] is not b[i])
        same(ctx, "copy %d" % i, k[i], sts[i])
        ctx.eq("core %d" % i, k._Bunch__bunchcore.get_item(i).get("x"), sts[i]["x"])
    for i in range(n):
        k[i].set("x", ctx.real("new%d" % i, -10, 10))
    k.append(Hit()())
    for i in range(n):
        same(ctx, "original %d" % i, b[i], sts[i])
    ctx.check("original length", len(b) == n and b._Bunch__bunchcore.length() == n)
    if n:
        k2 = b.deepcopy()
        b[0].set("x", 77.0)
        same(ctx, "copy keeps", k2[0], sts[0])
    ctx.check("the bunch itself", b.copy() is b and copy.copy(b) is b)


@R.each(["given", "calculated", "switched off"])
def internal_matrix(ctx, how):
    """A copied bunch keeps an internal covariance matrix and means of its own."""
    fresh()
    b, sts = bunch(ctx, 1, "b", ["x", "px"])
    m = [[1.0 if i == j else 0.0 for j in range(10)] for i in range(10)]
    a = ctx.real("a", 1, 10)
    m[0][0] = a
    M = ctx.np.matrix(m)
    mu = {"x": ctx.real("mu", -10, 10)}
    b.set_covariance_matrix(True, M, mu)
    if how == "switched off":
        b.set_covariance_matrix(False)
        k = b.deepcopy()
        ctx.check("nothing set", not k.covariances_set() and not k.means_set())
        return
    k = b.deepcopy() if how == "given" else copy.deepcopy(b)
    ctx.check("equal", k == b)
    ctx.check("set", k.covariances_set() and k.means_set())
    ctx.eq("matrix", k.moment(["x", "x"]), a)
    ctx.eq("mean", k.mean(["x"])["x"], mu["x"])
    was = mu["x"]
    M[0, 0] = 100.0
    mu["x"] = 100.0
    ctx.eq("own matrix", k.moment(["x", "x"]), a)
    ctx.eq("own mean", k.mean(["x"])["x"], was)


@R.each(prod([0, 1, 2], [0, 1, 2]))
def bunch_equality(ctx, n, m):
    """Bunches are equal exactly when they have the same number of hits and those at the same place are equal."""
    fresh()
    b, s = bunch(ctx, n, "b", ["x", "pid"])
    c, t = bunch(ctx, m, "c", ["x", "pid"])
    got = b == c
    ctx.check("not equal is the opposite", (b != c) is (not got))
    ctx.check("symmetric", (c == b) is got)
    ctx.check("hit equality", bool(b.hit_equality(c)) is got)
    want = n == m
    if want:
        for i in range(n):
            for v in s[i]:
                d = ctx.const(s[i][v]) - t[i][v]
                want = want and bool((d <= TOL) & (d >= -TOL) if hasattr(d, "n") else abs(d) <= TOL)
    ctx.check("equality", got is want)


@R.each(["none and set", "matrix", "means", "more means", "same"])
def bunch_equality_internal(ctx, how):
    """Internal covariance matrices and means take part in the comparison, and do not hide different hits."""
    fresh()
    b, s = bunch(ctx, 1, "b")
    c = b.deepcopy()
    ctx.check("equal", b == c)

    def M(a):
        m = [[1.0 if i == j else 0.0 for j in range(10)] for i in range(10)]
        m[0][0] = a
        return ctx.np.matrix(m)
    a, a2 = ctx.real("a", 1, 10), ctx.real("a2", 1, 10)
    mu, mu2 = ctx.real("mu", -10, 10), ctx.real("mu2", -10, 10)
    b.set_covariance_matrix(True, M(a), {"x": mu})
    if how == "none and set":
        ctx.check("different", b != c and c != b)
        return
    c.set_covariance_matrix(True, M(a2 if how == "matrix" else a), {"x": mu2 if how == "means" else mu, **({"y": 1.0} if how == "more means" else {})})
    got = b == c
    ctx.check("symmetric", (c == b) is got)
    if how == "matrix":
        ctx.check("matrix", got is bool(ctx.const(a) == a2))
    elif how == "means":
        d = ctx.const(mu) - mu2
        ctx.check("means", got is bool((d <= TOL) & (d >= -TOL) if hasattr(d, "n") else abs(d) <= TOL))
    elif how == "more means":
        ctx.check("means", not got)
    else:
        ctx.check("same", got)
        x = ctx.real("nx", -1000, 1000)
        d = ctx.const(x) - s[0]["x"]
        ctx.assume((d > 0.001) | (d < -0.001))
        c[0].set("x", x)
        ctx.check("different hits", b != c)


@R.each([1, 2])
def hit_equality_tolerance(ctx, n):
    fresh()
    b, s = bunch(ctx, n, "b")
    c = b.deepcopy()
    t = ctx.real("tol", 0, 10)
    x = ctx.real("nx", -1000, 1000)
    c[n - 1].set("x", x)
    d = ctx.const(x) - s[n - 1]["x"]
    got = b.hit_equality(c, t)
    ctx.check("equality of the hits", got is b.__eq__(c, t))
    if got:
        ctx.check("equal", (d <= t) & (d >= -ctx.const(t)) if hasattr(d, "n") else abs(d) <= t * (1 + 1e-6) + 1e-12)
    else:
        ctx.check("different", (d > t) | (d < -ctx.const(t)) if hasattr(d, "n") else abs(d) > t * (1 - 1e-6) - 1e-12)
