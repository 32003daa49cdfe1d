"""C16: parallel lists, ranges and tables."""
from engine.harness import Registry
from props.lib import *
from props.C06 import fresh
R = Registry("C16")
R.bounds = {"multisort": "1-4 rows of up to 3 columns (thorough: 5 rows), all reals, ties included", "min_max": "1-3 points, all reals, all weights zero or above 0.001, all margins, all overrides",
            "list_get": "1-3 bunches of one or two hits"}
R.assumptions = ["exact real arithmetic", "weights are zero or at least 0.001 (the helper calls anything near zero weightless)", "rows are numbers"]
L = 1000


def _sort(ctx, n, m):
    """The first column is in order and row tags show that rows kept together."""
    cols = [[ctx.real("c%d_%d" % (j, i), -L, L) for i in range(n)] for j in range(m)]
    data = [list(c) for c in cols] + [list(range(n))]
    out = Common().multisort(data)
    ctx.check("columns", len(out) == m + 1)
    tags = [int(t) for t in out[m]]
    ctx.check("every row once", sorted(tags) == list(range(n)))
    for i in range(n - 1):
        ctx.check("in order %d" % i, out[0][i] <= out[0][i + 1])
    for j in range(m):
        ctx.check("rows %d" % j, len(out[j]) == n)
        for i in range(n):
            ctx.eq("row together %d,%d" % (j, i), out[j][i], cols[j][tags[i]], exact=True)
    ctx.check("sorted in place", all(a is b for a, b in zip(out, data)))
    for i in range(n - 1):
        if out[0][i] == out[0][i + 1]:
            ctx.check("equal rows keep their order", tags[i] < tags[i + 1])


@R.each(prod([1, 2, 3, 4], [1, 2]) + [(2, 3), (3, 3)])
def multisort(ctx, n, m):
    """Parallel lists come out ordered by the first, rows intact."""
    _sort(ctx, n, m)


@R.each([(5, 2)], tier="thorough", max_paths=5000, budget=300)
def multisort_more(ctx, n, m):
    _sort(ctx, n, m)


@R.each(prod([1, 2, 3], ["none", "all", "other"], ["default", "margin", "zero"]) + [(0, "none", "default")])
def min_max(ctx, n, weights, margin):
    """The range of the points that carry weight, widened by the margin; arguments are left alone."""
    xs = [ctx.real("x%d" % i, -L, L) for i in range(n)]
    kw, mg = {}, 0.1
    if weights == "all":
        ws = [ctx.real("w%d" % i, 0, L) for i in range(n)]
        for w in ws:
            ctx.assume(w == 0 or w >= 0.001)
    elif weights == "other":
        ws = [ctx.real("w%d" % i, 0.5, L) for i in range(n + 1 - 2 * (n == 3))]
    else:
        ws = []
    if ws:
        kw["weight_list"] = list(ws)
    if margin == "margin":
        mg = kw["margin"] = ctx.real("margin", 0, 10)
    elif margin == "zero":
        mg = kw["margin"] = 0.0
    a = list(xs)
    lo, hi = Common().min_max(a, **kw)
    ctx.check("list left alone", len(a) == n)
    ctx.eqs("points left alone", a[:n], xs)
    if ws:
        ctx.check("weight list left alone", len(kw["weight_list"]) == len(ws))
        ctx.eqs("weights left alone", kw["weight_list"], ws)
    use = [x for i, x in enumerate(xs) if weights != "all" or ws[i] > 0]
    if not use:
        ctx.reach("none")
        ctx.check("still a range", lo < hi)
        return
    ctx.reach("some")
    mn, mx = min(use), max(use)
    c = ctx.const
    d = c(mx) - mn
    if d >= 1e-6:
        ctx.eq("minimum", lo, c(mn) - d * mg)
        ctx.eq("maximum", hi, c(mx) + d * mg)
    else:
        ctx.check("contains the points", lo <= mn and hi >= mx)
        ctx.check("not empty", lo < hi)


@R.each(prod([1, 2], [False, True], [False, True], [False, True]))
def override(ctx, n, lo, hi, weighted):
    """A given minimum or maximum is used as it is and does not change the other end."""
    xs = [ctx.real("x%d" % i, -L, L) for i in range(n)]
    kw = {}
    if weighted:
        kw["weight_list"] = [ctx.real("w%d" % i, 0.5, L) for i in range(n)]
    base = Common().min_max(list(xs), **kw)
    a = ctx.real("xmin", -L, L) if lo else None
    b = ctx.real("xmax", -L, L) if hi else None
    got = Common().min_max(list(xs), xmin=a, xmax=b, **kw)
    ctx.eq("minimum", got[0], a if lo else base[0])
    ctx.eq("maximum", got[1], b if hi else base[1])


UNIT = {"": 1.0, "m": 1000.0, "cm": 10.0, "mm": 1.0, "GeV/c": 1000.0}


@R.each(prod([1, 2, 3], [True, False]))
def hit_table(ctx, n, units):
    """A table of hit variables has one row per hit, in bunch order, in the requested units."""
    fresh()
    hs, st = zip(*[mk(ctx, "h%d" % i, ["x", "px"], event_number=i + 1) for i in range(n)])
    b = Bunch().new_from_hits(list(hs))
    us = ["cm", "GeV/c", "", ""]
    vs = ["x", "px", "event_number", "x"]
    got = b.list_get_hit_variable(vs, us) if units else b.list_get_hit_variable(vs)
    ctx.check("columns", len(got) == 4 and all(len(g) == n for g in got))
    for j, (v, u) in enumerate(zip(vs, us)):
        for i in range(n):
            ctx.eq("%d %s of hit %d" % (j, v, i), ctx.const(got[j][i]) * (UNIT[u] if units else 1.0), st[i].get(v, i + 1))
    for i in range(n):
        same(ctx, "hit %d" % i, hs[i], st[i])


@R.each([1, 2, 3])
def bunch_table(ctx, n):
    """A table of bunch quantities is ordered by the first and keeps the rows of the bunches together."""
    fresh()
    bs, st = {}, []
    for i in range(n):
        h, s = mk(ctx, "h%d" % i, ["x", "z", "px"], event_number=i + 1)
        st.append(s)
        bs["b%d" % (5 - i)] = Bunch().new_from_hits([h])
    got = Bunch().list_get(bs, ["mean", "mean", "bunch_weight", "mean"], [["z"], ["x"], [], ["px", "x"]])
    ctx.check("columns", len(got) == 4 and all(len(g) == n for g in got))
    used = []
    for i in range(n):
        if i:
            ctx.check("in order %d" % i, got[0][i - 1] <= got[0][i])
        ctx.eq("weight %d" % i, got[2][i], 1.0)
        # the row is that of one bunch, a different one each time
        k = [j for j in range(n) if j not in used and got[0][i] == st[j]["z"] and got[1][i] == st[j]["x"] and got[3][i] == st[j]["px"]]
        ctx.check("row %d belongs to a bunch" % i, len(k) > 0)
        used += k[:1]
