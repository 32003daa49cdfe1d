"""C26: matrix tracking."""
from engine.harness import Registry
from props.lib import *
R = Registry("C26")
R.bounds = {"hits": "up to three, every stored variable symbolic in +-1e6 (coordinates in +-1000)", "maps": "up to three; each row of a matrix free in turn for one set of coordinates, the rows of x, y and t and the offsets free for all coordinates; entries in +-1000"}
R.assumptions = ["the energy and momenta after the map decide pz by the mass shell (C09); a required square of pz between 0 and 1e-6 may be treated as zero"]
U = ["x", "px", "y", "py", "t", "energy"]


def setup(sym):
    import xboa.tracking
    import xboa.tracking._matrix_tracking
R.setup = setup


def T():
    import xboa.tracking
    return xboa.tracking


def mat(ctx, rows):
    return ctx.np.matrix(rows)


def entries(ctx, nm, n, free):
    """A 6x6 matrix: 'all' entries free, or the rows named, the rest fixed."""
    rows = []
    for i in range(6):
        rows.append([ctx.real("%s_%d_%d" % (nm, i, j), -1000, 1000) if free == "all" or i in free else float((i * 3 + j * 5 + n) % 7) - 2.5 + (i == j) for j in range(6)])
    return rows


def offset(ctx, nm, free=True):
    return [ctx.real("%s_%d" % (nm, i), -1000, 1000) if free else float(i) - 1.5 for i in range(6)]


def hit(ctx, nm):
    h, st = full_hit(ctx, nm, lim=1000)
    return h, st


def image(ctx, st, m, vin, vout):
    c = ctx.const
    d = [c(st[k]) - vin[i] for i, k in enumerate(U)]
    return [sum((c(a) * b for a, b in zip(row, d)), c(0.0)) + vout[i] for i, row in enumerate(m)]


def tracked(ctx, label, out, st, want):
    """The output hit: the six coordinates mapped, pz on the mass shell and of the old sign, the rest as it was."""
    c = ctx.const
    for k, w in zip(U, want):
        ctx.eq("%s %s" % (label, k), out[k], w, scale=1e6)
    need = c(want[5]) * want[5] - c(st["mass"]) * st["mass"] - c(want[1]) * want[1] - c(want[3]) * want[3]
    pz = c(out["pz"])
    if need > 1e-3:
        ctx.reach("shell")
        ctx.eq(label + " pz squared", pz * pz, need, scale=1e12)
    elif need < 0:
        ctx.reach("no shell")
        ctx.eq(label + " pz", pz, 0.0)
    same(ctx, label, out, st, skip=U + ["pz"])


FIXED = {"x": 1.5, "px": -2.0, "y": 0.25, "py": 3.0, "t": -0.5, "energy": 250.0, "mass": 100.0, "pz": 3.0}


# rows with symbolic entries, maps, what is fixed besides: the coordinates, or the rows of px, py and energy
@R.each([((0, 2, 4), 1, "rows"), ((0,), 2, "rows"), ((), 3, "rows"), ((1,), 1, "hit"), ((3,), 2, "hit"), ((5,), 2, "hit"), ((5,), 1, "hit"), ((0, 1, 2, 4), 1, "hit")], budget=60)
def one(ctx, free, n, fix):
    """One hit through n maps: the input first, then the image under each map, each taken from the input."""
    if fix == "hit":
        h, st = mk(ctx, "h", [v for v in DBL + INT if v not in FIXED], 1000, **FIXED)
    else:
        h, st = hit(ctx, "h")
    ms = [entries(ctx, "m%d" % k, k, free if k == n - 1 else ()) for k in range(n)]
    vin, vout = offset(ctx, "vin"), [offset(ctx, "v%d" % k) for k in range(n)]
    if fix == "hit":
        vin, vout = offset(ctx, "vin", False), [offset(ctx, "v%d" % k, False) for k in range(n)]
    else:
        for k, m in enumerate(ms):
            m[1] = [0.0] * 6
            m[3] = [0.0, 0.0, 0.0, 0.5, 0.0, 0.0]
            m[5] = [0.0] * 5 + [2.0]
            vout[k][1] = -3.0
            vout[k][3] = 1.5
            vout[k][5] = 20.0
        vin[3] = -4.0
    tr = T().MatrixTracking([mat(ctx, m) for m in ms], [mat(ctx, [v]) for v in vout], mat(ctx, [vin]))
    ctx.check("nothing tracked yet", tr.last == [])
    out = tr.track_one(h)
    ctx.check("number", len(out) == n + 1)
    ctx.check("recorded", len(tr.last) == 1 and tr.last[0] is out)
    same(ctx, "input", h, st)
    same(ctx, "first", out[0], st)
    ctx.check("separate hits", len({id(o) for o in out + [h]}) == n + 2)
    for k in range(n):
        tracked(ctx, "map %d" % k, out[k + 1], st, image(ctx, st, ms[k], vin, vout[k]))
    h["y"] = 17.0
    out[n]["x"] = 18.0
    ctx.eq("not shared", out[0]["y"], st["y"], exact=True)
    ctx.eq("not shared back", h["x"], st["x"], exact=True)


@R.each([(2, 1), (3, 1), (2, 2), (1, 2)], budget=60)
def many(ctx, nh, n):
    """A list of hits: one list per hit, in the order of the hits."""
    L = 1000
    hs, sts = zip(*[mk(ctx, "h%d" % i, ["x", "t", "pz"], L, px=1.0 + i, py=2.0, y=0.5, energy=500.0 + i, mass=100.0, pid=13, z=3.5 + i, spill=i) for i in range(nh)])
    ms = [entries(ctx, "m%d" % k, k, (0, 4)) for k in range(n)]
    for m in ms:
        m[5] = [0.0] * 5 + [1.0]
    vin, vout = offset(ctx, "vin", False), [offset(ctx, "v%d" % k, False) for k in range(n)]
    tr = T().MatrixTracking([mat(ctx, m) for m in ms], [mat(ctx, [v]) for v in vout], mat(ctx, [vin]))
    out = tr.track_many(list(hs))
    ctx.check("number", len(out) == nh and all(len(o) == n + 1 for o in out))
    ctx.check("recorded", len(tr.last) == nh and all(a is b for a, b in zip(tr.last, out)))
    for i in range(nh):
        same(ctx, "input %d" % i, hs[i], sts[i])
        same(ctx, "first %d" % i, out[i][0], sts[i])
        for k in range(n):
            w = image(ctx, sts[i], ms[k], vin, vout[k])
            for j, u in enumerate(U):
                ctx.eq("hit %d map %d %s" % (i, k, u), out[i][k + 1][u], w[j], scale=1e6)
            ctx.eq("z %d" % i, out[i][k + 1]["z"], 3.5 + i, exact=True)
            ctx.check("spill %d" % i, out[i][k + 1]["spill"] == i)
    one_ = tr.track_one(hs[0])
    ctx.check("record replaced", len(tr.last) == 1 and tr.last[0] is one_)
    for a, b in zip(one_, out[0]):
        ctx.eqs("alone or in a list", [a[u] for u in U], [b[u] for u in U], exact=True)


@R.case()
def none(ctx):
    """No maps: only the input; no hits: nothing."""
    h, st = hit(ctx, "h")
    tr = T().MatrixTracking([], [], mat(ctx, [offset(ctx, "vin")]))
    out = tr.track_one(h)
    ctx.check("only the input", len(out) == 1 and out[0] is not h)
    same(ctx, "copy", out[0], st)
    ctx.check("nothing", tr.track_many([]) == [] and tr.last == [])


@R.each([[0, 1], [1, 0], [1, 0, 1], [0, 0]])
def shell(ctx, signs):
    """Whether a hit is stopped in one map makes no difference to the other maps."""
    pz = ctx.real("pz", -1000, 1000)
    h, st = mk(ctx, "h", ["x"], 1000, px=0.0, py=0.0, pz=pz, energy=500.0, mass=100.0)
    ident = [[1.0 if i == j else 0.0 for j in range(6)] for i in range(6)]
    dead = [r[:5] + [0.0] for r in ident]
    z = [0.0] * 6
    tr = T().MatrixTracking([mat(ctx, ident if k else dead) for k in signs], [mat(ctx, [z]) for k in signs], mat(ctx, [z]))
    out = tr.track_one(h)
    for k, live in enumerate(signs):
        p = ctx.const(out[k + 1]["pz"])
        if live:
            ctx.eq("pz %d" % k, p * p, 240000.0)
        else:
            ctx.eq("stopped %d" % k, p, 0.0)


@R.each(["lengths", "offset type", "offset shape", "offset shape 6", "in type", "in shape", "matrix type", "matrix shape", "matrix shape 5", "second"])
def bad(ctx, what):
    """Maps that make no sense are refused when the tracking is made."""
    x = ctx.real("x", -1, 1)
    m = mat(ctx, [[x if i == j else 0.0 for j in range(6)] for i in range(6)])
    v = mat(ctx, [[x] * 6])
    a = {"lengths": ([m], [v, v], v), "offset type": ([m], [[x] * 6], v), "offset shape": ([m], [mat(ctx, [[x]] * 6)], v), "offset shape 6": ([m], [m], v),
         "in type": ([m], [v], [x] * 6), "in shape": ([m], [v], mat(ctx, [[x] * 5])), "matrix type": ([[[x] * 6] * 6], [v], v), "matrix shape": ([v], [v], v),
         "matrix shape 5": ([mat(ctx, [[x] * 6] * 5)], [v], v), "second": ([m, v], [v, v], v)}[what]
    ctx.raises("refused", lambda: T().MatrixTracking(*a), exc=IndexError if what == "lengths" else TypeError)


@R.case()
def base(ctx):
    """The base class: track_many is track_one of each, in order; track_one has to be supplied."""
    xs = [ctx.real("x%d" % i, -10, 10) for i in range(3)]
    ctx.raises("to be supplied", lambda: T().TrackingBase().track_one(xs[0]), exc=NotImplementedError)

    class Mine(T().TrackingBase):
        def track_one(self, hit):
            return [hit, 2 * hit]
    m = Mine()
    ctx.check("nothing yet", m.last == [])
    out = m.track_many(xs)
    ctx.check("number", len(out) == 3 and m.last == out)
    for x, o in zip(xs, out):
        ctx.eqs("one", o, [x, 2 * x])
