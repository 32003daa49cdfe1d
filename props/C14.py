"""C14: readers return exactly the valid hits, in order; splitting and selecting lose and repeat nothing."""
import io
import operator
import os
import shutil
import tempfile
from engine.harness import Registry
from props.lib import *
from props.C06 import fresh
R = Registry("C14")
R.bounds = {"files": "up to four lines (three in quick runs), each well formed, with a word too few or too many, with a word that is not a number in any column, with an integer that does not fit, or rejected by the test function; one or two files",
            "values": "every column of the well formed lines any real in +-1000 or any 32-bit integer", "limits": "every number of hits from -1 to one more than there are", "splitting": "bunches of up to four hits with any integers"}
R.assumptions = ["a file holds a marker for each symbolic number; reading a printed float gives that float", "a symbolic key of a dictionary is compared with the other symbolic keys of the run", "the particle type of a line has a known mass and charge"]
HEADER = {"icool_for009": 3, "icool_for003": 2, "g4beamline_bl_track_file": 2, "g4beamline_bl_track_file_2": 2, "mars_1": 0}
ORDER = {"icool_for009": "event_number particle_number pid status station t x y z px py pz bx by bz local_weight ex ey ez 0 sx sy sz", "icool_for003": "event_number particle_number pid status t local_weight x y z px py pz sx sy sz",
         "g4beamline_bl_track_file": "x y z px py pz t pid event_number particle_number 0 local_weight", "g4beamline_bl_track_file_2": "x y z px py pz t pid event_number particle_number 0 local_weight 0 0 0",
         "mars_1": "event_number pid x y z px py pz 0 0 local_weight"}
FORMATS = sorted(ORDER)
SIZE = {"icool_for009": 1000, "icool_for003": 1000, "g4beamline_bl_track_file": 1, "g4beamline_bl_track_file_2": 1, "mars_1": 1}
MU = {"icool_for009": "2", "icool_for003": "2", "g4beamline_bl_track_file": "-13", "g4beamline_bl_track_file_2": "-13", "mars_1": "7"}
GOOD, SHORT, LONG, WORD, HUGE = "good", "short", "long", "word", "huge"


class scratch:
    def __enter__(self):
        self.d = tempfile.mkdtemp(prefix="xboa_c14_")
        return self

    def file(self, name, fmt, lines):
        p = os.path.join(self.d, name)
        with open(p, "w") as f:
            f.write("#\n" * HEADER[fmt] + "".join(lines))
        return p

    def __exit__(self, *a):
        shutil.rmtree(self.d)


def line(ctx, fmt, i, kind, col=None, word="abc"):
    """Line i of a file and, if it is well formed, what the hit stores (x, station/status and event number)."""
    st = {"event_number": ctx.int("event%d" % i, -I32, I32 - 1), "x": ctx.real("x%d" % i, -1000, 1000)}
    out = []
    cols = ORDER[fmt].split()
    for v in cols:
        if v in st:
            out.append(str(st[v]))
        elif v == "pid":
            out.append(MU[fmt])
        elif v == "station":
            st[v] = ctx.int("station%d" % i, -I32, I32 - 1)
            out.append(str(st[v]))
        elif v in INT:
            out.append(str(i))
        else:
            out.append("0.5")
    st["x"] = st["x"] * SIZE[fmt]
    if kind == SHORT:
        out.pop()
    elif kind == LONG:
        out.append("1")
    elif kind == WORD:
        out[col if col is not None else cols.index("x")] = word
    elif kind == HUGE:
        out[cols.index("event_number")] = word if word != "abc" else "99999999999"
    return " ".join(out) + "\n", st if kind == GOOD else None


def is_hit(ctx, label, h, st):
    for v, x in st.items():
        ctx.eq("%s: %s" % (label, v), h.get(v), x, exact=v in INT)


def lines(ctx, fmt, n, kinds):
    out = [line(ctx, fmt, i, ctx.choice(kinds)) for i in range(n)]
    return [l for l, s in out], [s for l, s in out if s is not None]


def expect(ctx, b, good):
    ctx.check("number of hits", len(b) == len(good))
    for h, st in zip(b.hits(), good):
        is_hit(ctx, "hit", h, st)


def file_case(n, kinds):
    def f(ctx, fmt):
        """The hits of a file are those of its well formed lines, in their order."""
        fresh()
        ls, good = lines(ctx, fmt, n, kinds)
        with scratch() as s:
            b = Bunch().new_from_read_builtin(fmt, s.file("a", fmt, ls))
        expect(ctx, b, good)
    return f


for _n, _kinds, _tier, _name in ((3, [GOOD, SHORT, WORD], "quick", "file"), (2, [GOOD, SHORT, LONG, WORD, HUGE], "quick", "all_kinds"), (4, [GOOD, SHORT, LONG, WORD, HUGE], "thorough", "four_lines"), (0, [GOOD], "quick", "empty")):
    _f = file_case(_n, _kinds)
    _f.__name__ = _name
    R.each(FORMATS, tier=_tier)(_f)


@R.each(prod(FORMATS, ["abc", "1.2.3", "--", "0x10", "1,5"]))
def bad_word(ctx, fmt, word):
    """A word that is not a number, in any column that holds a variable, makes the line bad; the lines around it are read."""
    fresh()
    cols = [i for i, v in enumerate(ORDER[fmt].split()) if v != "0" or fmt == "mars_1"]
    col = ctx.choice(cols)
    ls = [line(ctx, fmt, 0, GOOD), line(ctx, fmt, 1, WORD, col, word), line(ctx, fmt, 2, GOOD)]
    with scratch() as s:
        b = Bunch().new_from_read_builtin(fmt, s.file("a", fmt, [l for l, x in ls]))
    expect(ctx, b, [ls[0][1], ls[2][1]])


@R.each(prod(FORMATS, ["2147483648", "-2147483649", "1e30", "inf", "nan", "-inf"]))
def bad_integer(ctx, fmt, word):
    """A number that an integer variable cannot hold makes the line bad."""
    fresh()
    ls = [line(ctx, fmt, 0, GOOD), line(ctx, fmt, 1, HUGE, None, word), line(ctx, fmt, 2, GOOD)]
    with scratch() as s:
        b = Bunch().new_from_read_builtin(fmt, s.file("a", fmt, [l for l, x in ls]))
    expect(ctx, b, [ls[0][1], ls[2][1]])


@R.each(prod(FORMATS, ["5", "5.0", "5e0", "0.5e1", "+5", "500.e-2"]))
def integer_words(ctx, fmt, word):
    """An integer may be written as a float."""
    fresh()
    l, st = line(ctx, fmt, 0, HUGE, None, word)
    with scratch() as s:
        b = Bunch().new_from_read_builtin(fmt, s.file("a", fmt, [l]))
    ctx.check("read", len(b) == 1 and b[0].get("event_number") == 5)


@R.each(FORMATS)
def limited(ctx, fmt):
    """At most the requested number of hits, the first ones that pass the test function; negative for all."""
    fresh()
    n = 3
    limit = ctx.choice([-1, 0, 1, 2, 3, 4])
    ls, good = lines(ctx, fmt, n, [GOOD, SHORT])
    cut = ctx.real("cut", -1000, 1000) * SIZE[fmt]
    with scratch() as s:
        b = Bunch().new_from_read_builtin(fmt, s.file("a", fmt, ls), lambda h: h.get("x") > cut, limit)
    want = [st for st in good if st["x"] > cut]
    expect(ctx, b, want if limit < 0 else want[:limit])


@R.each(FORMATS)
def two_files(ctx, fmt):
    """All files that match the name, each in its order; the limit is for all of them together."""
    fresh()
    limit = ctx.choice([-1, 1, 2, 3])
    a, ga = lines(ctx, fmt, 2, [GOOD, WORD])
    bl = [line(ctx, fmt, 5, GOOD), line(ctx, fmt, 6, SHORT)]
    with scratch() as s:
        s.file("f1", fmt, a)
        s.file("f2", fmt, [l for l, st in bl])
        s.file("g1", fmt, [bl[0][0]] * 3)
        import glob
        first = glob.glob(os.path.join(s.d, "f*"))[0].endswith("f1")
        b = Bunch().new_from_read_builtin(fmt, os.path.join(s.d, "f*"), None, limit)
    want = ga + [bl[0][1]] if first else [bl[0][1]] + ga
    expect(ctx, b, want if limit < 0 else want[:limit])


@R.each(FORMATS)
def one_by_one(ctx, fmt):
    """Reading single hits: each call takes one line; a bad line is an error of its own kind and a hit is not made; the end is another."""
    import xboa.hit
    fresh()
    ls = [line(ctx, fmt, i, ctx.choice([GOOD, SHORT, WORD])) for i in range(3)]
    f = io.StringIO("".join(l for l, s in ls))
    for l, st in ls:
        k, v = ctx.outcome(Hit().new_from_read_builtin, fmt, f)
        if st is None:
            ctx.check("bad line reported", k == "raise" and isinstance(v, xboa.hit.BadEventError))
        else:
            ctx.check("good line read", k == "ok")
            is_hit(ctx, "hit", v, st)
    for i in range(2):
        k, v = ctx.outcome(Hit().new_from_read_builtin, fmt, f)
        ctx.check("end reported", k == "raise" and isinstance(v, EOFError))


@R.each(FORMATS)
def generated(ctx, fmt):
    """The generator of a factory gives the well formed hits in order and ends."""
    import xboa.hit.factory
    fresh()
    ls, good = lines(ctx, fmt, 3, [GOOD, SHORT, WORD])
    fac = xboa.hit.factory.BuiltinHitFactory(fmt, io.StringIO("".join(ls)))
    got = []
    for h in fac.hit_generator():
        got.append(h)
        if len(got) > 5:
            break
    ctx.check("number of hits", len(got) == len(good))
    for h, st in zip(got, good):
        is_hit(ctx, "hit", h, st)


@R.each(["g4beamline_bl_track_file", "g4beamline_bl_track_file_2"])
def comments(ctx, fmt):
    """Comment lines and blank lines of g4beamline files are passed over, wherever they are."""
    fresh()
    ls = [line(ctx, fmt, i, GOOD) for i in range(2)]
    extra = ["# a comment\n", "\n", "#\n", "#x y z\n"]
    k = [ctx.choice(extra + [""]) for i in range(3)]
    with scratch() as s:
        b = Bunch().new_from_read_builtin(fmt, s.file("a", fmt, [k[0], ls[0][0], k[1], ls[1][0], k[2]]))
    expect(ctx, b, [st for l, st in ls])


USER = ["event_number", "x", "pid", "station"]


def user_line(ctx, i, kind):
    st = {"event_number": ctx.int("event%d" % i, -I32, I32 - 1), "x": ctx.real("x%d" % i, -1000, 1000), "station": ctx.int("station%d" % i, -I32, I32 - 1)}
    w = [str(st["event_number"]), str(st["x"]), "211", str(st["station"])]
    if kind == SHORT:
        w.pop(0)
    elif kind == LONG:
        w.append("0")
    elif kind == WORD:
        w[ctx.choice([0, 1, 2, 3])] = "x1"
    elif kind == HUGE:
        w[ctx.choice([0, 3])] = "4294967296"
    st["x"] = st["x"] * 10
    return " ".join(w) + "\n", st if kind == GOOD else None


def user_case(n, kinds):
    def f(ctx, skip):
        """User formats: lines skipped, bad lines passed over, test function and limit obeyed."""
        fresh()
        ls = [user_line(ctx, i, ctx.choice(kinds)) for i in range(n)]
        good = [s for l, s in ls if s is not None]
        limit = ctx.choice([-1, 0, 1, n])
        cut = ctx.real("cut", -1000, 1000)
        tested = ctx.choice([False, True])
        f = io.StringIO("a header\n" * skip + "".join(l for l, s in ls))
        b = Bunch().new_from_read_user(USER, {"x": "cm"}, f, skip, (lambda h: h.get("x") > cut) if tested else None, limit)
        if tested:
            good = [s for s in good if s["x"] > cut]
        expect(ctx, b, good if limit < 0 else good[:limit])
    return f


for _n, _kinds, _tier, _name in ((2, [GOOD, SHORT, LONG, WORD, HUGE], "quick", "user"), (3, [GOOD, SHORT, WORD], "thorough", "user3")):
    _f = user_case(_n, _kinds)
    _f.__name__ = _name
    R.each([0, 1, 2], tier=_tier)(_f)


@R.each(["unknown variable", "missing unit", "unknown unit", "ok"])
def user_format(ctx, how):
    """A user format is checked before anything is read."""
    fresh()
    fmt, units = {"unknown variable": (["x", "bob"], {"x": "mm", "bob": ""}), "missing unit": (["x", "y"], {"x": "mm"}), "unknown unit": (["x", "pid"], {"x": "furlong"}), "ok": (["x", "pid"], {"x": "mm"})}[how]
    f = io.StringIO("%s 211\n" % ctx.real("x", -9, 9))
    if how == "ok":
        Hit().new_from_read_user(fmt, units, f)
        return
    ctx.raises("format", lambda: Hit().new_from_read_user(fmt, units, f), exc=KeyError)
    ctx.check("nothing read", f.readline() != "")


@R.each(["no file", "unknown format"])
def refused(ctx, how):
    x = ctx.real("x", 0, 1)
    with scratch() as s:
        p = s.file("a", "mars_1", ["1\n"])
        if how == "no file":
            ctx.raises("no such file", lambda: Bunch().new_from_read_builtin("mars_1", p + "x"), exc=IOError)
        else:
            ctx.raises("format", lambda: Bunch().new_from_read_builtin("mars_2", p), exc=IOError)


# ------------------------------------------------------------------------------------- splitting and selecting
VARS = ["station", "pid", "spill", "event_number", "eventNumber", "particle_number", "particleNumber", "status"]


def some(ctx, n, var):
    v = {"eventNumber": "event_number", "particleNumber": "particle_number"}.get(var, var)
    ctx.dict_keys()
    if v == "pid":  # looked up in the table of particle types
        return v, [mk(ctx, "h%d" % i, ["x"], sx=i, pid=ctx.choice([13, -13, 999])) for i in range(n)]
    return v, [mk(ctx, "h%d" % i, [v, "x"], sx=i) for i in range(n)]


def bunch(hs):
    b = Bunch()()
    for h, st in hs:
        b.append(h)
    return b


def split_case(n):
    def f(ctx, var):
        """Splitting by an integer variable: each hit in the bunch of its own value and no other, in order, and every key is a value of some hit."""
        fresh()
        v, hs = some(ctx, n, var)
        b = bunch(hs)
        d = b.split(var)
        groups = []
        for h, st in hs:
            for g in groups:
                if g[0][1][v] == st[v]:
                    g.append((h, st))
                    break
            else:
                groups.append([(h, st)])
        ctx.check("number of bunches", len(d) == len(groups))
        seen = 0
        for k, part in d.items():
            for g in groups:
                if g[0][1][v] == k:
                    ctx.check("size", len(part) == len(g))
                    for p, (h, st) in zip(part.hits(), g):
                        ctx.check("the hit", p is h)
                        same(ctx, "hit", p, st)
                        seen += 1
                    for i in range(len(g)):
                        ctx.eq("core of the part", part.get_hit_variable(part[i], "x"), g[i][1]["x"])
                    ctx.eq("weight of the part", part.bunch_weight(), len(g))
        ctx.check("every hit once", seen == n)
        ctx.check("the bunch keeps its hits", len(b) == n and all(p is h for p, (h, st) in zip(b.hits(), hs)))
    return f


for _n, _vars, _tier, _name in ((3, VARS, "quick", "split"), (4, ["station"], "thorough", "split4"), (0, ["station"], "quick", "split0"), (1, ["pid"], "quick", "split1")):
    _f = split_case(_n)
    _f.__name__ = _name
    R.each(_vars, tier=_tier)(_f)


@R.each(prod(["icool_for009", "icool_for003"], ["dict", "list"]))
def indexed(ctx, fmt, how):
    """A file read as a dictionary or a sorted list of bunches: the well formed, accepted hits, by value; the list ascending."""
    fresh()
    ctx.dict_keys()
    var = "station" if fmt == "icool_for009" else "event_number"
    ls, good = lines(ctx, fmt, 3, [GOOD, SHORT])
    cut = ctx.real("cut", -1000, 1000) * SIZE[fmt]
    tested = ctx.choice([None, True])
    test = (lambda h: h.get("x") > cut) if tested else None
    if tested:
        good = [st for st in good if st["x"] > cut]
    with scratch() as s:
        p = s.file("a", fmt, ls)
        if how == "dict":
            d = Bunch().new_dict_from_read_builtin(fmt, p, var, test)
            parts = list(d.items())
        else:
            l = Bunch().new_list_from_read_builtin(fmt, p, var, test)
            parts = [(b[0].get(var), b) for b in l]
            for (k, b), (k2, b2) in zip(parts, parts[1:]):
                ctx.check("ascending", k < k2)
    total = 0
    for k, b in parts:
        want = [st for st in good if st[var] == k]
        ctx.check("not empty", len(want) > 0)
        expect(ctx, b, want)
        total += len(b)
    ctx.check("every hit", total == len(good))


@R.each(prod(["eq", "lt", "ge", "ne", "gt", "le"], ["event_number", "x"]))
def selected(ctx, op, var):
    """get_hits returns the hits for which the comparison is true, in order, and leaves the bunch alone."""
    fresh()
    hs = [mk(ctx, "h%d" % i, [var], sx=i) for i in range(3)]
    b = bunch(hs)
    val = ctx.int("value", -I32, I32 - 1) if var in INT else ctx.real("value", -1000, 1000)
    f = getattr(operator, op)
    got = b.get_hits(var, val) if op == "eq" else b.get_hits(var, val, f)
    want = [h for h, st in hs if f(st[var], val)]
    ctx.check("number", len(got) == len(want))
    ctx.check("the hits", all(p is h for p, h in zip(got, want)))
    ctx.check("the bunch keeps its hits", len(b) == 3 and all(p is h for p, (h, st) in zip(b.hits(), hs)))
    for h, st in hs:
        same(ctx, "hit", h, st)
