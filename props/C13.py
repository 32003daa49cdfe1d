"""C13: writing hits to files and reading them back."""
import io
import os
import shutil
import tempfile
from engine.harness import Registry
from props.lib import *
from props.C06 import fresh
R = Registry("C13")
R.bounds = {"hits": "one to three; every column of the format any real in +-10^6 or any 32-bit integer at once", "particles": "every particle type the format can name",
            "stations": "any 32-bit integer of each of up to three hits", "user formats": "every stored variable in a column, and formats of up to four columns in every order; units of the tables of Common.units that apply"}
R.assumptions = ["printing a float and reading it back gives that float (true of Python's str); the file itself holds a marker for each symbolic number",
                 "hits are on the mass shell where the format holds the energy; unit conversion is exact up to the rounding of one multiplication and one division"]

COLS = {  # the documented columns of each format: (variable or constant, unit in units of the hit)
    "icool_for009": [("event_number", 1), ("particle_number", 1), ("pid", 1), ("status", 1), ("station", 1), ("t", 1e9), ("x", 1e3), ("y", 1e3), ("z", 1e3), ("px", 1e3), ("py", 1e3), ("pz", 1e3),
                     ("bx", 1e-3), ("by", 1e-3), ("bz", 1e-3), ("local_weight", 1), ("ex", 1e-9), ("ey", 1e-9), ("ez", 1e-9), (None, 1), ("sx", 1), ("sy", 1), ("sz", 1)],
    "icool_for003": [("event_number", 1), ("particle_number", 1), ("pid", 1), ("status", 1), ("t", 1e9), ("local_weight", 1), ("x", 1e3), ("y", 1e3), ("z", 1e3), ("px", 1e3), ("py", 1e3), ("pz", 1e3),
                     ("sx", 1), ("sy", 1), ("sz", 1)],
    "g4beamline_bl_track_file": [("x", 1), ("y", 1), ("z", 1), ("px", 1), ("py", 1), ("pz", 1), ("t", 1), ("pid", 1), ("event_number", 1), ("particle_number", 1), (None, 1), ("local_weight", 1)],
    "mars_1": [("event_number", 1), ("pid", 1), ("x", 1), ("y", 1), ("z", 1), ("px", 1e3), ("py", 1e3), ("pz", 1e3), ("energy", 1e3), ("ct", 10), ("local_weight", 1)],
}
COLS["g4beamline_bl_track_file_2"] = COLS["g4beamline_bl_track_file"] + [(None, 1)] * 3
HEADER = {"icool_for009": 3, "icool_for003": 2, "g4beamline_bl_track_file": 2, "g4beamline_bl_track_file_2": 2, "mars_1": 0}
ICOOL = {-11: 1, -13: 2, 211: 3, 321: 4, 2212: 5, 11: -1, 13: -2, -211: -3, -321: -4, -2212: -5}
MARS = {2212: 1, 2112: 2, 211: 3, -211: 4, 321: 5, -321: 6, -13: 7, 13: 8, 22: 9, 11: 10, -11: 11, -2212: 12, 111: 13, 1000010020: 14, 1000010030: 15, 1000020030: 16, 1000020040: 17, 14: 18, -14: 19, 12: 20, -12: 21,
        130: 22, 310: 23, 311: 24, -311: 25, 3122: 26, -3122: 27, -2112: 31}
G4BL = {p: p for p in list(MARS) + [-14, -12]}
PIDS = {"icool_for009": ICOOL, "icool_for003": ICOOL, "mars_1": MARS, "g4beamline_bl_track_file": G4BL, "g4beamline_bl_track_file_2": G4BL}
FORMATS = sorted(COLS)
C = 299.792458
UNIT_OF = {"x": "mm cm m km", "y": "mm cm m km", "z": "mm cm m km", "t": "ns mus ms s", "px": "eV/c keV/c MeV/c GeV/c TeV/c", "py": "MeV/c GeV/c", "pz": "MeV/c GeV/c", "energy": "eV keV MeV GeV TeV", "mass": "MeV/c2 GeV/c2",
           "bx": "Gauss mT T kT", "by": "T kT", "bz": "T kT", "ex": "V/m GV/m GV/mm", "ey": "GV/m", "ez": "GV/m", "path_length": "mm m", "proper_time": "ns s", "e_dep": "MeV GeV", "sx": "", "sy": "", "sz": "",
           "charge": "", "local_weight": "", "global_weight": ""}
SIZE = {"": 1, "mm": 1, "cm": 10, "m": 1e3, "km": 1e6, "ns": 1, "mus": 1e3, "ms": 1e6, "s": 1e9, "eV/c": 1e-6, "keV/c": 1e-3, "MeV/c": 1, "GeV/c": 1e3, "TeV/c": 1e6, "eV": 1e-6, "keV": 1e-3, "MeV": 1, "GeV": 1e3, "TeV": 1e6,
        "MeV/c2": 1, "GeV/c2": 1e3, "Gauss": 1e-7, "mT": 1e-6, "T": 1e-3, "kT": 1, "V/m": 1e-9, "GV/m": 1, "GV/mm": 1e3}


class scratch:
    def __enter__(self):
        self.d = tempfile.mkdtemp(prefix="xboa_c13_")
        return os.path.join(self.d, "hits")

    def __exit__(self, *a):
        shutil.rmtree(self.d)


def number(ctx, w):
    """The number that a word of the file stands for."""
    if w.startswith("$"):
        from engine import sx
        return sx.from_token(w)
    return float(w)


def hit(ctx, nm, fmt, pid, **fix):
    """A hit on the mass shell with every column of the format symbolic, and what it stores."""
    h = Hit()()
    st = {}
    names = [v for v, u in COLS[fmt] if v and v not in ("pid", "energy", "ct")] + (["t"] if fmt == "mars_1" else [])
    for v in names:
        st[v] = fix[v] if v in fix else ctx.int("%s_%s" % (nm, v), -I32, I32 - 1) if v in INT else ctx.real("%s_%s" % (nm, v), -BIG, BIG)
    m = Common().pdg_pid_to_mass[abs(pid)]
    st["pid"], st["mass"], st["charge"] = pid, m, Common().pdg_pid_to_charge.get(pid, 0)
    for v in ("spill", "station"):
        if v not in st:
            st[v] = fix.get(v, 0)
    for v, x in st.items():
        h.set(v, x)
    st["energy"] = ctx.sqrt(st["px"] ** 2 + st["py"] ** 2 + st["pz"] ** 2 + m * m)
    h.set("energy", st["energy"])
    return h, st


def held(fmt):
    out = {v for v, u in COLS[fmt] if v and v != "ct"} | {"energy", "mass", "charge"}
    return out | {"t"} if fmt == "mars_1" else out


def reads(ctx, label, h, st, fmt):
    for v in sorted(held(fmt)):
        if v in INT:
            ctx.eq("%s: %s" % (label, v), h.get(v), st[v], exact=True)
        else:
            ctx.eq("%s: %s" % (label, v), h.get(v), st[v])


@R.each(prod(FORMATS, ["muon", "other"]))
def one(ctx, fmt, kind):
    """One hit written and read again: every variable the format holds; the hit itself is not changed."""
    c = fresh()
    muons = [p for p in PIDS[fmt] if abs(p) == 13]
    pid = ctx.choice(muons if kind == "muon" else [p for p in PIDS[fmt] if p not in muons])
    h, st = hit(ctx, "h", fmt, pid)
    f = io.StringIO()
    h.write_builtin_formatted(fmt, f)
    same(ctx, "after writing", h, st)
    f.seek(0)
    g = Hit().new_from_read_builtin(fmt, f)
    reads(ctx, "read", g, st, fmt)
    ctx.check("type of particle", g.get("pid") == pid)
    same(ctx, "after reading", h, st)


@R.each(FORMATS)
def columns(ctx, fmt):
    """The written line has the documented variables in the documented units and order."""
    fresh()
    pid = ctx.choice(sorted(PIDS[fmt]))
    h, st = hit(ctx, "h", fmt, pid)
    f = io.StringIO()
    h.write_builtin_formatted(fmt, f)
    line = f.getvalue()
    ctx.check("one line", line.endswith("\n") and line.count("\n") == 1)
    words = line.split()
    ctx.check("number of columns", len(words) == len(COLS[fmt]))
    for w, (v, u) in zip(words, COLS[fmt]):
        if v is None:
            continue
        got = number(ctx, w)
        if v == "pid":
            ctx.check("type of particle", got == PIDS[fmt][pid])
        elif v in INT:
            ctx.eq("column %s" % v, got, st[v], exact=True)
        elif v == "ct":
            ctx.eq("column ct", got * u, st["t"] * C)
        else:
            ctx.eq("column %s" % v, got * u, st[v])


def line_of(ctx, fmt, st, pid):
    out = []
    for v, u in COLS[fmt]:
        if v is None:
            out.append("0")
        elif v == "pid":
            out.append(str(PIDS[fmt][pid]))
        elif v == "ct":
            out.append(str(st["t"]))
        else:
            out.append(str(st[v]))
    return " ".join(out) + "\n"


@R.each(FORMATS)
def foreign(ctx, fmt):
    """A line that another program wrote, with the documented columns, is read in the documented units; the energy follows from the mass shell."""
    fresh()
    pid = ctx.choice(sorted(PIDS[fmt]))
    st = {v: ctx.int("c_" + v, -I32, I32 - 1) if v in INT else ctx.real("c_" + v, -1000, 1000) for v, u in COLS[fmt] if v and v not in ("pid", "ct")}
    if fmt == "mars_1":
        st["t"] = ctx.real("c_t", -1000, 1000)
    h = Hit().new_from_read_builtin(fmt, io.StringIO(line_of(ctx, fmt, st, pid)))
    m = Common().pdg_pid_to_mass[abs(pid)]
    for v, u in COLS[fmt]:
        if v is None or v == "energy":
            continue
        if v == "pid":
            ctx.check("type of particle", h.get("pid") == pid)
        elif v in INT:
            ctx.eq("read %s" % v, h.get(v), st[v], exact=True)
        elif v == "ct":
            ctx.eq("read ct", h.get("t") * C, st["t"] * u)
        else:
            ctx.eq("read %s" % v, h.get(v), st[v] * u)
    ctx.eq("mass", h.get("mass"), m)
    ctx.eq("charge", h.get("charge"), Common().pdg_pid_to_charge.get(pid, 0))
    p2 = sum(h.get(v) ** 2 for v in ("px", "py", "pz"))
    ctx.eq("mass shell", h.get("energy") ** 2, p2 + m * m)
    ctx.le("positive energy", 0, h.get("energy"))


@R.each(FORMATS, tier="thorough")
def whole_file(ctx, fmt):
    lists(ctx, fmt, 3)


@R.each(FORMATS)
def small_file(ctx, fmt):
    lists(ctx, fmt, 2)


def lists(ctx, fmt, n):
    """A bunch written to a file and read again: its hits in order of station, those of one station in their order; the bunch is not changed."""
    fresh()
    pids = ([-13, 2212, 211] if "icool" in fmt else [-13, 2212, 211])[:n]
    hs = [hit(ctx, "h%d" % i, fmt, p, **({"station": ctx.int("station%d" % i, -I32, I32 - 1)} if "station" not in [v for v, u in COLS[fmt]] else {}), event_number=i) for i, p in enumerate(pids)]
    b = Bunch()()
    for h, st in hs:
        b.append(h)
    with scratch() as name:
        b.hit_write_builtin(fmt, name)
        for i, (h, st) in enumerate(hs):
            ctx.check("still in the bunch", b[i] is h)
            same(ctx, "hit in memory", h, st)
        r = Bunch().new_from_read_builtin(fmt, name)
        head = open(name).read().split("\n")
        ctx.check("header lines", len(head) == HEADER[fmt] + n + 1)
    ctx.check("all hits", len(r) == n)
    order = []
    for i, (h, st) in enumerate(hs):
        k = 0
        for j, (g, sj) in enumerate(hs):
            if j != i and ((sj["station"] < st["station"]) if j > i else (sj["station"] <= st["station"])):
                k += 1
        order.append(k)
    for i, (h, st) in enumerate(hs):
        reads(ctx, "read", r[order[i]], st, fmt)


@R.each(prod(FORMATS, [0, 1, 2]))
def bad_hit(ctx, fmt, which):
    """A hit of a type that the format has no name for is left as it is, and the others are written."""
    fresh()
    if fmt.startswith("g4"):
        ctx.reach("any")
        return
    st3 = [ctx.int("station%d" % i, 0, 3) for i in range(3)]
    hs = [mk(ctx, "h%d" % i, ["x", "pz"], 1000, pid=-13, mass=Common().pdg_pid_to_mass[13], event_number=i, station=st3[i], status=i + 5) for i in range(3)]
    unknown = ctx.choice([999, -999, 3])
    hs[which][0].set("pid", unknown)
    hs[which][1]["pid"] = unknown
    b = Bunch()()
    for h, st in hs:
        b.append(h)
    with scratch() as name:
        b.hit_write_builtin(fmt, name)
        r = Bunch().new_from_read_builtin(fmt, name)
    for h, st in hs:
        same(ctx, "hit in memory", h, st)
    ctx.check("other hits written", len(r) == 2)
    got = {int(h.get("event_number")): h for h in r.hits()}
    ctx.check("each once", sorted(got) == [i for i in range(3) if i != which])
    for i, h in got.items():
        for v in ("x", "pz"):
            ctx.eq("read " + v, h.get(v), hs[i][1][v])


class Failing(io.StringIO):
    def __init__(self, n):
        io.StringIO.__init__(self)
        self.n = n

    def write(self, s):
        self.n -= 1
        if self.n < 0:
            raise IOError("disk full")
        return io.StringIO.write(self, s)


@R.each(FORMATS)
def disk_full(ctx, fmt):
    """If the file cannot take the line, the error is reported and the hit is as it was."""
    fresh()
    n = ctx.choice(list(range(len(COLS[fmt]) + 1)))
    h, st = hit(ctx, "h", fmt, -13)
    ctx.raises("write", lambda: write_until(h, fmt, n), exc=OSError)
    same(ctx, "hit", h, st)


def write_until(h, fmt, n):
    f = Failing(n)
    h.write_builtin_formatted(fmt, f)
    if len(f.getvalue().split()) >= len(COLS[fmt]):
        raise OSError("the line fitted")  # a writer that uses fewer calls of write than we allowed


@R.each(sorted(UNIT_OF))
def user_unit(ctx, v):
    """A column of a user format: the value is written in the unit asked for and read back."""
    fresh()
    for unit in UNIT_OF[v].split() or [""]:
        h = Hit()()
        x = ctx.real("x%d" % (UNIT_OF[v].split() or [""]).index(unit), -BIG, BIG)
        keys = {"event_number": 4, "pid": -13}
        for k, y in keys.items():
            h.set(k, y)
        h.set(v, x)
        fmt = ["event_number", "pid", v]
        units = {v: unit, "event_number": "", "pid": ""}
        f = io.StringIO()
        h.write_user_formatted(fmt, units, f)
        words = f.getvalue().split()
        ctx.check("columns", len(words) == 3)
        ctx.eq("written in %s" % unit, number(ctx, words[2]) * SIZE[unit], x)
        f.seek(0)
        g = Hit().new_from_read_user(fmt, units, f)
        ctx.eq("read back %s %s" % (v, unit), g.get(v), x)
        ctx.eq("in memory", h.get(v), x)


USER = [["event_number", "x", "pid", "px"], ["pid", "station", "t", "z"], ["particle_number", "spill", "status", "pid"], ["ct", "pid", "charge", "y"], ["mass", "pid", "energy", "x"], ["global_weight", "spill", "pid", "event_number"],
        ["pid", "local_weight", "global_weight", "particle_number"], ["eventNumber", "particleNumber", "pid", "bz"]]
NATURAL = {"x": "m", "y": "cm", "z": "mm", "t": "s", "px": "GeV/c", "ct": "m", "energy": "GeV", "mass": "GeV/c2", "bz": "T"}


@R.each(prod(range(len(USER)), [" ", ", "[1] + " "][:1]))
def user_format(ctx, k, sep):
    """Two hits in a user format: written in order, read in order, in memory unchanged."""
    fresh()
    fmt = USER[k]
    units = {v: NATURAL.get(v, "") for v in fmt}
    hs = []
    alias = {"eventNumber": "event_number", "particleNumber": "particle_number"}
    for i, pid in enumerate([-13, 211]):
        h, st = Hit()(), {}
        for v in fmt:
            s = alias.get(v, v)
            st[s] = pid if s == "pid" else ctx.int("h%d_%s" % (i, s), -I32, I32 - 1) if s in INT else ctx.real("h%d_%s" % (i, s), -1000, 1000)
        if "global_weight" in fmt:
            st.setdefault("event_number", i)
            if i == 1 and "event_number" in fmt:
                ctx.assume(st["event_number"] != hs[0][1]["event_number"])
            elif i == 1 and "particle_number" in fmt:
                ctx.assume(st["particle_number"] != hs[0][1]["particle_number"])
        for v, x in sorted(st.items(), key=lambda i: i[0] == "global_weight"):
            if v in fmt or alias.get(v, v) in st:
                h.set(v, x)
        hs.append((h, st))
    if "global_weight" in fmt and "event_number" not in fmt:
        for h, st in hs:
            st.pop("event_number")
            w = st["global_weight"]
            h.set("event_number", 0)
            h.set("global_weight", w)
    b = Bunch()()
    for h, st in hs:
        b.append(h)
    with scratch() as name:
        with open(name, "w") as f:
            f.write("a header\n")
            b.hit_write_user(fmt, units, f, sep)
        r = Bunch().new_from_read_user(fmt, units, open(name), 1)
    ctx.check("number of hits", len(r) == 2)
    for (h, st), g in zip(hs, r.hits()):
        for v, x in st.items():
            ctx.eq("read %s" % v, g.get(v), x, exact=v in INT)
            ctx.eq("in memory %s" % v, h.get(v), x, exact=v != "ct")


@R.each(["ascending", "descending", "by x", "none"])
def user_order(ctx, how):
    """hit_write_user writes in the order of the comparator, equal hits in their order, and leaves the bunch in its own."""
    fresh()
    hs = [mk(ctx, "h%d" % i, ["x", "event_number"], status=i) for i in range(3)]
    b = Bunch()()
    for h, st in hs:
        b.append(h)
    var = "x" if how == "by x" else "event_number"

    def cmp(p, q):
        u, v = p.get(var), q.get(var)
        if how == "descending":
            u, v = v, u
        return -1 if u < v else 1 if u > v else 0
    f = io.StringIO()
    b.hit_write_user(["status"], {"status": ""}, f, comparator=None if how == "none" else cmp)
    for i, (h, st) in enumerate(hs):
        ctx.check("order of the bunch", b[i] is h)
        same(ctx, "hit", h, st)
    order = [int(w) for w in f.getvalue().split()]
    ctx.check("every hit once", sorted(order) == [0, 1, 2])
    if how == "none":
        ctx.check("order of the bunch", order == [0, 1, 2])
        return
    for i, j in zip(order, order[1:]):
        u, v = hs[i][1][var], hs[j][1][var]
        if how == "descending":
            u, v = v, u
        ctx.check("in order", u <= v)
        if i > j:
            ctx.check("stable", u != v)


@R.each(prod(["mm", "cm", "m", "km", "mum"], ["g4beamline_bl_track_file", "g4beamline_bl_track_file_2"]))
def g4bl_unit(ctx, unit, fmt):
    """The length unit of g4beamline files: written and read in the unit that is set, and the other columns are not affected."""
    fresh()
    H = Hit()
    size = {"mm": 1, "cm": 10, "m": 1000, "km": 10 ** 6, "mum": 1e-3}[unit]
    h, st = hit(ctx, "h", fmt, -13)
    try:
        H.set_g4bl_unit(unit)
        f = io.StringIO()
        h.write_builtin_formatted(fmt, f)
        f.seek(0)
        g = H.new_from_read_builtin(fmt, f)
    finally:
        H.set_g4bl_unit("mm")
    reads(ctx, "read", g, st, fmt)
    for w, (v, u) in zip(f.getvalue().split(), COLS[fmt]):
        if v in ("x", "y", "z"):
            ctx.eq("in %s" % unit, number(ctx, w) * size, st[v])
        elif v and v not in INT:
            ctx.eq("column %s" % v, number(ctx, w) * u, st[v])
    f = io.StringIO()
    h.write_builtin_formatted(fmt, f)
    for w, (v, u) in zip(f.getvalue().split(), COLS[fmt]):
        if v and v not in INT:
            ctx.eq("mm again: %s" % v, number(ctx, w) * u, st[v])


@R.each(prod(["cm", "mm"], ["g4beamline_bl_track_file", "g4beamline_bl_track_file_2"]))
def g4bl_header(ctx, unit, fmt):
    """A g4beamline file that names its length unit is read in it."""
    fresh()
    size = {"mm": 1, "cm": 10}[unit]
    st = {v: ctx.int("c_" + v, -I32, I32 - 1) if v in INT else ctx.real("c_" + v, -1000, 1000) for v, u in COLS[fmt] if v and v != "pid"}
    try:
        Hit().set_g4bl_unit("mm" if unit == "cm" else "cm")
        with scratch() as name:
            with open(name, "w") as f:
                f.write("#BLTrackFile test\n#x y z Px Py Pz t PDGid EvNum TrkId Parent weight\n#%s %s %s MeV/c MeV/c MeV/c ns - - - - -\n" % (unit, unit, unit) + line_of(ctx, fmt, st, -13))
            b = Bunch().new_from_read_builtin(fmt, name)
    finally:
        Hit().set_g4bl_unit("mm")
    ctx.check("one hit", len(b) == 1)
    for v, u in COLS[fmt]:
        if v and v != "pid":
            ctx.eq("read %s" % v, b[0].get(v), st[v] * (size if v in ("x", "y", "z") else u))


@R.each(prod(FORMATS, [None, "a title"]))
def from_dict(ctx, fmt, comment):
    """Bunches in a dictionary are written to one file, with the comment in the header."""
    fresh()
    hs = [hit(ctx, "h%d" % i, fmt, -13, event_number=i, station=i, spill=0) for i in range(2)]
    d = {}
    for i, (h, st) in enumerate(hs):
        d[i] = Bunch()()
        d[i].append(h)
    with scratch() as name:
        if comment is None:
            Bunch().hit_write_builtin_from_dict(d, fmt, name)
        else:
            Bunch().hit_write_builtin_from_dict(d, fmt, name, comment)
        text = open(name).read()
        r = Bunch().new_from_read_builtin(fmt, name)
    ctx.check("both", len(r) == 2)
    for i in range(2):
        reads(ctx, "read", r[i], hs[i][1], fmt)
        same(ctx, "hit in memory", *hs[i])
    if HEADER[fmt]:
        ctx.check("comment", (comment or "X_BOA") in text.split("\n")[0])
