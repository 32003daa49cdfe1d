"""C29: the MAUS formats (json documents and ROOT trees)."""
import json
import os
import shutil
import tempfile
from engine.harness import Registry
from props.lib import *
from props.C06 import fresh
from props.C21 import Patched
from props.C28 import CHARGE, MASS
R = Registry("C29")
R.bounds = {"hits": "one to three of each type, every variable that the format holds any real in +-1000 or any 32-bit integer", "documents": "up to two spills of up to two events of up to two hits, with other documents and damaged spills between them",
            "particle types": "every 32-bit integer where the type gives mass and charge", "trackpoints": "every integer tracker, station and plane; up to two tracks of up to two trackpoints; up to two times in each time of flight detector"}
R.assumptions = ["json is Python's, with a marker in the document for each symbolic number; a printed float reads back as itself", "ROOT trees and the MAUS classes are stand-ins with the documented accessors",
                 "momenta at least 1 MeV/c along z and energies above the mass where the momentum follows from the energy"]
L = 1000
VIRTUAL = {"position": "", "momentum": "p", "b_field": "b", "e_field": "e"}
NUMBERS = {"virtual_hit": {"station_id": "station", "particle_id": "pid", "track_id": "particle_number", "time": "t", "mass": "mass", "charge": "charge", "proper_time": "proper_time", "path_length": "path_length"},
           "special_virtual_hit": {"particle_id": "pid", "track_id": "particle_number", "time": "t", "mass": "mass", "charge": "charge", "path_length": "path_length", "energy_deposited": "e_dep"},
           "primary": {"particle_id": "pid", "time": "t", "energy": "energy"}}
VECTORS = {"virtual_hit": VIRTUAL, "special_virtual_hit": {"position": "", "momentum": "p"}, "primary": {"position": "", "momentum": "p"}}
KIND = {"virtual_hit": "virtual_hits", "special_virtual_hit": "special_virtual_hits", "primary": "primary"}
TYPES = sorted(NUMBERS)


def setup(sym):
    import xboa.hit.factory
R.setup = setup


def variables(kind):
    return [s + c for s in VECTORS[kind].values() for c in "xyz"] + list(NUMBERS[kind].values())


class Json:
    """A scratch directory; json documents hold a marker for a symbolic number."""
    def __init__(self, ctx):
        self.sym = ctx.sym

    def __enter__(self):
        fresh()
        self.d = tempfile.mkdtemp(prefix="xboa_c29_")
        if self.sym:
            from engine import sx
            old = json.JSONEncoder.default
            self.old = old, json._default_decoder

            def default(enc, o):
                if isinstance(o, (sx.SymReal, sx.SymInt)):
                    return {"$": sx.token(o)}
                return old(enc, o)
            json.JSONEncoder.default = default
            json._default_decoder = json.JSONDecoder(object_hook=lambda o: sx.from_token(o["$"]) if list(o) == ["$"] else o)
        return self

    def __exit__(self, *a):
        if self.sym:
            json.JSONEncoder.default, json._default_decoder = self.old
        shutil.rmtree(self.d)

    def path(self, name="f"):
        return os.path.join(self.d, name)

    def write(self, docs, name="f"):
        with open(self.path(name), "w") as f:
            for d in docs:
                f.write(json.dumps(d) + "\n")
        return self.path(name)


def values(ctx, nm, kind, pid=-13, **fix):
    """What a hit of this kind holds, symbolic; momenta along z are at least 1."""
    st = {}
    for v in variables(kind):
        if v in fix:
            st[v] = fix[v]
        elif v == "pid":
            st[v] = pid
        elif v in INT:
            st[v] = ctx.int("%s_%s" % (nm, v), -I32, I32 - 1)
        elif v == "mass":
            st[v] = ctx.real("%s_%s" % (nm, v), 0, L)
        elif v == "pz":
            st[v] = ctx.real("%s_%s" % (nm, v), 1, L)
        elif v != "energy":
            st[v] = ctx.real("%s_%s" % (nm, v), -L, L)
    return st


def document(st, kind):
    """The MAUS object of a hit."""
    out = {n: {c: st[s + c] for c in "xyz"} for n, s in VECTORS[kind].items()}
    out.update({k: st[v] for k, v in NUMBERS[kind].items()})
    return out


def energy(ctx, st, m):
    c = ctx.const
    return ctx.sqrt(c(st["px"]) * st["px"] + c(st["py"]) * st["py"] + c(st["pz"]) * st["pz"] + c(m) * m)


def reads(ctx, label, h, st, kind, spill, event):
    c = ctx.const
    for v in variables(kind):
        if v not in ("energy",) and not (kind == "primary" and v in ("px", "py", "pz")):
            ctx.eq("%s: %s" % (label, v), h[v], st[v], exact=True)
    ctx.check(label + ": spill", h["spill"] == spill)
    ctx.check(label + ": event", h["event_number"] == event)
    if kind != "primary":
        ctx.eq(label + ": mass shell", c(h["energy"]) * h["energy"], c(h["px"]) * h["px"] + c(h["py"]) * h["py"] + c(h["pz"]) * h["pz"] + c(h["mass"]) * h["mass"], scale=1e7)
        ctx.check(label + ": energy", h["energy"] >= 0)


# ------------------------------------------------------------------------------------------------ reading json
def factory(path, kind):
    import xboa.hit.factory
    f = open(path)
    return f, xboa.hit.factory.MausJsonHitFactory(f, "maus_json_" + kind)


def all_hits(ctx, path, kind, way):
    """Every hit of the file."""
    import xboa.hit
    if way == "bunch":
        return list(Bunch().read_maus_json_file(path, -1, ["maus_json_" + kind]))
    if way == "builtin":
        return Bunch().new_from_read_builtin("maus_json_" + kind, path).hits()
    f, fac = factory(path, kind)
    with f:
        if way == "generator":
            return list(fac.hit_generator())
        out = []
        while True:
            r, h = ctx.outcome(fac.make_hit)
            if r != "ok":
                ctx.check("ends with BadEventError", isinstance(h, xboa.hit.BadEventError))
                return out
            out.append(h)
            if len(out) > 20:
                ctx.check("ends", False)


def spill(kind, number, events):
    """A spill document; events is a list of lists of hits (exactly one for a primary)."""
    return {"maus_event_type": "Spill", "spill_number": number, "mc_events": [{KIND[kind]: document(ev[0], kind)} if kind == "primary" else {KIND[kind]: [document(h, kind) for h in ev]} for ev in events]}


def place(ctx, kind):
    return {"energy": 200.0} if kind == "primary" else {}


@R.each(TYPES, max_paths=50)
def one_hit(ctx, kind):
    """A hit of each type: every variable of the format is read, with the others at their start values."""
    with Json(ctx) as j:
        st = values(ctx, "h", kind, pid=-13 if kind == "primary" else ctx.int("pid", -I32, I32 - 1), **place(ctx, kind))
        if kind == "primary":
            for v in ("px", "py", "pz"):
                ctx.assume(st[v] >= -100)
                ctx.assume(st[v] <= 100)
        n = ctx.int("spill", 0, I32 - 1)
        out = all_hits(ctx, j.write([spill(kind, n, [[st]])]), kind, "make")
        ctx.check("one", len(out) == 1)
        h = out[0]
        reads(ctx, "hit", h, st, kind, n, 0)
        held = set(variables(kind)) | {"energy", "spill", "event_number", "mass", "charge"} | ({"px", "py", "pz"} if kind == "primary" else set())
        new = Hit()()
        for v in DBL + INT:
            if v not in held:
                ctx.check("untouched " + v, h[v] == new[v])


@R.case("primary_shell", max_paths=100, budget=60)
def primary_shell(ctx):
    """A primary has the momentum that follows from its energy and the mass of its particle, in the direction given."""
    c = ctx.const
    with Json(ctx) as j:
        pid = ctx.choice([-13, 11, 211, 2212, 22])
        m = Common().pdg_pid_to_mass[abs(pid)]
        e = ctx.real("energy", m + 1, 2000)
        st = values(ctx, "h", "primary", pid=pid, energy=e)
        h = all_hits(ctx, j.write([spill("primary", 3, [[st]])]), "primary", "make")[0]
        ctx.eq("energy", h["energy"], e, exact=True)
        ctx.check("mass", h["mass"] == m)
        ctx.check("charge", h["charge"] == CHARGE[pid])
        p2 = c(st["px"]) * st["px"] + c(st["py"]) * st["py"] + c(st["pz"]) * st["pz"]
        ctx.eq("momentum", (c(h["px"]) * h["px"] + c(h["py"]) * h["py"] + c(h["pz"]) * h["pz"]) * p2, (c(e) * e - m * m) * p2, scale=1e12)
        ctx.eq("direction x", c(h["px"]) * st["pz"], c(h["pz"]) * st["px"], scale=1e6)
        ctx.eq("direction y", c(h["py"]) * st["pz"], c(h["pz"]) * st["py"], scale=1e6)
        ctx.check("sense", h["pz"] > 0)


@R.case("primary_particle", reach=["known", "unknown"], max_paths=2000, budget=60)
def primary_particle(ctx):
    """Mass and charge of a primary are those of its particle; zero if it is not known."""
    c = Common()
    with Json(ctx) as j:
        ctx.dict_keys(*sorted(set(c.pdg_pid_to_mass) | set(c.pdg_pid_to_charge)))
        pid = ctx.int("pid", -I32, I32 - 1)
        st = values(ctx, "h", "primary", pid=pid, energy=9999.0, x=0.0, y=0.0, z=0.0, t=0.0, px=0.0, py=0.0, pz=1.0)
        h = all_hits(ctx, j.write([spill("primary", 3, [[st]])]), "primary", "make")[0]
        particle(ctx, h, pid)


def particle(ctx, h, pid):
    c = Common()
    ctx.check("pid", h["pid"] == pid)
    for k in CHARGE:
        if pid == k:
            ctx.check("charge", h["charge"] == CHARGE[k])
            ctx.check("mass", h["mass"] == c.pdg_pid_to_mass[abs(k)])
            ctx.reach("known")
            return
    if pid != 0:
        known = False
        for k in MASS:
            if abs(pid) == k:
                known = True
        if not known:
            ctx.check("no mass", h["mass"] == 0)
            ctx.check("no charge", h["charge"] == 0)
            ctx.reach("unknown")


SHAPES = [[[]], [[1]], [[1, 1]], [[2], []], [[1], [2]], [[0], [1]], [[], [1]], [[0, 2], [0], [1]]]
BETWEEN = ["none", "header", "lost", "first", "both"]


@R.each(prod(TYPES, ["make", "generator", "bunch", "builtin"], range(len(SHAPES))), max_paths=200)
def documents(ctx, kind, way, k):
    """Every hit of every event of every spill once, in order; other documents and damaged spills are passed over."""
    _documents(ctx, kind, way, SHAPES[k], ctx.choice(BETWEEN if way == "make" else ["none", "both"]))


def _documents(ctx, kind, way, shape, between):
    with Json(ctx) as j:
        docs, want = [], []
        n = 0
        if between in ("first", "both"):
            docs.append({"maus_event_type": "JobHeader", "start_of_job": {}})
        for s, events in enumerate(shape):
            evs = []
            number = ctx.int("spill%d" % s, 0, I32 - 1) if way != "builtin" else 6 + s
            for e, hits in enumerate(events):
                if kind == "primary":
                    hits = 1
                ev = []
                for i in range(hits):
                    st = values(ctx, "h%d" % n, kind, energy=200.0, px=3.0, py=4.0, pz=100.0, mass=105.0, **({"particle_number": n} if way == "builtin" else {}))
                    n += 1
                    ev.append(st)
                    want.append((st, number, e))
                evs.append(ev)
            docs.append(spill(kind, number, evs))
            if between in ("header", "both"):
                docs.append({"maus_event_type": "RunHeader", "spill_number": 4})
                docs.append({"other": 1})
            if between in ("lost", "both"):
                docs.append({"maus_event_type": "Spill", "spill_number": 5})
                docs.append({"maus_event_type": "Spill", "spill_number": 6, "mc_events": [{"rubbish": 0}]})
        out = all_hits(ctx, j.write(docs), kind, way)
        ctx.check("number", len(out) == len(want))
        for i, (h, (st, number, e)) in enumerate(zip(out, want)):
            reads(ctx, "hit %d" % i, h, st, kind, number, e)


@R.case("all_types", max_paths=50)
def all_types(ctx):
    """Without a list of types, a file gives all hits of all types."""
    with Json(ctx) as j:
        sts = {k: values(ctx, k, k, energy=200.0, px=3.0, py=4.0, pz=100.0, mass=105.0) for k in TYPES}
        ev = {}
        for k in TYPES:
            ev.update(spill(k, 7, [[sts[k]]])["mc_events"][0])
        out = Bunch().read_maus_json_file(j.write([{"maus_event_type": "Spill", "spill_number": 7, "mc_events": [ev]}]))
        ctx.check("number", len(out) == 3)
        for h, k in zip(out, ["virtual_hit", "primary", "special_virtual_hit"]):
            reads(ctx, k, h, sts[k], k, 7, 0)


@R.each(prod([-1, 0, 1, 2, 3, 4, 5], [False, True]), max_paths=200)
def limits(ctx, number, test):
    """number_of_hits counts the hits that pass the test, in all files together."""
    with Json(ctx) as j:
        want = []
        for f in range(2):
            hs = [values(ctx, "h%d" % (2 * f + i), "virtual_hit", px=3.0, py=4.0, pz=100.0, mass=105.0) for i in range(2)]
            want += [(st, 10 + f, 0) for st in hs]
            j.write([spill("virtual_hit", 10 + f, [hs])], "f%d" % f)
        # the order of the files is that of the file system
        out = Bunch().new_from_read_builtin("maus_json_virtual_hit", j.path("f[01]"), (lambda h: h["x"] > 0) if test else None, number).hits()
        import glob
        if [os.path.basename(x) for x in glob.glob(j.path("f[01]"))] == ["f1", "f0"]:
            want = want[2:] + want[:2]
        want = [w for w in want if not test or w[0]["x"] > 0]
        if number >= 0:
            want = want[:number]
        ctx.check("number", len(out) == len(want))
        for i, (h, (st, s, e)) in enumerate(zip(out, want)):
            reads(ctx, "hit %d" % i, h, st, "virtual_hit", s, e)


@R.case("refused")
def refused(ctx):
    import xboa.hit.factory
    with Json(ctx) as j:
        f = open(j.write([]))
        with f:
            for w in ("maus_json_step", "virtual_hit", "", "icool_for009"):
                ctx.raises("format %r" % w, lambda w=w: xboa.hit.factory.MausJsonHitFactory(f, w), exc=KeyError)
        ctx.raises("no such file", lambda: Bunch().new_from_read_builtin("maus_json_primary", j.path("nothing")), exc=IOError)


# ------------------------------------------------------------------------------------------------ writing json
@R.each([1, 2, 3], max_paths=500, budget=60, reach=["back"])
def virtual_there_and_back(ctx, n):
    """Hits written and read: grouped by event and then by particle, both in order of first appearance, each as it was."""
    _virtual_there_and_back(ctx, n, ctx.choice([(4, 4, 4), (4, -5, 4)]) if n > 2 else None)


@R.each([3], tier="thorough", max_paths=2000, budget=600, reach=["back"])
def virtual_there_and_back_free(ctx, n):
    """The same with three hits of any events."""
    _virtual_there_and_back(ctx, n, None)


def _virtual_there_and_back(ctx, n, events):
    with Json(ctx) as j:
        ctx.dict_keys()
        sts, hs = [], []
        for i in range(n):
            st = values(ctx, "h%d" % i, "virtual_hit", px=3.0, py=4.0 + i, pz=100.0, mass=105.0, **(dict.fromkeys(["y", "z"] + [a + b for a in "be" for b in "xyz"], 0.5) if n > 2 else {}))
            st["event_number"] = ctx.int("event%d" % i, -I32, I32 - 1) if events is None else events[i]
            h = Hit()()
            for v, x in st.items():
                h.set(v, x)
            h.mass_shell_condition("energy")
            sts.append(st)
            hs.append((h, stored(h)))
        Hit().write_list_builtin_formatted([h for h, s in hs], "maus_json_virtual_hit", j.path())
        for i, (h, s) in enumerate(hs):
            same(ctx, "hit %d in memory" % i, h, s)
        groups = []  # the spills, each a list of events, each a list of hits
        for st in sts:
            for g in groups:
                if g[0][0]["event_number"] == st["event_number"]:
                    break
            else:
                g = []
                groups.append(g)
            for e in g:
                if e[0]["particle_number"] == st["particle_number"]:
                    break
            else:
                e = []
                g.append(e)
            e.append(st)
        want = [(st, s, e) for s, g in enumerate(groups) for e, ev in enumerate(g) for st in ev]
        out = Bunch().read_maus_json_file(j.path(), -1, ["maus_json_virtual_hit"])
        ctx.check("number", len(out) == len(want))
        for i, (h, (st, s, e)) in enumerate(zip(out, want)):
            reads(ctx, "hit %d" % i, h, st, "virtual_hit", s, e)
        ctx.reach("back")


@R.each([1, 2], max_paths=500, budget=60)
def primary_there_and_back(ctx, n):
    """Primaries of different events, written and read."""
    with Json(ctx) as j:
        ctx.dict_keys()
        sts, hs = [], []
        for i in range(n):
            st = values(ctx, "h%d" % i, "primary", px=0.0, py=0.0, pz=100.0 + i, pid=[-13, 11][i])
            st["mass"] = Common().pdg_pid_to_mass[abs(st["pid"])]
            st["energy"] = (st["pz"] ** 2 + st["mass"] ** 2) ** 0.5
            h = Hit()()
            for v, x in st.items():
                h.set(v, x)
            h.set("event_number", ctx.int("event%d" % i, -I32, I32 - 1))
            hs.append((h, stored(h)))
            sts.append(st)
        if n == 2:
            ctx.assume(hs[0][1]["event_number"] != hs[1][1]["event_number"])
        Hit().write_list_builtin_formatted([h for h, s in hs], "maus_json_primary", j.path())
        for i, (h, s) in enumerate(hs):
            same(ctx, "hit %d in memory" % i, h, s)
        out = Bunch().read_maus_json_file(j.path(), -1, ["maus_json_primary"])
        ctx.check("number", len(out) == n)
        for i, h in enumerate(out):
            reads(ctx, "hit %d" % i, h, sts[i], "primary", i, 0)
            ctx.eq("hit %d pz" % i, h["pz"], sts[i]["pz"])
            ctx.check("hit %d charge" % i, h["charge"] == CHARGE[sts[i]["pid"]])


@R.case("two_primaries", max_paths=50, reach=["refused", "written"])
def two_primaries(ctx):
    """An event has one primary: two of one event and particle are refused."""
    with Json(ctx) as j:
        ctx.dict_keys()
        hs = []
        for i in range(2):
            h = Hit()()
            h.set("event_number", ctx.int("event%d" % i, -5, 5))
            h.set("particle_number", ctx.int("particle%d" % i, -5, 5))
            hs.append(h)
        r, v = ctx.outcome(lambda: Hit().get_maus_tree(hs, "maus_json_primary"))
        if hs[0]["event_number"] == hs[1]["event_number"] and hs[0]["particle_number"] == hs[1]["particle_number"]:
            ctx.check("refused", r != "ok" and isinstance(v, IOError))
            ctx.reach("refused")
        else:
            ctx.check("written", r == "ok")
            ctx.reach("written")


@R.each(["virtual_hit", "primary"], max_paths=50)
def maus_dict(ctx, kind):
    """The MAUS object of a hit holds its values under the names of MAUS, and the hit stays as it was."""
    h, st = full_hit(ctx, "h")
    d, e = h.get_maus_dict("maus_json_" + kind)
    want = document(st, kind)
    ctx.check("names", sorted(d) == sorted(want))
    ctx.check("event", e == st["event_number"])
    for k in want:
        if isinstance(want[k], dict):
            ctx.check("components " + k, sorted(d[k]) == ["x", "y", "z"])
            for c in "xyz":
                ctx.eq("%s %s" % (k, c), d[k][c], want[k][c], exact=True)
        else:
            ctx.eq(k, d[k], want[k], exact=True)
    same(ctx, "hit", h, st)


@R.case("root_is_not_written")
def root_is_not_written(ctx):
    with Json(ctx) as j:
        for w in ("maus_root_virtual_hit", "maus_root_primary", "maus_root_step"):
            ctx.raises("format %r" % w, lambda w=w: Hit().write_list_builtin_formatted([Hit()()], w, j.path()), exc=IOError)
        ctx.check("nothing written", not os.path.exists(j.path()))


# ------------------------------------------------------------------------------------------------ reading ROOT
class Vec:
    def __init__(self, v):
        self.v = v

    def x(self):
        return self.v[0]

    def y(self):
        return self.v[1]

    def z(self):
        return self.v[2]
    X, Y, Z = x, y, z


class Obj:
    """A MAUS object: GetAbc() and abc() give its member Abc; arrays also by GetAbcSize and GetAnAbc."""
    def __init__(self, **members):
        self.__dict__["m"] = members

    def __getattr__(self, n):
        m = self.__dict__["m"]
        if n.startswith("Get") and n[3:] in m:
            return lambda: m[n[3:]]
        if n.startswith("Get") and n.endswith("Size") and n[3:-4] in m:
            return lambda: len(m[n[3:-4]])
        if n in m:
            return lambda: m[n]
        raise AttributeError(n)


class Tree:
    def __init__(self, spills):
        self.spills = spills

    def SetBranchAddress(self, name, data):
        assert name == "data"
        self.data = data
        return 0

    def GetEntries(self):
        return len(self.spills)

    def GetEntry(self, i):
        self.data.spill = self.spills[i]
        return 1


class Data:
    spill = None

    def GetSpill(self):
        return self.spill


class Root:
    """ROOT and MAUS are stand-ins in the modules that read ROOT files."""
    def __init__(self, spills=None):
        import xboa.hit.factory._maus_root_hit_factory as a
        import xboa.hit.factory._maus_root_recon_hit_factory as b
        import xboa.bunch._bunch as c
        import xboa.common.config as config
        root = self

        class File:
            opened = []

            def __init__(self, name, mode="READ"):
                self.name, self.open = name, True
                File.opened.append(self)

            def Get(self, n):
                assert n == "Spill" and self.open
                return Tree(spills)

            def Close(self):
                self.open = False

            def IsZombie(self):
                return False
        self.File = File

        class Ns:
            pass

        ns = Ns()
        ns.MAUS = Ns()
        ns.MAUS.Data = Data
        ns.TFile = File
        ok = lambda: True
        self.patches = [Patched(m, ROOT=ns) for m in (a, b, c)] + [Patched(config, has_maus=ok, has_root=ok)]

    def __enter__(self):
        fresh()
        for p in self.patches:
            p.__enter__()
        return self

    def __exit__(self, *a):
        for p in self.patches:
            p.__exit__()


def vec(st, s):
    return Vec([st[s + c] for c in "xyz"])


def virtual(st):
    return Obj(Position=vec(st, ""), Momentum=vec(st, "p"), BField=vec(st, "b"), EField=vec(st, "e"), ParticleId=st["pid"], StationId=st["station"], TrackId=st["particle_number"], Time=st["t"], Mass=st["mass"],
               Charge=st["charge"], ProperTime=st["proper_time"], PathLength=st["path_length"])


def primary(st):
    return Obj(Position=vec(st, ""), Momentum=vec(st, "p"), ParticleId=st["pid"], Energy=st["energy"], Time=st["t"])


STEP = ["x", "y", "z", "t", "px", "py", "pz", "bx", "by", "bz", "ex", "ey", "ez", "sx", "sy", "sz", "proper_time", "path_length"]


def step(st):
    return Obj(Position=vec(st, ""), Momentum=vec(st, "p"), BField=vec(st, "b"), EField=vec(st, "e"), Spin=vec(st, "s"), Time=st["t"], ProperTime=st["proper_time"], PathLength=st["path_length"])


def mcspill(number, events):
    return Obj(SpillNumber=number, MCEvents=events)


def tree_hits(ctx, spills, fmt, way, test=None, entry=0):
    import xboa.hit, xboa.hit.factory
    with Root(spills) as r:
        if way == "bunch":
            out = Bunch().read_maus_root_file("f", -1, [fmt], test)
            ctx.check("file closed", all(not f.open for f in r.File.opened) and len(r.File.opened) == 1)
            return out
        cls = xboa.hit.factory.MausRootReconHitFactory if "scifi" in fmt else xboa.hit.factory.MausRootHitFactory
        fac = cls(Tree(spills), fmt, entry, test)
        if way == "generator":
            return list(fac.hit_generator())
        out = []
        while len(out) < 20:
            r, h = ctx.outcome(fac.make_hit)
            if r != "ok":
                if not isinstance(h, xboa.hit.BadEventError):
                    raise h
                return out
            out.append(h)
        ctx.check("ends", False)


WAYS = ["make", "generator", "bunch"]


@R.each(prod(WAYS, range(len(SHAPES))), max_paths=50)
def root_virtual(ctx, way, k):
    """Every virtual hit of a ROOT tree once, in order."""
    want, spills, n = [], [], 0
    for s, events in enumerate(SHAPES[k]):
        number = ctx.int("spill%d" % s, 0, I32 - 1)
        evs = []
        for e, hits in enumerate(events):
            sts = []
            for i in range(hits):
                fix = dict(px=3.0, py=4.0, pz=100.0, mass=105.0) if n else {}
                st = values(ctx, "h%d" % n, "virtual_hit", pid=ctx.int("pid%d" % n, -I32, I32 - 1), **fix)
                n += 1
                sts.append(st)
                want.append((st, number, e))
            evs.append(Obj(VirtualHits=[virtual(st) for st in sts]))
        spills.append(mcspill(number, evs))
    out = tree_hits(ctx, spills, "maus_root_virtual_hit", way)
    ctx.check("number", len(out) == len(want))
    for i, (h, (st, s, e)) in enumerate(zip(out, want)):
        reads(ctx, "hit %d" % i, h, st, "virtual_hit", s, e)


@R.each(prod(["make", "bunch"], [0, 1, 2, 3]), max_paths=100)
def root_selected(ctx, way, entry):
    """A test function selects hits; the factory starts at the entry asked for."""
    if way == "bunch" and entry:
        return
    sts = [values(ctx, "h%d" % i, "virtual_hit", px=3.0, py=4.0, pz=100.0, mass=105.0) for i in range(3)]
    spills = [mcspill(i, [Obj(VirtualHits=[virtual(st)])]) for i, st in enumerate(sts)]
    out = tree_hits(ctx, spills, "maus_root_virtual_hit", way, lambda h: h["x"] > 0, entry)
    want = [(st, i) for i, st in enumerate(sts) if i >= entry and st["x"] > 0]
    ctx.check("number", len(out) == len(want))
    for i, (h, (st, s)) in enumerate(zip(out, want)):
        reads(ctx, "hit %d" % i, h, st, "virtual_hit", s, 0)


@R.case("root_primary", reach=["known", "unknown"], max_paths=2000, budget=60)
def root_primary(ctx):
    """Primaries of a ROOT tree have the mass and charge of their particle."""
    c = Common()
    ctx.dict_keys(*sorted(set(c.pdg_pid_to_mass) | set(c.pdg_pid_to_charge)))
    pid = ctx.int("pid", -I32, I32 - 1)
    st = values(ctx, "h", "primary", pid=pid, energy=9999.0, px=0.0, py=0.0, pz=1.0)
    n = ctx.int("spill", 0, I32 - 1)
    out = tree_hits(ctx, [mcspill(n, [Obj(Primary=primary(st))])], "maus_root_primary", "make")
    ctx.check("one", len(out) == 1)
    h = out[0]
    reads(ctx, "primary", h, st, "primary", n, 0)
    ctx.eq("energy", h["energy"], 9999.0)
    particle(ctx, h, pid)


@R.each(WAYS, max_paths=50)
def root_primaries(ctx, way):
    """One primary for each event of each spill, on the mass shell."""
    c = ctx.const
    want, spills = [], []
    for s in range(2):
        evs = []
        for e in range(2):
            st = values(ctx, "h%d%d" % (s, e), "primary", pid=[-13, 2212][e], energy=1500.0, px=3.0, py=-4.0)
            evs.append(Obj(Primary=primary(st)))
            want.append((st, 8 + s, e))
        spills.append(mcspill(8 + s, evs))
    out = tree_hits(ctx, spills, "maus_root_primary", way)
    ctx.check("number", len(out) == 4)
    for i, (h, (st, s, e)) in enumerate(zip(out, want)):
        reads(ctx, "hit %d" % i, h, st, "primary", s, e)
        p2 = c(st["pz"]) * st["pz"] + 25
        m = Common().pdg_pid_to_mass[abs(st["pid"])]
        ctx.eq("hit %d momentum" % i, (c(h["px"]) * h["px"] + c(h["py"]) * h["py"] + c(h["pz"]) * h["pz"]) * p2, (1500.0 ** 2 - m * m) * p2, scale=1e12)
        ctx.eq("hit %d direction" % i, c(h["px"]) * st["pz"], c(h["pz"]) * 3, scale=1e6)


@R.each(WAYS, max_paths=50)
def root_steps(ctx, way):
    """Every step of every track: its number is the station, the particle that of the track."""
    want, events = [], []
    n = 0
    for e, tracks in enumerate([[2, 1], [], [0, 1]]):
        ts = []
        for steps in tracks:
            track = ctx.int("track%d" % n, -I32, I32 - 1)
            pid = [13, -211][steps % 2]
            ss = []
            for k in range(steps):
                st = {v: ctx.real("h%d_%s" % (n, v), -L, L) if v not in ("px", "py", "pz") else 3.0 + n for v in STEP}
                n += 1
                st.update(station=k, particle_number=track, pid=pid, charge=CHARGE[pid], mass=Common().pdg_pid_to_mass[abs(pid)], spill=11, event_number=e)
                ss.append(step(st))
                want.append(st)
            ts.append(Obj(ParticleId=pid, TrackId=track, Steps=ss))
        events.append(Obj(Tracks=ts))
    out = tree_hits(ctx, [mcspill(11, events)], "maus_root_step", way)
    ctx.check("number", len(out) == len(want))
    for i, (h, st) in enumerate(zip(out, want)):
        same(ctx, "hit %d" % i, h, st)
        ctx.eq("hit %d energy" % i, h["energy"], (3 * st["px"] ** 2 + st["mass"] ** 2) ** 0.5)


# ------------------------------------------------------------------------------------------------ trackpoints
def trackpoint(st):
    return Obj(tracker=st["tracker"], station=st["st"], plane=st["plane"], pos=vec(st, ""), mom=vec(st, "p"))


def sp(times):
    return [Obj(Time=t) for t in times]


def tof(points=((), ()), slabs=((), ()), digits=((), ())):
    return Obj(TOFEventSpacePoint=Obj(TOF0SpacePointArray=[Obj(Time=t) for t in points[0]], TOF1SpacePointArray=[Obj(Time=t) for t in points[1]]),
               TOFEventSlabHit=Obj(TOF0SlabHitArray=[Obj(RawTime=t) for t in slabs[0]], TOF1SlabHitArray=[Obj(RawTime=t) for t in slabs[1]]),
               TOFEventDigit=Obj(TOF0DigitArray=[Obj(LeadingTime=t) for t in digits[0]], TOF1DigitArray=[Obj(LeadingTime=t) for t in digits[1]]))


def point(ctx, nm, **fix):
    st = {v: ctx.real("%s_%s" % (nm, v), -L, L) for v in ("x", "y", "z", "px", "py", "pz")}
    st.update(tracker=0, st=1, plane=0)
    st.update(fix)
    return st


def recon(events):
    return Obj(SpillNumber=21, ReconEvents=[Obj(SciFiEvent=Obj(scifitracks=tracks), TOFEvent=t) for tracks, t in events])


def track(points, p=1.0):
    return Obj(P_value=p, scifitrackpoints=[trackpoint(q) for q in points])


def point_is(ctx, label, h, st, event, trk, t=None):
    for v in ("x", "y", "z", "px", "py", "pz"):
        ctx.eq("%s: %s" % (label, v), h[v], st[v], exact=True)
    ctx.check(label + ": station", h["station"] == 90000 + 100 * st["tracker"] + 10 * st["st"] + st["plane"])
    ctx.check(label + ": spill, event and track", h["spill"] == 21 and h["event_number"] == event and h["particle_number"] == trk)
    if t is not None:
        ctx.eq(label + ": time", h["t"], t)


@R.case("trackpoint_station", reach=["good", "bad"], max_paths=200)
def trackpoint_station(ctx):
    """The station of a trackpoint numbers tracker, station and plane; numbers out of range are refused."""
    tr, st, pl = (ctx.int(n, -I32, I32 - 1) for n in ("tracker", "station", "plane"))
    q = point(ctx, "q", tracker=tr, st=st, plane=pl)
    r, out = ctx.outcome(lambda: tree_hits(ctx, [recon([([track([q])], tof())])], "maus_root_scifi_trackpoint", "make"))
    if tr >= 0 and tr < 10 and st >= 0 and st < 10 and pl >= 0 and pl < 10:
        ctx.check("read", r == "ok" and len(out) == 1)
        point_is(ctx, "point", out[0], q, 0, 0)
        ctx.reach("good")
    elif tr < 0 or tr > 10 or st < 0 or st > 10 or pl < 0 or pl > 10:
        ctx.check("refused", r != "ok" and isinstance(out, ValueError))
        ctx.reach("bad")


@R.each(prod(WAYS, [False, True]), max_paths=50)
def trackpoints(ctx, way, select):
    """Every trackpoint of every track of every event once, in order."""
    want, events = [], []
    n = 0
    for e, tracks in enumerate([[2, 1], [], [0, 1]]):
        ts = []
        for k, pts in enumerate(tracks):
            qs = [point(ctx, "q%d" % (n + i), plane=i) for i in range(pts)]
            n += pts
            ts.append(track(qs))
            want += [(q, e, k) for q in qs]
        events.append((ts, tof()))
    out = tree_hits(ctx, [recon(events[:2]), recon(events[2:])], "maus_root_scifi_trackpoint", way, (lambda h: h["x"] > 0) if select else None)
    want = [(q, e if e < 2 else 0, k) for q, e, k in want if not select or q["x"] > 0]
    ctx.check("number", len(out) == len(want))
    for i, (h, w) in enumerate(zip(out, want)):
        point_is(ctx, "point %d" % i, h, *w)


@R.case("p_value", reach=["kept", "cut"], max_paths=50)
def p_value(ctx):
    """A track whose p value is below the cut gives no trackpoints."""
    import xboa.hit.factory
    p, cut = ctx.real("p", 0, 1), ctx.real("cut", -1, 1)
    q = [point(ctx, "q%d" % i) for i in range(2)]
    with Patched(xboa.hit.factory.MausRootReconHitFactory, sf_p_value_cut=cut):
        out = tree_hits(ctx, [recon([([track(q[:1], p), track(q[1:], 1.0)], tof())])], "maus_root_scifi_trackpoint", "make")
    if cut > 0 and p < cut:
        ctx.check("cut", len(out) == 1)
        point_is(ctx, "second", out[0], q[1], 0, 1)
        ctx.reach("cut")
    else:
        ctx.check("kept", len(out) == 2)
        point_is(ctx, "first", out[0], q[0], 0, 0)
        point_is(ctx, "second", out[1], q[1], 0, 1)
        ctx.reach("kept")


@R.each(prod([0, 1, 2], [0, 1, 2], ["points", "slabs", "digits"]), max_paths=50)
def times(ctx, n0, n1, where):
    """With times of flight: the difference of the first space points, else of the mean slab times, else of the mean digit times; events without are left out."""
    t0, t1 = ([ctx.real("t%d_%d" % (k, i), -L, L) for i in range(n)] for k, n in ((0, n0), (1, n1)))
    q = [point(ctx, "q%d" % i, plane=i) for i in range(3)]
    late = {"points": dict(slabs=((1.0,), (2.0,)), digits=((1.0,), (9.0,))), "slabs": dict(points=((), (1.0,)), digits=((1.0,), (9.0,))), "digits": dict(points=((5.0,), ()), slabs=((), (3.0,)))}[where]
    late[where] = (t0, t1)
    full = tof(points=((1.0,), (33.0,)))
    out = tree_hits(ctx, [recon([([track(q[:2])], tof(**late)), ([], full), ([track(q[2:])], full)])], "maus_root_scifi_and_tof", "make")
    if n0 and n1:
        dt = ctx.const(t1[0]) - t0[0] if where == "points" else sum(t1) / n1 - sum(t0) / n0
    else:
        dt = {"points": 1.0, "slabs": 8.0, "digits": None}[where]
    want = ([(q[0], 0, 0, dt), (q[1], 0, 0, dt)] if dt is not None else []) + [(q[2], 2, 0, 32.0)]
    ctx.check("number", len(out) == len(want))
    for i, (h, w) in enumerate(zip(out, want)):
        point_is(ctx, "point %d" % i, h, *w)


@R.case("root_refused")
def root_refused(ctx):
    import xboa.hit.factory
    f = xboa.hit.factory
    with Root([]):
        for cls, w in ((f.MausRootHitFactory, "maus_root_scifi_trackpoint"), (f.MausRootHitFactory, "primary"), (f.MausRootReconHitFactory, "maus_root_primary"), (f.MausRootReconHitFactory, "")):
            ctx.raises("format %r" % w, lambda: cls(Tree([]), w), exc=KeyError)
    for fmt in ("maus_root_primary", "maus_root_virtual_hit", "maus_root_step", "maus_root_scifi_trackpoint"):
        ctx.check("empty", tree_hits(ctx, [], fmt, "make") == [])


@R.each([-1, 0, 1, 2, 3, 4], max_paths=50)
def root_limits(ctx, number):
    """A limit on the number of hits takes the first ones."""
    sts = [values(ctx, "h%d" % i, "virtual_hit", px=3.0, py=4.0, pz=100.0, mass=105.0) for i in range(3)]
    spills = [mcspill(i, [Obj(VirtualHits=[virtual(st) for st in s])]) for i, s in enumerate([sts[:2], sts[2:]])]
    with Root(spills):
        out = Bunch().read_maus_root_file("f", number, ["maus_root_virtual_hit"])
    want = sts if number < 0 else sts[:number]
    ctx.check("number", len(out) == len(want))
    for i, (h, st) in enumerate(zip(out, want)):
        reads(ctx, "hit %d" % i, h, st, "virtual_hit", i // 2, 0)
