"""C28: particle tables, units and constants."""
from engine.harness import Registry
from props.lib import *
R = Registry("C28")
R.bounds = {"particle numbers": "every 32-bit integer, in every table", "units": "every unit of the table, any real amount in +-10^6", "hits": "any mass in +-10^6, any 32-bit particle type, momenta and energies in +-1000"}
R.assumptions = ["masses are those of the Particle Data Group to 0.05% (the code uses atomic masses for light nuclei)", "the numbering of ICOOL is that of its manual, that of MARS the list in the comment of the source"]

# name: pdg number, charge, mass, own antiparticle
P = {"e-": (11, -1, 0.5109989), "nue": (12, 0, 0.), "mu-": (13, -1, 105.658375), "num": (14, 0, 0.), "gamma": (22, 0, 0.), "pi0": (111, 0, 134.9768), "pi+": (211, 1, 139.57039), "K+": (321, 1, 493.677),
     "n": (2112, 0, 939.56542), "p": (2212, 1, 938.27209), "d": (1000010020, 1, 1875.613), "t": (1000010030, 1, 2808.921), "He3": (1000020030, 2, 2808.391), "He4": (1000020040, 2, 3727.379),
     "K0L": (130, 0, 497.611), "K0S": (310, 0, 497.611), "K0": (311, 0, 497.611), "lambda": (3122, 0, 1115.683)}
SELF = {"gamma", "pi0", "K0L", "K0S"}
NUCLEI = {"d", "t", "He3", "He4"}
MASS = {p[0]: p[2] for p in P.values()}
CHARGE = {}
for n, p in P.items():
    CHARGE[p[0]] = p[1]
    if n not in SELF and n not in NUCLEI:
        CHARGE[-p[0]] = -p[1]
ICOOL = {1: -11, 2: -13, 3: 211, 4: 321, 5: 2212}
ICOOL.update({-k: -v for k, v in ICOOL.items()})
MARS = {}
for i, nm in enumerate("2212 2112 211 -211 321 -321 -13 13 22 11 -11 -2212 111 1000010020 1000010030 1000020030 1000020040 14 -14 12 -12 130 310 311 -311 3122 -3122 s s s -2112 s s s s s s s s s".split()):
    MARS[i + 1] = 0 if nm == "s" else int(nm)
UNKNOWN = 0


def look(ctx, table, k):
    """('ok', value) or the name of the exception."""
    return ctx.outcome(lambda: table[k])


def number(ctx, *tables):
    """Any integer, that may be a key of the tables."""
    keys = set()
    for t in tables:
        keys |= set(t) | {-k for k in t} | {v for v in t.values() if isinstance(v, int) and not isinstance(v, bool)}
    ctx.dict_keys(*sorted(keys))
    return ctx.int("pid", -I32, I32 - 1)


def among(ctx, p, keys):
    """The key that p is (a fork for each), or None."""
    for k in keys:
        if p == k:
            return k
    return None


for nm, tab, known in (("icool", "icool_pid_to_pdg", ICOOL), ("mars", "mars_pid_to_pdg", MARS)):
    def f(ctx, tab=tab, known=known, nm=nm):
        """Every number of the other code stands for the particle of its list; a number it does not define is an error (0 is no particle)."""
        t = getattr(Common(), tab)
        p = number(ctx, t)
        ok, v = look(ctx, t, p)
        k = among(ctx, p, known)
        if k is not None:
            ctx.check("known", ok == "ok")
            ctx.check("particle", ok == "ok" and v == known[k])
            ctx.reach("known")
        elif p == 0:
            ctx.check("none", ok != "ok" or v == 0)
        else:
            ctx.check("unknown", ok != "ok" and isinstance(v, KeyError))
            ctx.reach("unknown")
    R.case("numbers_of_%s" % nm, reach=["known", "unknown"], max_paths=2000, budget=60)(f)

    def g(ctx, tab=tab, known=known, nm=nm):
        """Particle to the other code's number and back is the identity, and there is such a number exactly for the particles that the other code has."""
        there, back = getattr(Common(), "pdg_pid_to_" + nm), getattr(Common(), tab)
        p = number(ctx, there, back)
        ok, v = look(ctx, there, p)
        if p == 0:
            return
        k = among(ctx, p, [q for q in known.values() if q])
        if k is None:
            ctx.check("unknown", ok != "ok" and isinstance(v, KeyError))
        else:
            ctx.check("defined", ok == "ok")
            if ok == "ok":
                ctx.check("back", back[v] == p)
                ctx.reach("back")
    R.case("there_and_back_%s" % nm, reach=["back"], max_paths=2000, budget=60)(g)


@R.case("mass", reach=["known", "unknown"], max_paths=2000)
def mass(ctx):
    """The table of masses has every particle under its own number, with its mass, and nothing else."""
    t = Common().pdg_pid_to_mass
    p = number(ctx, t, MASS)
    ok, v = look(ctx, t, p)
    k = among(ctx, p, MASS)
    if k is not None:
        ctx.check("known", ok == "ok")
        ctx.check("mass", ok == "ok" and abs(v - MASS[k]) <= 0.0005 * MASS[k])
        ctx.reach("known")
    elif p != 0:
        ctx.check("unknown", ok != "ok" and isinstance(v, KeyError))
        ctx.reach("unknown")


@R.case("charge", reach=["known", "unknown", "pair"], max_paths=4000)
def charge(ctx):
    """Particles have their charge, antiparticles the opposite one, and both have a name, each its own."""
    t, names, masses = Common().pdg_pid_to_charge, Common().pdg_pid_to_name, Common().pdg_pid_to_mass
    p = number(ctx, t, CHARGE, names, masses)
    ok, v = look(ctx, t, p)
    k = among(ctx, p, CHARGE)
    if k is not None:
        ctx.check("known", ok == "ok")
        ctx.check("charge", ok == "ok" and v == CHARGE[k])
        ctx.check("mass", look(ctx, masses, abs(p))[0] == "ok")
        ok, n = look(ctx, names, p)
        ctx.check("name", ok == "ok" and isinstance(n, str) and n != "" and [q for q in names if names[q] == n] == [k])
        ctx.reach("known")
        if -k in CHARGE:
            ctx.check("pair", t[-p] == -v)
            ctx.reach("pair")
    elif p != 0:
        ctx.check("unknown", ok != "ok" and isinstance(v, KeyError))
        ctx.reach("unknown")


@R.case("muon1", max_paths=100)
def muon1(ctx):
    c = Common()
    p = number(ctx, c.pdg_pid_to_muon1)
    ok, v = look(ctx, c.pdg_pid_to_muon1, p)
    if ok == "ok":
        ctx.check("back", c.muon1_pid_to_pdg[v] == p)
        ctx.check("muon", p == -13 and v == "mu+")
    else:
        ctx.check("only the muon", p != -13)


# ------------------------------------------------------------------------------------------------ units
BASE = {"m": 1e3, "eV": 1e-6, "eV/c": 1e-6, "eV/c2": 1e-6, "s": 1e9, "T": 1e-3, "V": 1e-6, "Hz": 1e-9, "V/m": 1e-9, "W": 6.24150974e3}
PREFIX = {"mu": 1e-6, "m": 1e-3, "c": 1e-2, "k": 1e3, "M": 1e6, "G": 1e9, "T": 1e12, "n": 1e-9, "": 1}
PI = 3.14159265358979
OTHER = {"": 1, "Gauss": 1e-7, "GV/mm": 1e3, "degrees": PI / 180, "deg": PI / 180, "degree": PI / 180, "radians": 1, "rad": 1, "radian": 1, "echarge": 1, "Coulomb": 6.24150974e18}
UNITS = dict(OTHER)
for w in "mum mm cm m km ns mus ms s eV keV MeV GeV TeV eV/c keV/c MeV/c GeV/c TeV/c eV/c2 keV/c2 MeV/c2 GeV/c2 TeV/c2 mT T kT V kV MV GV kHz MHz GHz V/m GV/m kW MW GW".split():
    for pre in sorted(PREFIX, key=len, reverse=True):
        if w.startswith(pre) and w[len(pre):] in BASE and w not in UNITS:
            UNITS[w] = PREFIX[pre] * BASE[w[len(pre):]]


@R.each(sorted(UNITS), max_paths=50)
def unit(ctx, w):
    """An amount in a unit is that multiple of the base unit, and comes back by division."""
    u = Common().units
    ctx.check("defined", w in u)
    x = ctx.real("x", -BIG, BIG)
    ctx.eq("amount", x * u[w], x * UNITS[w], scale=BIG * UNITS[w] * 1e2)
    ctx.eq("exactly", u[w], UNITS[w], scale=UNITS[w] * 10)
    ctx.eq("back", x * u[w] / u[w], x)
    ctx.check("positive", u[w] > 0)


@R.case("unknown_units")
def unknown_units(ctx):
    u = Common().units
    for w in ("furlong", "MEV", " mm", "mm ", "gev", "Mev/c", "M", "/c"):
        ctx.raises("unknown %r" % w, lambda w=w: u[w], exc=KeyError)
    ctx.check("no others", sorted(u) == sorted(UNITS))
    c = Common().constants
    ctx.check("constants", abs(c["c_light"] - 299.792458) < 1e-9 and abs(c["pi"] - PI) < 1e-7 and c["echarge"] == 1)


@R.case("light", max_paths=50)
def light(ctx):
    """The speed of light is that of the units: so ct is t in millimetres, and 'm/s' follow."""
    c = Common()
    t = ctx.real("t", -BIG, BIG)
    h = Hit()()
    h.set("t", t)
    ctx.eq("ct", h.get("ct"), t * 299.792458, scale=BIG * 300)
    ctx.eq("metres per second", t * c.constants["c_light"] * c.units["s"] / c.units["m"], t * 299792458.0, scale=BIG * 3e8)


# ------------------------------------------------------------------------------------------------ Hit.check
@R.case("check_mass", reach=["good", "bad", "unknown"], max_paths=4000, budget=60)
def check_mass(ctx):
    """Hit.check refuses a mass that is not that of the particle, and a particle that it does not know."""
    c = Common()
    p = number(ctx, c.pdg_pid_to_mass, MASS)
    m = ctx.real("mass", 0, BIG)
    h = Hit()()
    h.set("pid", p)
    h.set("mass", m)
    h.set("energy", m)
    v = h.check()
    k = among(ctx, abs(p), [0] + list(MASS))
    if k is None:
        ctx.check("unknown", not v)
        ctx.reach("unknown")
    else:
        d = abs(m - c.pdg_pid_to_mass[k])
        if d > 0.001:
            ctx.check("refused", not v)
            ctx.reach("bad")
        elif d < 0.0009:
            ctx.check("accepted", v is True)
            ctx.reach("good")


@R.each({"accept": 0, "more": 1, "less": -1}, max_paths=200)
def check_shell(ctx, off):
    """Hit.check refuses a hit off the mass shell by more than the rounding to whole MeV^2."""
    m = 105.6583668
    h = Hit()()
    pz = ctx.real("pz", -1000, 1000)
    e2 = pz * pz + m * m
    if off:
        d = ctx.real("d", 2, 1000)
        e2 = e2 + off * d
    st = {"pid": ctx.choice([13, -13]), "mass": m, "pz": pz, "energy": ctx.sqrt(e2)}
    for n, x in st.items():
        h.set(n, x)
    ctx.check("accepted" if not off else "refused", h.check() is (not off))
