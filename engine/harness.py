"""Contexts in which a harness runs: symbolic (every value at once) and concrete (one recorded assignment, on the real build)."""
import math, os, sys, time, json, traceback
from fractions import Fraction

TOL_SYM = Fraction(1, 10 ** 5)
TOL_CON = 1e-6


class Case:
    def __init__(self, pid, name, fn, tier, kw, funcs):
        self.pid, self.name, self.fn, self.tier, self.kw, self.funcs = pid, name, fn, tier, kw, funcs


class Registry:
    def __init__(self, pid):
        self.pid, self.cases = pid, []
        self.assumptions, self.bounds, self.encodes = [], {}, []
        self.needs_core = True
        self.setup = None

    def case(self, name=None, tier="quick", **kw):
        """tier: 'quick' runs in both tiers, 'thorough' only in the thorough one.  max_paths and budget bound the exploration."""
        def d(f):
            self.cases.append(Case(self.pid, name or f.__name__, f, tier, kw, None))
            return f
        return d

    def each(self, params, tier="quick", **kw):
        """One case per element of params (label -> args, or a list); the harness receives ctx, *args."""
        def d(f):
            items = params.items() if isinstance(params, dict) else [("_".join(str(x) for x in (p if isinstance(p, tuple) else (p,))), p if isinstance(p, tuple) else (p,)) for p in params]
            for lab, a in items:
                a = a if isinstance(a, tuple) else (a,)
                self.cases.append(Case(self.pid, f.__name__ + "[" + lab + "]", (lambda ctx, f=f, a=a: f(ctx, *a)), tier, kw, None))
            return f
        return d


class CheckFailed(BaseException):
    pass


class Base:
    def eqs(self, label, a, b, **k):
        """Element by element equality of two (nested) lists."""
        if isinstance(b, (list, tuple)) or getattr(b, "shape", ()) != ():
            a, b = list(a), list(b)
            self.check(label + ": length", len(a) == len(b))
            for i, (x, y) in enumerate(zip(a, b)):
                self.eqs("%s[%d]" % (label, i), x, y, **k)
        else:
            self.eq(label, a, b, **k)

    def outcome(self, f, *a, **k):
        """('ok', value) or ('raise', exception)."""
        try:
            return "ok", f(*a, **k)
        except Exception as e:
            return "raise", e

    def raises(self, label, f, *a, exc=Exception, **k):
        try:
            f(*a, **k)
        except exc:
            self.check(label, True)
            return True
        except Exception as e:
            self.check(label + " (raised %s)" % type(e).__name__, False)
            return False
        self.check(label, False)
        return False

    def fail(self, label):
        self.check(label, False)


class SymCtx(Base):
    sym = True

    def __init__(self, run):
        from . import sx, shim
        self.sx, self.run = sx, run
        self.E = sx.E
        self.m = shim.symmath
        self.np = shim.symnumpy

    # inputs
    def real(self, name, lo=None, hi=None, ne=None):
        import z3
        v = z3.Real(name)
        self.E.inputs[name] = ("real", v)
        if lo is not None:
            self.E.add(v >= z3.RealVal(Fraction(lo)))
        if hi is not None:
            self.E.add(v <= z3.RealVal(Fraction(hi)))
        if ne is not None:
            self.E.add(v != z3.RealVal(Fraction(ne)))
        return self.sx.SymReal(v)

    def int(self, name, lo, hi):
        import z3
        v = z3.Int(name)
        self.E.inputs[name] = ("int", v)
        self.E.add(v >= lo)
        self.E.add(v <= hi)
        return self.sx.SymInt(v) if lo < hi else lo

    def choice(self, options):
        options = list(options)
        i = self.E.choose(len(options))
        self.E.choices.append(i)
        return options[i]

    def bool(self):
        return self.choice([False, True])

    def assume(self, c):
        self.E.assume(c)

    def sqrt(self, x):
        return self.m.sqrt(x)

    def eig(self, m, d, v):
        """Announce m = v diag(d) v^T (rows of symbolic numbers) as a decomposition numpy.linalg.eigh(m) may return."""
        import numpy
        self.E.eigs.append(([list(r) for r in numpy.asarray(m)], d, v))

    def const(self, x):
        """A number as an exact symbolic value, for oracles that must stay in exact arithmetic."""
        return self.sx.coerce(x)

    def check(self, label, cond):
        sx = self.sx
        run = self.run
        if sx.E.poison is not None:
            raise sx.E.poison
        run.nchecks += 1
        run.labels.add(label)
        if isinstance(cond, sx.SymBool):
            run.nsym += 1
            self._query(label, sx.z3.Not(cond.t), None)
        elif not cond:
            run.candidate(label, [])
            raise sx.PathEnd("check failed on this whole path")

    def _query(self, label, neg, margin):
        sx, run = self.sx, self.run
        r = run.decide_query(neg)
        if r == "unsat":
            return
        if margin is not None:
            r2 = run.decide_query(margin)
            if r2 == "unsat":
                run.within_tolerance += 1
                return
            if r2 == "sat":
                r, neg = r2, margin
        if r == "sat":
            run.candidate(label, [neg])
        else:
            run.incomplete("the solver could not decide: " + label)
        # go on with the values that satisfy it
        sx.E.assume(sx.z3.Not(neg))

    def eq(self, label, a, b, scale=None, exact=False):
        sx, run = self.sx, self.run
        z3 = sx.z3
        if sx.E.poison is not None:
            raise sx.E.poison
        a0, b0 = a, b
        a, b = sx.coerce(a), sx.coerce(b)
        run.labels.add(label)
        if a is None or b is None:
            if a is None and b is None:
                return self.check(label, a0 == b0)
            return self.check(label + " (types)", False)
        if a.__class__ is float or b.__class__ is float:
            return self.check(label, a.__class__ is float and b.__class__ is float and (a == b or a != a and b != b))
        run.nchecks += 1
        run.observe(label, a)
        ca, cb = a.const(), b.const()
        if ca is not None and cb is not None:
            if abs(ca - cb) > (0 if exact else TOL_SYM * (1 + abs(cb)) * Fraction(scale or 1)):
                run.candidate(label, [])
                raise sx.PathEnd("check failed on this whole path")
            return
        run.nsym += 1
        c = a == b
        if c is True:
            run.structural += 1
            run.decide_query(z3.BoolVal(False))
            return
        d = a - b
        neg = z3.Not(c.t) if c is not False else z3.BoolVal(True)
        if exact:
            self._query(label, neg, None)
            return
        t = z3.simplify(sx.canon(d.n), som=True)
        if z3.is_rational_value(t) and t.numerator_as_long() == 0:
            run.structural += 1
            return
        tol = (abs_term(sx, b) + 1) * z3.RealVal(TOL_SYM * Fraction(scale or 1))
        dd = d.z()
        margin = z3.Or(dd > tol, -dd > tol)
        self._query(label, neg, margin)

    def le(self, label, a, b):
        self.check(label, a <= b)

    def lt(self, label, a, b):
        self.check(label, a < b)

    def no_leak(self, label, f):
        """f, repeated, leaves no more allocated blocks behind."""
        import gc
        br = self.sx.E.bridge
        f()
        f()
        gc.collect()
        n = len(br.mem.live)
        f()
        gc.collect()
        if self.sx.E.poison is not None:
            raise self.sx.E.poison
        self.run.nchecks += 1
        self.run.labels.add(label)
        if len(br.mem.live) > n:
            self.run.candidate(label, [])
            raise self.sx.PathEnd("check failed on this whole path")

    def dict_keys(self, *known):
        """From here on symbolic numbers may be dictionary keys: each is the same key as another symbolic one, or as one of the known constants, or a key of its own.
        Other constants in the same dictionary are not compared with it."""
        self.E.dict_keys = list(known)

    def reach(self, tag):
        self.run.reached[tag] = self.run.reached.get(tag, 0) + 1


def abs_term(sx, x):
    t = x.z()
    return sx.z3.If(t >= 0, t, -t)


class ConCtx(Base):
    """Concrete run with recorded inputs."""
    sym = False

    def __init__(self, inputs, choices):
        self.inputs, self.choices = dict(inputs), list(choices)
        self.failed, self.obs = [], []
        self.m = math
        import numpy
        self.np = numpy

    def real(self, name, lo=None, hi=None, ne=None):
        v = self.inputs.get(name)
        if v is None:
            v = lo if lo is not None else hi if hi is not None else 0.0
            if ne is not None and v == ne:
                v = v + 1.0
        return float(v)

    def int(self, name, lo, hi):
        return int(self.inputs.get(name, lo))

    def choice(self, options):
        options = list(options)
        if not self.choices:
            return options[0]
        return options[self.choices.pop(0)]

    def bool(self):
        return self.choice([False, True])

    def assume(self, c):
        if not c:
            raise CheckFailed("assumption")

    def sqrt(self, x):
        return math.sqrt(x)

    def eig(self, m, d, v):
        pass

    def const(self, x):
        return x

    def check(self, label, cond):
        if not cond:
            self.failed.append(label)
            raise CheckFailed(label)

    def eq(self, label, a, b, scale=None, exact=False):
        if exact:
            self.obs.append((label, float(a) if isinstance(a, (int, float)) else None))
            ok = a == b
        elif isinstance(a, (int, float)) and isinstance(b, (int, float)) or hasattr(a, "dtype") or hasattr(b, "dtype"):
            self.obs.append((label, float(a) if not isinstance(a, complex) else None))
            a, b = float(a), float(b)
            if a != a or b != b:
                ok = a != a and b != b
            elif math.isinf(a) or math.isinf(b):
                ok = a == b
            else:
                ok = abs(a - b) <= TOL_CON * (1 + abs(b)) * (scale or 1)
        else:
            ok = a == b
        if not ok:
            self.failed.append(label)
            raise CheckFailed(label)

    def le(self, label, a, b):
        self.check(label, a <= b + TOL_CON * (1 + abs(b)))

    def lt(self, label, a, b):
        self.check(label, a < b + TOL_CON * (1 + abs(b)))

    def no_leak(self, label, f):
        import ctypes, gc, sys

        class M(ctypes.Structure):
            _fields_ = [(n, ctypes.c_size_t) for n in "arena ordblks smblks hblks hblkhd usmblks fsmblks uordblks fordblks keepcost".split()]
        mi = ctypes.CDLL(None).mallinfo2
        mi.restype = M

        def used():
            gc.collect()
            return mi().uordblks, sys.getallocatedblocks()
        for i in range(50):
            f()
        m0, b0 = used()
        for i in range(400):
            f()
        m1, b1 = used()
        self.check(label, m1 - m0 < 400 * 12 and b1 - b0 < 300)

    def reach(self, tag):
        pass

    def dict_keys(self, *known):
        pass


def run_concrete(case, inputs, choices):
    """Result dictionary of one concrete run."""
    c = ConCtx(inputs, choices)
    out = {"failed": [], "exc": None, "assumption": False}
    try:
        case.fn(c)
    except CheckFailed as e:
        if not c.failed:
            out["assumption"] = True
    except Exception as e:
        out["exc"] = "%s: %s" % (type(e).__name__, str(e)[:300])
        out["tb"] = traceback.format_exc()[-1500:]
    out["failed"] = c.failed
    out["obs"] = [(l, v) for l, v in c.obs[:200]]
    return out


# ------------------------------------------------------------------------------------------------ symbolic run of a case
class Run:
    def __init__(self, case, budget, max_paths, cvc=True):
        from . import sx
        self.sx, self.case = sx, case
        self.nchecks = self.nsym = self.structural = self.within_tolerance = 0
        self.labels, self.reached = set(), {}
        self.cands, self.incs, self.wits = [], [], []
        self.n_done = self.n_end = self.n_raise = self.n_crash = 0
        self.budget, self.max_paths = budget, max_paths
        self.hard_timeout = int(case.kw.get("solver_timeout", 20000))
        self.exc_types = {}
        self.t_first = None
        self.max_wits = case.kw.get("witnesses", 3)

    def observe(self, label, a):
        if len(self.obs) < 60:
            self.obs.append((label, a))

    def incomplete(self, msg):
        if len(self.incs) < 20:
            self.incs.append(msg)

    def decide_query(self, neg):
        """unsat / sat / unknown for the path with neg, with a portfolio for hard queries."""
        E, z3 = self.sx.E, self.sx.z3
        if E._cached(neg):
            E.stats.queries += 1
            return "sat"
        r = E.check([neg], timeout=min(4000, self.hard_timeout))
        if r == z3.unknown:
            r = self.portfolio(neg)
        return str(r)

    def portfolio(self, neg):
        E, z3 = self.sx.E, self.sx.z3
        t0 = time.time()
        for tac in ("qfnra-nlsat", "smt"):
            try:
                s = z3.Then(z3.With("simplify", som=True), "solve-eqs", "purify-arith", tac).solver() if tac != "smt" else z3.SolverFor("QF_NRA")
                s.set("timeout", self.hard_timeout)
                s.add(*E.pc)
                s.add(neg)
                r = s.check()
            except z3.Z3Exception:
                continue
            E.stats.queries += 1
            if r != z3.unknown:
                E.stats.solver_time += time.time() - t0
                return r
        r = cvc5_check(E.pc + [neg], self.hard_timeout)
        E.stats.queries += 1
        E.stats.solver_time += time.time() - t0
        return {"unsat": z3.unsat, "sat": z3.sat}.get(r, z3.unknown)

    # -- counterexamples
    def model_inputs(self, extra, timeout=3000, diverse=False):
        """Inputs, preferably simple numbers (diverse: different ones), that satisfy the path and extra."""
        E, z3 = self.sx.E, self.sx.z3
        if diverse:
            pref = []
            for i, (name, (kind, v)) in enumerate(E.inputs.items()):
                k = (7 * i) % 23 + 1
                pref.append(v == (k if kind == "int" else z3.RealVal(Fraction(2 * k + 1, 8) * (-1 if i % 3 == 1 else 1))))
            got, t_end = [], time.time() + timeout / 1000.0

            def sat(c):
                s = z3.Solver()
                s.set("timeout", 300)
                s.add(*E.pc)
                s.add(*extra)
                s.add(*c)
                return s if s.check() == z3.sat else None

            def grow(p):
                nonlocal got, extra_ok
                if not p or time.time() > t_end:
                    return
                s = sat(got + p)
                if s is not None:
                    got = got + p
                    extra_ok = s
                elif len(p) > 1:
                    grow(p[:len(p) // 2])
                    grow(p[len(p) // 2:])
            extra_ok = None
            grow(pref)
            if extra_ok is not None:
                extra = list(extra) + got
        s = z3.Solver()
        s.set("timeout", 4000)
        s.add(*E.pc)
        s.add(*extra)
        if s.check() != z3.sat:
            s = z3.Then("simplify", "purify-arith", "qfnra-nlsat").solver()
            s.set("timeout", self.hard_timeout)
            s.add(*E.pc)
            s.add(*extra)
            try:
                if s.check() != z3.sat:
                    return None
            except z3.Z3Exception:
                return None
            return self.values(s.model())
        m = s.model()
        t_end = time.time() + timeout / 1000.0
        s.set("timeout", 400)
        for name, (kind, v) in E.inputs.items():
            if time.time() > t_end:
                break
            val = m.eval(v, model_completion=True)
            if kind == "int":
                s.add(v == val)
                continue
            f = num(val)
            done = False
            for g in (Fraction(round(f)), Fraction(round(f * 4), 4), Fraction(round(f * 64), 64), Fraction(round(f * 2 ** 20), 2 ** 20)):
                if z3.is_rational_value(val) and Fraction(val.numerator_as_long(), val.denominator_as_long()) == g:
                    s.add(v == val)
                    done = True
                    break
                s.push()
                s.add(v == z3.RealVal(g))
                if s.check() == z3.sat:
                    m = s.model()
                    done = True
                    break
                s.pop()
            if not done and z3.is_rational_value(val):
                s.add(v == val)
        return self.values(m)

    def values(self, m):
        E = self.sx.E
        out = {}
        for name, (kind, v) in E.inputs.items():
            val = m.eval(v, model_completion=True)
            out[name] = val.as_long() if kind == "int" else float(num(val))
        self.last_model = m
        return out

    def candidate(self, label, extra):
        E = self.sx.E
        if sum(1 for c in self.cands if c["label"] == label) >= 3 or len(self.cands) >= 12:
            return
        inp = self.model_inputs(extra)
        if inp is None:
            if not E.maybe_infeasible or extra:
                self.incomplete("no model for the failing check: " + label)
            elif E.maybe_infeasible:
                self.incomplete("path feasibility unknown at failing check: " + label)
            return
        self.cands.append({"case": self.case.name, "label": label, "inputs": inp, "choices": list(E.choices)})

    def on_end(self, kind, payload):
        E = self.sx.E
        if kind == "done":
            self.n_done += 1
            if len(self.wits) < self.max_wits and (self.n_done & (self.n_done - 1)) == 0 or self.n_done in (3, 7, 20):
                self.witness()
        elif kind == "end":
            self.n_end += 1
        elif kind == "crash":
            self.n_crash += 1
            self.labels.add("no crash")
            self.candidate("crash: %s" % payload, [])
        elif kind == "raise":
            self.n_raise += 1
            tb = traceback.extract_tb(payload.__traceback__)
            where = "; ".join("%s:%d" % (os.path.basename(f.filename), f.lineno) for f in tb[-3:])
            self.exc_types[type(payload).__name__] = "%s (%s)" % (payload, where)
            self.candidate("exception %s" % type(payload).__name__, [])
            if self.cands:
                self.cands[-1].setdefault("detail", "%s at %s" % (payload, where))
        elif kind == "incomplete":
            msg = "%s: %s" % (type(payload).__name__ if not isinstance(payload, str) else "bound", payload)
            if not isinstance(payload, str) and payload.__traceback__ is not None:
                tb = traceback.extract_tb(payload.__traceback__)
                msg += " at " + "; ".join("%s:%d" % (os.path.basename(f.filename), f.lineno) for f in tb[-4:])
            self.incomplete(msg)
        self.obs = []
        if self.cands and self.t_first is None:
            self.t_first = time.time()
            E.deadline = min(E.deadline, self.t_first + 20)
        return len(self.cands) >= 8 or len(self.incs) >= 12

    def witness(self):
        E = self.sx.E
        inp = self.model_inputs([], timeout=1000, diverse=True)
        if inp is None:
            return
        obs = []
        for l, a in self.obs:
            try:
                if self.sx.has_uf(a.z()):      # the model's exp or atan2 is not the real one
                    obs.append((l, None))
                    continue
                v = self.last_model.eval(a.z(), model_completion=True)
                f = num(v)
                obs.append((l, float(f)))
            except Exception:
                obs.append((l, None))
        self.wits.append({"case": self.case.name, "inputs": inp, "choices": list(E.choices), "obs": obs})

    def go(self):
        sx = self.sx
        E = sx.E
        E.reset_run_keep_hooks()
        E.max_paths = self.max_paths
        t0 = time.time()
        E.deadline = t0 + self.budget
        self.obs = []

        def body():
            self.obs = []
            self.case.fn(SymCtx(self))
        try:
            E.explore(body, self.on_end)
        except BaseException as e:
            if isinstance(e, KeyboardInterrupt):
                raise
            self.incomplete("engine: %s: %s %s" % (type(e).__name__, e, traceback.format_exc()[-800:]))
        st = E.stats
        return dict(case=self.case.name, cands=self.cands, incs=self.incs, wits=self.wits, paths=st.paths, decisions=st.decisions,
                    infeasible=self.n_end, queries=st.queries, solver_time=st.solver_time, checks=self.nchecks, symbolic_checks=self.nsym,
                    structural=self.structural, tolerance=self.within_tolerance, reached=self.reached, labels=sorted(self.labels),
                    raised=self.exc_types, unknown_feas=st.unknown_feas, wall=time.time() - t0, done=self.n_done)


def num(v):
    import z3
    if z3.is_rational_value(v):
        return Fraction(v.numerator_as_long(), v.denominator_as_long())
    if z3.is_int_value(v):
        return Fraction(v.as_long())
    if z3.is_algebraic_value(v):
        a = v.approx(30)
        return Fraction(a.numerator_as_long(), a.denominator_as_long())
    raise ValueError("no numeric value")


def cvc5_check(terms, timeout):
    import subprocess, z3, tempfile
    s = z3.Solver()
    s.add(*terms)
    txt = "(set-logic ALL)\n" + s.to_smt2().replace("(set-info :status unknown)", "")
    f = tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False)
    f.write(txt)
    f.close()
    try:
        r = subprocess.run(["cvc5", "--tlimit=%d" % timeout, f.name], capture_output=True, text=True, timeout=timeout / 1000 + 5)
        o = r.stdout.strip().split("\n")[0]
        return o if o in ("sat", "unsat") else "unknown"
    except (subprocess.TimeoutExpired, OSError):
        return "unknown"
    finally:
        os.unlink(f.name)
