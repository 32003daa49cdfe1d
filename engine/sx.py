"""Symbolic values and path exploration.

A harness runs as ordinary Python over SymReal/SymInt/SymBool values.  Converting a SymBool to a bool is a decision: the engine asks
the solver which outcomes are feasible under the path condition and explores them all by re-executing the harness with recorded
decisions.  Reals stand for floats, machine integers are mathematical integers wrapped where the width can be exceeded.
"""
import os, sys, math, time, itertools
from fractions import Fraction
import z3


FORKS = os.environ.get("VERIF_FORKS")  # print where paths split


class Signal(BaseException):
    """Ends the current path.  Remembered by the engine, so that code under test that catches everything cannot hide it."""
    def __init__(self, *a):
        BaseException.__init__(self, *a)
        if E.poison is None:
            E.poison = self


class PathEnd(Signal):
    """The current path is infeasible or assumed away."""


class Incomplete(Signal):
    """Something could not be explored exhaustively."""


class Unsupported(Incomplete):
    """The virtual machine met something it cannot encode."""


class Crash(Signal):
    """Memory error, abort or uncaught C++ exception in the modelled process."""


INF = float("inf")


class Stats:
    def __init__(self):
        self.paths = self.decisions = self.queries = 0
        self.solver_time = 0.0
        self.unknown_feas = 0


class Engine:
    def __init__(self):
        self.reset_run()
        self.feas_timeout = 4000
        self.active = False
        self.aborting = False
        self.tokens = None
        self.poison = None

    # ------------------------------------------------------------ run control
    def reset_run(self):
        self.stats = Stats()
        self.work = [[]]
        self.max_paths = 20000
        self.deadline = None
        self.hooks_start = []

    def reset_run_keep_hooks(self):
        h = self.hooks_start
        self.reset_run()
        self.hooks_start = h

    def start_path(self, prefix):
        self.prefix = prefix
        self.trace = []
        self.pc = []
        self.pc_ids = set()
        self.nfresh = 0
        self.roots = {}
        self.eigs = []
        self.facts = []
        self.fact_cache = {}
        self.fp_cache = {}
        self.ufs = {}
        self.keep = []
        self.aborting = False
        self.inputs = {}
        self.solver = None
        self.pos = 0
        self.model_cache = []
        self.known = {}
        self.choices = []
        self.maybe_infeasible = False
        self.poison = None
        self.dict_keys = None
        self.hashed = []
        for h in self.hooks_start:
            h()

    def hash_of(self, x):
        """Hash of a symbolic number used as a dictionary key (ctx.dict_keys): that of the known key it equals, or one of its own."""
        for y, h in self.hashed:
            if y is x or bool(y == x):
                return h
        for k in self.dict_keys:
            if bool(x == k):
                h = hash(k)
                break
        else:
            h = (1 << 40) + 977 * len(self.hashed)
        self.hashed.append((x, h))
        return h

    def explore(self, body, on_end):
        """Run body() over all paths; on_end(kind, payload) is called when one completes: kind is done, end (infeasible), crash, raise
        (an exception of the code left the body) or incomplete."""
        self.work = [[]]
        while self.work:
            if self.stats.paths >= self.max_paths:
                on_end("incomplete", "more than %d paths" % self.max_paths)
                return
            if self.deadline and time.time() > self.deadline:
                on_end("incomplete", "time limit reached with %d prefixes unexplored" % len(self.work))
                return
            prefix = self.work.pop()
            self.start_path(prefix)
            self.active = True
            kind, payload = "done", None
            try:
                try:
                    body()
                except Signal:
                    pass
                except Exception as e:
                    kind, payload = "raise", e
                if self.poison is not None:
                    e, kind = self.poison, None
                    kind = "end" if isinstance(e, PathEnd) else "crash" if isinstance(e, Crash) else "incomplete"
                    payload = e
            finally:
                self.aborting = True
            self.stats.paths += kind in ("done", "crash", "raise")
            stop = on_end(kind, payload)
            self.poison = None
            self.active = False
            if stop:
                return

    # ------------------------------------------------------------ constraints
    def add(self, t):
        if z3.is_true(t):
            return
        i = t.get_id()
        if i in self.pc_ids:
            return
        self.pc_ids.add(i)
        self.pc.append(t)
        self._fact(t)

    def assume(self, cond):
        c = cond.t if isinstance(cond, SymBool) else cond
        if c is True or c is False:
            if not c:
                raise PathEnd("assumption false")
            return
        c = z3.simplify(c)
        if z3.is_false(c):
            raise PathEnd("assumption false")
        self.add(c)

    def check(self, extra, timeout=None):
        """sat/unsat/unknown of the path condition with extra."""
        s = z3.Solver()
        s.set("timeout", timeout or self.feas_timeout)
        s.add(*self.pc)
        s.add(*extra)
        t0 = time.time()
        r = s.check()
        self.stats.queries += 1
        self.stats.solver_time += time.time() - t0
        if r == z3.sat:
            try:
                m = s.model()
                self.model_cache.append((len(self.pc), m))
                del self.model_cache[:-6]
            except z3.Z3Exception:
                pass
        return r

    def _cached(self, t):
        """A model seen earlier on this path that still satisfies the path and t."""
        for npc, m in reversed(self.model_cache):
            try:
                if z3.is_true(m.eval(t, model_completion=True)) and all(
                        z3.is_true(m.eval(c, model_completion=True)) for c in self.pc[npc:]):
                    return True
            except z3.Z3Exception:
                pass
        return False

    def feasible(self, t):
        if self._cached(t):
            return True
        r = self.check([t])
        if r == z3.unknown:
            self.stats.unknown_feas += 1
            self.maybe_infeasible = True
            return True
        return r == z3.sat

    def decide(self, t):
        t = z3.simplify(t)
        if z3.is_true(t):
            return True
        if z3.is_false(t):
            return False
        i = t.get_id()
        k = self.known.get(i)
        if k is not None:
            return k[1]
        if self.poison is not None:
            raise self.poison
        if not self.active:
            raise Incomplete("decision outside a path")
        v = self._by_sign(t)
        if v is not None:
            self.keep.append(t)
            self.known[i] = (t, v)
            return v
        if self.pos < len(self.prefix):
            v = self.prefix[self.pos]
        else:
            if self.deadline and time.time() > self.deadline:
                raise Incomplete("time limit reached")
            nt = z3.Not(t)
            a = self.feasible(t)
            b = self.feasible(nt) if a else True
            if a and b:
                v = True
                self.work.append(self.trace + [False])
                if FORKS:
                    import traceback
                    print("FORK", str(t)[:200].replace("\n", " "), [os.path.basename(f.filename) + ":%d" % f.lineno for f in traceback.extract_stack()[-12:-2]])
            else:
                v = a
        self.pos += 1
        self.trace.append(v)
        self.stats.decisions += 1
        self.add(t if v else z3.simplify(z3.Not(t)))
        self.keep.append(t)
        self.known[i] = (t, v)
        return v

    def choose(self, n):
        """Nondeterministic choice of 0..n-1 (all explored)."""
        if n <= 0:
            raise PathEnd("empty choice")
        if self.pos < len(self.prefix):
            v = self.prefix[self.pos]
        else:
            v = 0
            for k in range(n - 1, 0, -1):
                self.work.append(self.trace + [k])
        self.pos += 1
        self.trace.append(v)
        self.stats.decisions += n > 1
        return v

    def concretize(self, t, what="integer", limit=64):
        """Fork over every feasible value of the integer term t."""
        t = z3.simplify(t)
        if z3.is_int_value(t):
            return t.as_long()
        n = 0
        while True:
            if self.pos < len(self.prefix):
                v = self.prefix[self.pos]
                self.pos += 1
                self.trace.append(v)
                val, take = v
            else:
                s = z3.Solver()
                s.set("timeout", self.feas_timeout)
                s.add(*self.pc)
                t0 = time.time()
                r = s.check()
                self.stats.queries += 1
                self.stats.solver_time += time.time() - t0
                if r == z3.unsat:
                    raise PathEnd("infeasible")
                if r != z3.sat:
                    raise Incomplete("cannot enumerate values of an integer (solver: unknown)")
                val = s.model().eval(t, model_completion=True).as_long()
                take = True
                if self.check([t != val]) != z3.unsat:
                    n += 1
                    self.work.append(self.trace + [(val, False)])
                self.pos += 1
                self.trace.append((val, True))
            self.stats.decisions += 1
            if take:
                self.add(t == val)
                return val
            n += 1
            if n > limit:
                raise Incomplete("an integer used as %s has more than %d values" % (what, limit))
            self.add(z3.simplify(t != val))

    def fresh(self, name, sort="real"):
        self.nfresh += 1
        nm = "%s!%d" % (name, self.nfresh)
        return z3.Real(nm) if sort == "real" else z3.Int(nm)

    def uf(self, name, *args):
        f = self.ufs.get((name, len(args)))
        if f is None:
            f = z3.Function(name, *([z3.RealSort()] * (len(args) + 1)))
            self.ufs[(name, len(args))] = f
        return f(*args)


E = Engine()


# ------------------------------------------------------------------------------------------------ term helpers
def is_c(x):
    return x.__class__ is Fraction


def rt(x):
    """z3 term of a Fraction or term."""
    if x.__class__ is Fraction:
        return z3.RealVal(x)
    return x


def madd(a, b):
    if is_c(a):
        if is_c(b):
            return a + b
        if a == 0:
            return b
    elif is_c(b) and b == 0:
        return a
    return rt(a) + rt(b)


def msub(a, b):
    if is_c(b):
        if is_c(a):
            return a - b
        if b == 0:
            return a
    elif is_c(a) and a == 0:
        return -b
    elif not is_c(a) and a.eq(b):
        return Fraction(0)
    return rt(a) - rt(b)


def mmul(a, b):
    if is_c(a):
        if is_c(b):
            return a * b
        if a == 0:
            return a
        if a == 1:
            return b
        if a == -1:
            return -b
    elif is_c(b):
        if b == 0:
            return b
        if b == 1:
            return a
        if b == -1:
            return -a
    return rt(a) * rt(b)


ONE, ZERO = Fraction(1), Fraction(0)


def zb(x):
    return x.t if isinstance(x, SymBool) else z3.BoolVal(bool(x))


def mkbool(t):
    if t is True or t is False:
        return t
    t = z3.simplify(t)
    if z3.is_true(t):
        return True
    if z3.is_false(t):
        return False
    return SymBool(t)


class SymBool:
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    def __bool__(self):
        return E.decide(self.t)

    def __and__(self, o):
        return mkbool(z3.And(self.t, zb(o)))
    __rand__ = __and__

    def __or__(self, o):
        return mkbool(z3.Or(self.t, zb(o)))
    __ror__ = __or__

    def __xor__(self, o):
        return mkbool(z3.Xor(self.t, zb(o)))
    __rxor__ = __xor__

    def __invert__(self):
        return mkbool(z3.Not(self.t))

    def __eq__(self, o):
        if isinstance(o, (SymBool, bool)):
            return mkbool(self.t == zb(o))
        return SymInt(z3.If(self.t, z3.IntVal(1), z3.IntVal(0))) == o

    def __ne__(self, o):
        r = self.__eq__(o)
        return (not r) if isinstance(r, bool) else ~r

    def _int(self):
        return SymInt(z3.If(self.t, z3.IntVal(1), z3.IntVal(0)))

    def __add__(self, o):
        return self._int() + o
    __radd__ = __add__

    def __mul__(self, o):
        return self._int() * o
    __rmul__ = __mul__

    def __hash__(self):
        return hash(bool(self))

    def __deepcopy__(self, memo):
        return self

    def __repr__(self):
        return "<symbool>"


class Complexish:
    """A complex result: arithmetic keeps it, ordering and conversion to float fail as for complex numbers."""
    def _r(self, *a):
        return self
    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __truediv__ = __rtruediv__ = __neg__ = __pow__ = _r

    def __float__(self):
        raise TypeError("float() argument must be a string or a real number, not 'complex'")

    def __int__(self):
        raise TypeError("int() argument must be a string, a bytes-like object or a real number, not 'complex'")

    def _cmp(self, o):
        raise TypeError("'<' not supported between instances of 'complex' and 'float'")
    __lt__ = __le__ = __gt__ = __ge__ = _cmp

    def __abs__(self):
        raise Incomplete("modulus of a complex number")

    def __eq__(self, o):
        return False
    __hash__ = None


def to_frac(x):
    return Fraction(x)


def coerce(x):
    """SymReal of a number, or a non-finite float, or None."""
    c = x.__class__
    if c is SymReal:
        return x
    if c is float:
        if x != x or x in (INF, -INF):
            return x
        return SymReal(Fraction(x))
    if c is int or c is bool:
        return SymReal(Fraction(int(x)))
    if c is SymInt:
        return SymReal(z3.ToReal(x.t))
    if c is Fraction:
        return SymReal(x)
    if c is SymBool:
        return coerce(x._int())
    try:
        import numpy
        if isinstance(x, numpy.generic) and not isinstance(x, numpy.object_):
            if isinstance(x, (numpy.floating,)):
                return coerce(float(x))
            if isinstance(x, (numpy.integer, numpy.bool_)):
                return coerce(int(x))
        if isinstance(x, float):
            return coerce(float(x))
        if isinstance(x, int):
            return coerce(int(x))
    except ImportError:
        pass
    return None


def is_arr(x):
    return hasattr(x, "__array_interface__") or type(x).__module__ == "numpy" and hasattr(x, "shape") and getattr(x, "shape", ()) != ()


class SymReal:
    __slots__ = ("n", "d", "dp")
    __array_priority__ = 0

    def __init__(self, n, d=None, dp=False):
        # value n/d; d is None for 1; dp: d known positive on this path
        self.n, self.d, self.dp = n, d, dp

    # -- structure
    def den(self):
        return ONE if self.d is None else self.d

    def z(self):
        if self.d is None:
            return rt(self.n)
        return rt(self.n) / rt(self.d)

    def const(self):
        return self.n if self.d is None and is_c(self.n) else None

    # -- arithmetic
    def _add(self, o, sgn):
        if self.d is None and o.d is None:
            return SymReal(madd(self.n, o.n) if sgn > 0 else msub(self.n, o.n))
        if self.d is not None and o.d is not None and (self.d is o.d or (not is_c(self.d) and not is_c(o.d) and self.d.eq(o.d))):
            return SymReal(madd(self.n, o.n) if sgn > 0 else msub(self.n, o.n), self.d, self.dp or o.dp)
        a, b = self.den(), o.den()
        x, y = mmul(self.n, b), mmul(o.n, a)
        return SymReal(madd(x, y) if sgn > 0 else msub(x, y), mmul(a, b),
                       (self.d is None or self.dp) and (o.d is None or o.dp))

    def __add__(self, o):
        c = coerce(o)
        if c is None:
            return SymComplex(self, 0.0).__add__(o) if isinstance(o, complex) else NotImplemented
        if c.__class__ is float:
            return c
        return self._add(c, 1)
    __radd__ = __add__

    def __sub__(self, o):
        c = coerce(o)
        if c is None:
            return SymComplex(self, 0.0).__sub__(o) if isinstance(o, complex) else NotImplemented
        if c.__class__ is float:
            return -c
        return self._add(c, -1)

    def __rsub__(self, o):
        c = coerce(o)
        if c is None:
            return SymComplex(self, 0.0).__rsub__(o) if isinstance(o, complex) else NotImplemented
        if c.__class__ is float:
            return c
        return c._add(self, -1)

    def __mul__(self, o):
        c = coerce(o)
        if c is None:
            return SymComplex(self, 0.0).__mul__(o) if isinstance(o, complex) else NotImplemented
        if c.__class__ is float:
            return self._mulinf(c)
        if self.d is None and c.d is None:
            return SymReal(mmul(self.n, c.n))
        # cheap cancellation
        if self.d is not None and c.d is None and not is_c(self.d) and not is_c(c.n) and self.d.eq(c.n):
            return SymReal(self.n)
        if c.d is not None and self.d is None and not is_c(c.d) and not is_c(self.n) and c.d.eq(self.n):
            return SymReal(c.n)
        return SymReal(mmul(self.n, c.n), mmul(self.den(), c.den()), (self.d is None or self.dp) and (c.d is None or c.dp))
    __rmul__ = __mul__

    def _mulinf(self, f):
        if f != f:
            return f
        if self > 0:
            return f
        if self < 0:
            return -f
        return float("nan")

    def inv(self):
        """1/self, self known non-zero."""
        if self.d is None:
            if is_c(self.n):
                return SymReal(1 / self.n)
            return SymReal(ONE, self.n, E.known_pos(self.n))
        if is_c(self.n):
            return SymReal(mmul(self.d, 1 / self.n))
        return SymReal(self.d, self.n, E.known_pos(self.n))

    def __truediv__(self, o):
        c = coerce(o)
        if c is None:
            return SymComplex(self, 0.0).__truediv__(o) if isinstance(o, complex) else NotImplemented
        if c.__class__ is float:
            return float("nan") if c != c else 0.0
        if c == 0:
            raise ZeroDivisionError("float division by zero")
        if self.d is None and is_c(self.n) and self.n == 0:
            return SymReal(Fraction(0))
        return self * c.inv()

    def __rtruediv__(self, o):
        c = coerce(o)
        if c is None:
            return SymComplex(self, 0.0).__rtruediv__(o) if isinstance(o, complex) else NotImplemented
        if self == 0:
            raise ZeroDivisionError("float division by zero")
        if c.__class__ is float:
            return self._mulinf(c)
        if c.d is None and is_c(c.n) and c.n == 0:
            return SymReal(Fraction(0))
        return c * self.inv()

    def __floordiv__(self, o):
        return fl(self / o)

    def __rfloordiv__(self, o):
        return fl(o / self)

    def __mod__(self, o):
        c = coerce(o)
        if c is None:
            return NotImplemented
        q = fl(self / c)
        return self - q * c

    def __rmod__(self, o):
        c = coerce(o)
        q = fl(c / self)
        return c - q * self

    def __divmod__(self, o):
        q = fl(self / o)
        return q, self - q * o

    def __neg__(self):
        return SymReal(mmul(Fraction(-1), self.n), self.d, self.dp)

    def __pos__(self):
        return self

    def __abs__(self):
        return self if self >= 0 else -self

    def __pow__(self, k, mod=None):
        if isinstance(k, SymReal):
            c = k.const()
            if c is None:
                return symfun("pow", self, k)
            k = c
        if isinstance(k, SymInt):
            k = int(k)
        k = Fraction(k) if not isinstance(k, int) else k
        if isinstance(k, Fraction) and k.denominator == 1:
            k = int(k)
        if isinstance(k, int):
            if k == 0:
                return 1.0
            if k < 0:
                if self == 0:
                    raise ZeroDivisionError("0.0 cannot be raised to a negative power")
                return self.inv() ** (-k)
            r = self
            for _ in range(k - 1):
                r = r * self
            return r
        k = k.limit_denominator(64)
        m = k.denominator
        if self < 0:
            return Complexish()
        r = root(self, m)
        return r ** k.numerator

    def __rpow__(self, o):
        c = self.const()
        if c is not None:
            return coerce(o) ** c
        return symfun("pow", coerce(o), self)

    def sqrt(self):
        # numpy object arrays call this
        if self < 0:
            return float("nan")
        return root(self, 2)

    def conjugate(self):
        return self

    # -- comparison
    def _cmp(self, o, op):
        c = coerce(o)
        if c is None:
            return NotImplemented
        if c.__class__ is float:
            if c != c:
                return op == "ne"
            pos = c > 0
            return {"lt": pos, "le": pos, "gt": not pos, "ge": not pos, "eq": False, "ne": True}[op]
        if op in ("eq", "ne"):
            if self.d is not None and c.const() == 0:
                l, r = self.n, ZERO
            elif c.d is not None and self.const() == 0:
                l, r = c.n, ZERO
            else:
                l, r = mmul(self.n, c.den()), mmul(c.n, self.den())
            if is_c(l) and is_c(r):
                return (l == r) if op == "eq" else (l != r)
            t = rt(l) == rt(r)
            return mkbool(t if op == "eq" else z3.Not(t))
        x = self._add(c, -1)
        if x.d is not None and not x.dp:
            n = mmul(x.n, x.d)
        else:
            n = x.n
        if is_c(n):
            return {"lt": n < 0, "le": n <= 0, "gt": n > 0, "ge": n >= 0}[op]
        if x.d is None:
            l, r = rt(self.n), rt(c.n)
        else:
            l, r = n, z3.RealVal(0)
        return mkbool({"lt": l < r, "le": l <= r, "gt": l > r, "ge": l >= r}[op])

    def __lt__(self, o):
        return self._cmp(o, "lt")

    def __le__(self, o):
        return self._cmp(o, "le")

    def __gt__(self, o):
        return self._cmp(o, "gt")

    def __ge__(self, o):
        return self._cmp(o, "ge")

    def __eq__(self, o):
        if o is None or isinstance(o, (str, list, dict, tuple)):
            return False
        return self._cmp(o, "eq")

    def __ne__(self, o):
        if o is None or isinstance(o, (str, list, dict, tuple)):
            return True
        return self._cmp(o, "ne")

    def __bool__(self):
        return bool(self != 0)

    def __hash__(self):
        if E.dict_keys is not None:
            return E.hash_of(self)
        raise Incomplete("hash of a symbolic real")

    def __float__(self):
        c = self.const()
        if c is not None:
            return float(c)
        raise Incomplete("a symbolic real reached float()")

    def __int__(self):
        return int(trunc(self))

    def __trunc__(self):
        return trunc(self)

    def __floor__(self):
        return fl(self)

    def __ceil__(self):
        return -fl(-self)

    def __round__(self, nd=None):
        return rnd(self, nd)

    def is_integer(self):
        return fl(self) == self

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return 0.0

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __repr__(self):
        return token(self)
    __str__ = __repr__

    def __format__(self, spec):
        return token(self, spec)

    # numpy object-array ufunc methods
    def cos(self):
        return symfun("cos", self)

    def sin(self):
        return symfun("sin", self)

    def exp(self):
        return symfun("exp", self)

    def log(self):
        return symfun("log", self)

    def arctan2(self, o):
        return atan2(self, coerce(o))


# ---- signs that follow from a fact of the path by multiplication: p = k q1 q2 with q1, q2 known positive and k a number.  Candidates are
# found by evaluation modulo a prime, and accepted only when the difference of the two polynomials simplifies to zero.
PRIME = 2 ** 61 - 1


def _fp(self, t, k):
    """Value of a term at the k-th pseudo-random point, modulo PRIME; None where it has none."""
    cache = self.fp_cache.setdefault(k, {})
    stack = [t]
    while stack:
        x = stack[-1]
        i = x.get_id()
        if i in cache:
            stack.pop()
            continue
        if z3.is_rational_value(x) or z3.is_int_value(x):
            f = x.as_fraction() if z3.is_rational_value(x) else Fraction(x.as_long())
            cache[i] = (x, f.numerator * pow(f.denominator, PRIME - 2, PRIME) % PRIME)
            stack.pop()
            continue
        kind = x.decl().kind()
        if kind in (z3.Z3_OP_ADD, z3.Z3_OP_MUL, z3.Z3_OP_SUB, z3.Z3_OP_UMINUS, z3.Z3_OP_DIV, z3.Z3_OP_POWER):
            todo = [c for c in x.children() if c.get_id() not in cache]
            if todo:
                stack += todo
                continue
            v = [cache[c.get_id()][1] for c in x.children()]
            if any(a is None for a in v):
                r = None
            elif kind == z3.Z3_OP_ADD:
                r = sum(v) % PRIME
            elif kind == z3.Z3_OP_MUL:
                r = 1
                for a in v:
                    r = r * a % PRIME
            elif kind == z3.Z3_OP_SUB:
                r = (v[0] - sum(v[1:])) % PRIME
            elif kind == z3.Z3_OP_UMINUS:
                r = -v[0] % PRIME
            elif kind == z3.Z3_OP_DIV:
                r = v[0] * pow(v[1], PRIME - 2, PRIME) % PRIME if v[1] else None
            else:
                e = x.arg(1)
                r = pow(v[0], e.as_long(), PRIME) if (z3.is_int_value(e) or z3.is_rational_value(e) and e.denominator_as_long() == 1) and e.as_fraction() >= 0 else None
        else:
            import hashlib
            key = str(x.decl().name()) if x.num_args() == 0 else "%s#%d" % (x.decl().name(), i)
            r = int.from_bytes(hashlib.sha256(("%d %s" % (k, key)).encode()).digest()[:7], "big")
        cache[i] = (x, r)
        stack.pop()
    return cache[t.get_id()][1]


def _split(t):
    """t as (polynomial, relation with 0, constant on the right)."""
    neg = False
    while z3.is_not(t):
        t, neg = t.arg(0), not neg
    k = t.decl().kind()
    if k not in (z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_LT, z3.Z3_OP_GT, z3.Z3_OP_EQ) or t.num_args() != 2 or not z3.is_real(t.arg(0)):
        return None
    rel = {z3.Z3_OP_LE: "le", z3.Z3_OP_GE: "ge", z3.Z3_OP_LT: "lt", z3.Z3_OP_GT: "gt", z3.Z3_OP_EQ: "eq"}[k]
    a, b = t.arg(0), t.arg(1)
    if z3.is_rational_value(a) and not z3.is_rational_value(b):
        a, b, rel = b, a, {"le": "ge", "ge": "le", "lt": "gt", "gt": "lt", "eq": "eq"}[rel]
    if neg:
        rel = {"le": "gt", "ge": "lt", "lt": "ge", "gt": "le", "eq": "ne"}[rel]
    if not z3.is_rational_value(b):
        a, b = a - b, z3.RealVal(0)
    return a, rel, b.as_fraction()


def _size(t, lim):
    seen, st, n = set(), [t], 0
    while st and n < lim:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        n += 1
        st += x.children()
    return n


def _fact(self, t):
    f = _split(t)
    if f is None:
        return
    p, rel, c = f
    s = 1 if (rel == "ge" and c > 0) or (rel == "gt" and c >= 0) else -1 if (rel == "le" and c < 0) or (rel == "lt" and c <= 0) else 0
    if s and len(self.facts) < 400:
        self.facts.append([s, p, None, t])


def _sign_of(self, p):
    """1 or -1 if the sign of p follows from one or two facts of the path, else None."""
    key = p.get_id()
    hit = self.fact_cache.get(key)
    if hit is not None and hit[1] == len(self.facts):
        return hit[2]
    res = None
    a = _fp(self, p, 0), _fp(self, p, 1)
    if a[0] and a[1]:
        fs = []
        for f in self.facts:
            if f[2] is None:
                f[2] = _fp(self, f[1], 0), _fp(self, f[1], 1)
            if f[2][0] and f[2][1]:
                fs.append(f)

        def ratio(x, y):
            k0 = x[0] * pow(y[0], PRIME - 2, PRIME) % PRIME
            k1 = x[1] * pow(y[1], PRIME - 2, PRIME) % PRIME
            return k0 if k0 == k1 else None

        def number(k):
            """Small fraction n/d equal to k modulo PRIME."""
            r0, r1, s0, s1 = PRIME, k, 0, 1
            while r1 > 2 ** 30:
                q = r0 // r1
                r0, r1, s0, s1 = r1, r0 - q * r1, s1, s0 - q * s1
            return Fraction(r1, s1) if s1 else None

        def confirm(q, s):
            k = ratio(a, q_fp(q))
            if k is None:
                return None
            k = number(k)
            if not k:
                return None
            prod = z3.RealVal(k)
            for f in q:
                prod = prod * f[1]
            d = z3.simplify(p - prod, som=True)
            if z3.is_rational_value(d) and d.as_fraction() == 0:
                return s if k > 0 else -s
            return None

        def q_fp(q):
            x, y = 1, 1
            for f in q:
                x, y = x * f[2][0] % PRIME, y * f[2][1] % PRIME
            return x, y
        big = [f for f in fs if f[1].num_args() > 0]
        for q in [[f] for f in fs] + [[f, g] for f in big for g in fs] + [[f, f, f] for f in fs]:
            s = 1
            for f in q:
                s *= f[0]
            k = ratio(a, q_fp(q))
            if k is not None:
                res = confirm(q, s)
                if res is not None:
                    break
    self.fact_cache[key] = (p, len(self.facts), res)
    return res


def _by_sign(self, t):
    f = _split(t)
    if f is None:
        return None
    p, rel, c = f
    if c != 0 or p.num_args() == 0:
        return None
    s = _sign_of(self, p)
    if s is None:
        return None
    return {"le": s < 0, "lt": s < 0, "ge": s > 0, "gt": s > 0, "eq": False, "ne": True}[rel]


Engine._fact = _fact
Engine._by_sign = _by_sign


def _known_pos(self, n):
    t = z3.simplify(rt(n) > 0)
    if z3.is_true(t):
        return True
    k = self.known.get(t.get_id())
    if k:
        return k[1]
    return not is_c(n) and _sign_of(self, rt(n)) == 1


Engine.known_pos = _known_pos


# -------------------------------------------------------------------------------------------- integers
class SymInt:
    """Unbounded integer."""
    __slots__ = ("t",)
    __array_priority__ = 0

    def __init__(self, t):
        self.t = t

    @staticmethod
    def mk(t):
        t = z3.simplify(t)
        if z3.is_int_value(t):
            return t.as_long()
        return SymInt(t)

    def _o(self, o):
        if o.__class__ is SymInt:
            return o.t
        if isinstance(o, int):
            return z3.IntVal(int(o))
        if o.__class__ is SymBool:
            return o._int().t
        try:
            import numpy
            if isinstance(o, (numpy.integer, numpy.bool_)):
                return z3.IntVal(int(o))
        except ImportError:
            pass
        return None

    def _bin(self, o, f, rf):
        t = self._o(o)
        if t is None:
            if coerce(o) is None:
                return NotImplemented
            return rf(coerce(self), coerce(o))
        return SymInt.mk(f(self.t, t))

    def __add__(self, o):
        return self._bin(o, lambda a, b: a + b, lambda a, b: a + b)
    __radd__ = __add__

    def __sub__(self, o):
        return self._bin(o, lambda a, b: a - b, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: b - a, lambda a, b: b - a)

    def __mul__(self, o):
        return self._bin(o, lambda a, b: a * b, lambda a, b: a * b)
    __rmul__ = __mul__

    def __neg__(self):
        return SymInt.mk(-self.t)

    def __pos__(self):
        return self

    def __abs__(self):
        return SymInt.mk(z3.If(self.t >= 0, self.t, -self.t))

    def __truediv__(self, o):
        return coerce(self) / o

    def __rtruediv__(self, o):
        return coerce(o) / coerce(self)

    def _fdiv(self, a, b):
        # floor division; z3 div is euclidean
        return z3.If(b > 0, a / b, (-a) / (-b))

    def __floordiv__(self, o):
        t = self._o(o)
        if t is None:
            return coerce(self) // o
        if SymInt(t) == 0:
            raise ZeroDivisionError("integer division or modulo by zero")
        return SymInt.mk(self._fdiv(self.t, t))

    def __rfloordiv__(self, o):
        t = self._o(o)
        if t is None:
            return coerce(o) // coerce(self)
        if self == 0:
            raise ZeroDivisionError("integer division or modulo by zero")
        return SymInt.mk(self._fdiv(t, self.t))

    def __mod__(self, o):
        t = self._o(o)
        if t is None:
            return coerce(self) % o
        if SymInt(t) == 0:
            raise ZeroDivisionError("integer modulo by zero")
        return SymInt.mk(self.t - t * self._fdiv(self.t, t))

    def __rmod__(self, o):
        t = self._o(o)
        if t is None:
            return coerce(o) % coerce(self)
        if self == 0:
            raise ZeroDivisionError("integer modulo by zero")
        return SymInt.mk(t - self.t * self._fdiv(t, self.t))

    def __pow__(self, k, mod=None):
        if isinstance(k, int) and k >= 0:
            r = 1
            for _ in range(k):
                r = self * r
            return r
        return coerce(self) ** k

    def __rpow__(self, o):
        return o ** int(self)

    def _cmp(self, o, f, rf, none):
        t = self._o(o)
        if t is None:
            if o is None or isinstance(o, (str, list, dict, tuple)) and none is not None:
                return none
            c = coerce(o)
            if c is None:
                return NotImplemented
            return rf(coerce(self), c)
        return mkbool(f(self.t, t))

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b, lambda a, b: a < b, None)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b, lambda a, b: a <= b, None)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b, lambda a, b: a > b, None)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b, lambda a, b: a >= b, None)

    def __eq__(self, o):
        return self._cmp(o, lambda a, b: a == b, lambda a, b: a == b, False)

    def __ne__(self, o):
        return self._cmp(o, lambda a, b: a != b, lambda a, b: a != b, True)

    def __bool__(self):
        return bool(self != 0)

    def __hash__(self):
        if E.dict_keys is not None:
            return E.hash_of(self)
        return hash(self.__index__())

    def __index__(self):
        return E.concretize(self.t)

    def __int__(self):
        return self.__index__()

    def __float__(self):
        return float(self.__index__())

    def __trunc__(self):
        return self
    __floor__ = __ceil__ = __trunc__

    def __round__(self, nd=None):
        return self

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return 0

    def conjugate(self):
        return self

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __repr__(self):
        return token(self)
    __str__ = __repr__

    def __format__(self, spec):
        return token(self, spec)

    def sqrt(self):
        return coerce(self).sqrt()


# printed symbolic numbers: tokens that the shims of float()/int() turn back into the value
def formatted(x, spec):
    """The number that is left of x when it is printed with a format specification."""
    import re
    m = re.fullmatch(r"(?:.?[<>=^])?[-+ ]?#?0?\d*,?(?:\.(\d+))?([a-zA-Z%]?)", spec)
    if not m:
        raise Unsupported("format %r" % spec)
    digits, kind = m.group(1), m.group(2)
    if isinstance(x, SymInt):
        if kind in ("", "d", "n"):
            return x
        x = coerce(x)
    if not kind and digits is None:
        return x
    if kind not in "eEfFgG":
        raise Unsupported("format %r" % spec)
    digits = 6 if digits is None else int(digits)
    if kind in ("f", "F"):
        return rnd(x, digits) if digits else coerce(rnd(x))
    if kind in ("g", "G", ""):
        digits = max(digits - 1, 0)
    if digits >= 17:
        return x
    for k in range(-5, 10):
        if k == 9 or (x < 10 ** (k + 1)) & (x > -10 ** (k + 1)):
            n = digits - k
            return rnd(x, n) if n > 0 else coerce(rnd(x / 10 ** -n)) * 10 ** -n


def token(x, spec=""):
    if spec:
        x = formatted(x, spec)
    E.tokens = getattr(E, "tokens", None)
    if E.tokens is None or E.tok_path is not E.pc:
        E.tokens, E.tok_path = {}, E.pc
    for k, v in E.tokens.items():
        if v is x:
            return k
    k = "9%s7%06d" % ("1" if isinstance(x, SymInt) else "2", len(E.tokens)) if False else "$%s%d$" % ("i" if isinstance(x, SymInt) else "r", len(E.tokens))
    E.tokens[k] = x
    return k


def reduced(x):
    """Pickling within one path: the pickle holds the token."""
    return must_token, (token(x),)


def must_token(s):
    v = from_token(s)
    if v is None:
        raise Unsupported("pickle of another path")
    return v


SymReal.__reduce_ex__ = lambda self, protocol: reduced(self)
SymInt.__reduce_ex__ = lambda self, protocol: reduced(self)


def from_token(s):
    toks = getattr(E, "tokens", None)
    if toks and s in toks:
        return toks[s]
    return None


# -------------------------------------------------------------------------------------------- functions
def canon(x):
    return z3.simplify(rt(x), som=True)


def same_term(a, b):
    """Whether two numbers are the same rational function, by canonical form."""
    d = coerce(a) - coerce(b)
    c = d.const()
    if c is not None:
        return c == 0
    n = canon(d.n)
    return z3.is_rational_value(n) and n.as_fraction() == 0


def root(x, m):
    """m-th root of x >= 0 as a fresh non-negative real."""
    c = x.const()
    if c is not None:
        f = Fraction(round(float(c) ** (1.0 / m) * 2 ** 20), 2 ** 20)
        if f ** m == c:
            return SymReal(f)
        r = int(round(float(c) ** (1.0 / m)))
        if Fraction(r) ** m == c:
            return SymReal(Fraction(r))
    n, d = canon(x.n), canon(x.den())
    key = (m, n.get_id(), d.get_id())
    if key in E.roots:
        return E.roots[key][0]
    r = E.fresh("root%d" % m)
    e = r
    for _ in range(m - 1):
        e = e * r
    E.add(r > 0 if E.known_pos(x.n) and (x.d is None or x.dp or E.known_pos(x.d)) else r >= 0)
    E.add(e * d == n if x.d is not None else e == n)
    v = SymReal(r)
    E.roots[key] = (v, n, d)
    return v


def fl(x):
    """floor as an integer."""
    if isinstance(x, SymInt):
        return x
    if not isinstance(x, SymReal):
        return math.floor(x)
    c = x.const()
    if c is not None:
        return math.floor(c)
    w = whole(x)
    if w is not None:
        return w
    key = ("floor", canon(x.n).get_id(), canon(x.den()).get_id())
    if key in E.roots:
        return E.roots[key][0]
    k = E.fresh("floor", "int")
    kr = SymReal(z3.ToReal(k))
    for cond in (kr <= x, x < kr + 1):
        if cond is False:
            raise PathEnd("floor")
        if cond is not True:
            E.add(cond.t)
    v = SymInt(k)
    E.roots[key] = (v, x)
    E.keep += [canon(x.n), canon(x.den())]
    return v


def int_term(t):
    """The integer term equal to the real term t, or None if t is not made of integers."""
    if z3.is_to_real(t):
        return t.arg(0)
    if z3.is_rational_value(t):
        return z3.IntVal(t.numerator_as_long()) if t.denominator_as_long() == 1 else None
    if z3.is_add(t) or z3.is_mul(t) or z3.is_sub(t):
        parts = [int_term(c) for c in t.children()]
        if None in parts:
            return None
        out = parts[0]
        for q in parts[1:]:
            out = out + q if z3.is_add(t) else out * q if z3.is_mul(t) else out - q
        return out
    return None


def whole(x):
    """The integer that x is, if x is made of integers only, or None."""
    if _size(x.n, 200) < 200:
        t = z3.simplify(x.n) if x.d is None else z3.simplify(x.n / x.d)
        t = int_term(t)
        if t is not None:
            return SymInt(z3.simplify(t))
    return None


def trunc(x):
    if isinstance(x, SymInt):
        return x
    if not isinstance(x, SymReal):
        return int(x)
    w = whole(x)
    if w is not None:
        return w
    if x >= 0:
        return fl(x)
    return -fl(-x)


def rnd(x, nd=None):
    """round half to even."""
    if isinstance(x, SymInt):
        return x
    if nd is not None and nd != 0:
        s = 10 ** nd
        return rnd(x * s) / s if True else x
    if not isinstance(x, SymReal):
        v = round(x)
    elif x.const() is not None:
        v = round(x.const())
    else:
        key = ("round", canon(x.n).get_id(), canon(x.den()).get_id())
        if key in E.roots:
            v = E.roots[key][0]
        else:
            k = E.fresh("round", "int")
            e = (SymReal(z3.ToReal(k)) - x) * 2
            inside, edge = [z3.BoolVal(c) if isinstance(c, bool) else c.t for c in ((e > -1) & (e < 1) if True else None, (e == 1) | (e == -1))]
            E.add(z3.Or(inside, z3.And(edge, k % 2 == 0)))
            v = SymInt(k)
            E.roots[key] = (v, x)
            E.keep += [canon(x.n), canon(x.den())]
    return v if nd is None else coerce(v)


def has_uf(t):
    """Does the term, or the definition of a root in it, contain an uninterpreted function?"""
    if not E.ufs:
        return False
    seen, todo = set(), [t]
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if x.num_args() and x.decl().name() in NAMES_UF:
            return True
        if not x.num_args() and "!" in x.decl().name() and z3.is_const(x):
            return True     # an auxiliary variable; may stand for a root of such a term
        todo += x.children()
    return False


NAMES_UF = {"exp", "log", "sin", "cos", "tan", "atan2", "acos", "asin", "fabs", "pow"}


def symfun(name, *args):
    cs = [coerce(a) for a in args]
    cs = [SymReal(Fraction(0)) if is_c(c.n) and c.n == 0 else c for c in cs]
    if all(c.const() is not None for c in cs) and hasattr(math, name):
        try:
            return SymReal(Fraction(getattr(math, name)(*[float(c.const()) for c in cs])))
        except (ValueError, OverflowError):
            pass
    if name in ("cos", "sin") and cs[0].d is None and not is_c(cs[0].n):
        a = E.roots.get(("angle", cs[0].n.get_id()))
        if a is not None:       # of an angle that is known by its tangent
            r = root(a[0] * a[0] + a[1] * a[1], 2)
            if r == 0:
                return SymReal(Fraction(1 if name == "cos" else 0))
            return (a[1] if name == "cos" else a[0]) / r
    apps = E.roots.setdefault(("ufapps", name), ([], None))[0]
    for old, v in apps:      # the same rational function written differently is the same argument
        if len(old) == len(cs) and all(same_term(a, b) for a, b in zip(old, cs)):
            return v
    t = E.uf(name, *[canon(c.n) / canon(c.d) if c.d is not None else canon(c.n) for c in cs])
    new = t.get_id() not in E.pc_ids and ("uf", t.get_id()) not in E.roots
    v = SymReal(t)
    apps.append((cs, v))
    if new:
        E.roots[("uf", t.get_id())] = (v, t)
        if name in ("cos", "sin"):
            o = E.uf("sin" if name == "cos" else "cos", t.arg(0))
            E.add(t * t + o * o == 1)
            E.add(z3.And(t <= 1, t >= -1))
        elif name == "exp":
            E.add(t > 0)
            E.add(t >= 1 + t.arg(0))
            for k, (vv, tt) in [(k, x) for k, x in E.roots.items() if k[0] == "uf" and x[1].decl().name() == "exp" and not x[1].eq(t)]:
                E.add(z3.And(z3.Implies(t.arg(0) < tt.arg(0), t < tt), z3.Implies(t.arg(0) > tt.arg(0), t > tt)))
        elif name in ("fabs",):
            E.add(t >= 0)
    return v


def atan2(y, x):
    """Angle with r cos = x, r sin = y; congruent for equal arguments."""
    y, x = coerce(y), coerce(x)
    if y.const() is not None and x.const() is not None:
        return math.atan2(float(y.const()), float(x.const()))
    v = symfun("atan2", y, x)
    E.roots[("angle", v.n.get_id())] = (y, x, v.n)
    E.add(v.n <= z3.RealVal(Fraction(math.pi)))
    E.add(v.n >= -z3.RealVal(Fraction(math.pi)))
    return v


class SymComplex:
    """A complex number with symbolic parts."""
    __slots__ = ("real", "imag")
    __array_priority__ = 0

    def __init__(self, real, imag):
        self.real, self.imag = coerce(real), coerce(imag)
        if self.real.__class__ is float or self.imag.__class__ is float:
            raise Unsupported("infinite complex number")

    @staticmethod
    def of(o):
        if o.__class__ is SymComplex:
            return o
        if isinstance(o, complex):
            return SymComplex(float(o.real), float(o.imag))
        c = coerce(o)
        return None if c is None else SymComplex(c, 0.0)

    def __add__(self, o):
        o = self.of(o)
        return NotImplemented if o is None else SymComplex(self.real + o.real, self.imag + o.imag)
    __radd__ = __add__

    def __sub__(self, o):
        o = self.of(o)
        return NotImplemented if o is None else SymComplex(self.real - o.real, self.imag - o.imag)

    def __rsub__(self, o):
        o = self.of(o)
        return NotImplemented if o is None else o - self

    def __mul__(self, o):
        o = self.of(o)
        return NotImplemented if o is None else SymComplex(self.real * o.real - self.imag * o.imag, self.real * o.imag + self.imag * o.real)
    __rmul__ = __mul__

    def __truediv__(self, o):
        o = self.of(o)
        if o is None:
            return NotImplemented
        if o.imag.const() == 0:
            return SymComplex(self.real / o.real, self.imag / o.real)
        n = o.real * o.real + o.imag * o.imag
        r = self * o.conjugate()
        return SymComplex(r.real / n, r.imag / n)

    def __rtruediv__(self, o):
        o = self.of(o)
        return NotImplemented if o is None else o / self

    def __neg__(self):
        return SymComplex(-self.real, -self.imag)

    def __pos__(self):
        return self

    def __pow__(self, k, mod=None):
        if isinstance(k, int) and k >= 0:
            r = SymComplex(1.0, 0.0)
            for _ in range(k):
                r = r * self
            return r
        raise Unsupported("power of a complex number")

    def __abs__(self):
        if self.imag.const() == 0:
            return abs(self.real)
        return root(self.real * self.real + self.imag * self.imag, 2)

    def __eq__(self, o):
        o = self.of(o)
        if o is None:
            return False
        a, b = self.real == o.real, self.imag == o.imag
        if a is False or b is False:
            return False
        return b if a is True else a if b is True else a & b

    def __ne__(self, o):
        r = self == o
        return not r if isinstance(r, bool) else ~r

    def __bool__(self):
        return bool(self != 0)

    def __hash__(self):
        raise Unsupported("hash of a complex number")

    def __float__(self):
        raise TypeError("float() argument must be a string or a real number, not 'complex'")
    __int__ = __float__

    def __complex__(self):
        a, b = self.real.const(), self.imag.const()
        if a is None or b is None:
            raise Unsupported("complex() of a symbolic number")
        return complex(float(a), float(b))

    def __repr__(self):
        return "(%s+%sj)" % (token(self.real), token(self.imag))

    def __deepcopy__(self, memo):
        return self

    def conjugate(self):
        return SymComplex(self.real, -self.imag)

    def angle(self):
        return atan2(self.imag, self.real)

    def exp(self):
        r = symfun("exp", self.real) if self.real.const() != 0 else SymReal(Fraction(1))
        return SymComplex(r * symfun("cos", self.imag), r * symfun("sin", self.imag))

    def sqrt(self):
        """The root with non-negative real part."""
        if self.imag.const() == 0:
            if self.real >= 0:
                return SymComplex(root(self.real, 2), 0.0)
            return SymComplex(0.0, root(-self.real, 2))
        a = abs(self)
        re, im = root((a + self.real) / 2, 2), root((a - self.real) / 2, 2)
        return SymComplex(re, im if self.imag >= 0 else -im)


# -------------------------------------------------------------------------------------------- machine integers
def wrap_t(t, w):
    h = 1 << (w - 1)
    return (t + h) % (1 << w) - h


class VInt:
    """Machine integer of width w: canonical signed value t with bounds lo..hi.  Python operators follow unsigned/machine meaning."""
    __slots__ = ("w", "t", "lo", "hi")

    def __init__(self, w, t, lo=None, hi=None):
        h = 1 << (w - 1)
        self.w, self.t = w, t
        self.lo = -h if lo is None else lo
        self.hi = h - 1 if hi is None else hi

    @staticmethod
    def norm(w, t, lo, hi):
        h = 1 << (w - 1)
        if lo < -h or hi > h - 1:
            t = wrap_t(t, w)
            lo, hi = -h, h - 1
        t = z3.simplify(t)
        if z3.is_int_value(t):
            return t.as_long() & ((1 << w) - 1)
        return VInt(w, t, lo, hi)

    def parts(self, o):
        if o.__class__ is VInt:
            return o.t, o.lo, o.hi
        v = sgn(o, self.w)
        return z3.IntVal(v), v, v

    def __add__(self, o):
        t, lo, hi = self.parts(o)
        return VInt.norm(self.w, self.t + t, self.lo + lo, self.hi + hi)
    __radd__ = __add__

    def __sub__(self, o):
        t, lo, hi = self.parts(o)
        return VInt.norm(self.w, self.t - t, self.lo - hi, self.hi - lo)

    def __rsub__(self, o):
        t, lo, hi = self.parts(o)
        return VInt.norm(self.w, t - self.t, lo - self.hi, hi - self.lo)

    def __mul__(self, o):
        t, lo, hi = self.parts(o)
        c = [self.lo * lo, self.lo * hi, self.hi * lo, self.hi * hi]
        return VInt.norm(self.w, self.t * t, min(c), max(c))
    __rmul__ = __mul__

    def __and__(self, o):
        if o.__class__ is int:
            full = (1 << self.w) - 1
            if o == full or o > full:
                return self
            if o == 0:
                return 0
            if o & (o + 1) == 0:
                if self.lo >= 0 and self.hi <= o:
                    return self
                return VInt.norm(self.w, self.t % (o + 1), 0, o)
            if o == 1 << (self.w - 1):
                return o if mkbool(self.t < 0) else 0
        return conc(self) & conc(o)
    __rand__ = __and__

    def __or__(self, o):
        if o.__class__ is int and o == 0:
            return self
        return conc(self) | conc(o)
    __ror__ = __or__

    def __xor__(self, o):
        if o.__class__ is int:
            if o == 0:
                return self
            if o == (1 << self.w) - 1:
                return VInt.norm(self.w, -1 - self.t, -1 - self.hi, -1 - self.lo)
        return conc(self) ^ conc(o)
    __rxor__ = __xor__

    def __lshift__(self, k):
        return self * (1 << k)

    def __rshift__(self, k):
        u = self.u()
        return VInt.norm(self.w, u / (1 << k), 0, (1 << self.w) >> k)

    def u(self):
        return self.t if self.lo >= 0 else z3.If(self.t < 0, self.t + (1 << self.w), self.t)

    def ou(self, o):
        if o.__class__ is VInt:
            return o.u()
        return z3.IntVal(o)

    def __eq__(self, o):
        t, lo, hi = self.parts(o)
        if lo > self.hi or hi < self.lo:
            return False
        return mkbool(self.t == t)

    def __ne__(self, o):
        r = self.__eq__(o)
        return (not r) if r.__class__ is bool else ~r

    def __lt__(self, o):
        return mkbool(self.u() < self.ou(o))

    def __le__(self, o):
        return mkbool(self.u() <= self.ou(o))

    def __gt__(self, o):
        return mkbool(self.u() > self.ou(o))

    def __ge__(self, o):
        return mkbool(self.u() >= self.ou(o))

    __hash__ = None

    def __index__(self):
        return conc(self)


def sgn(v, w):
    return v - (1 << w) if v >= 1 << (w - 1) else v


def conc(v):
    if v.__class__ is VInt:
        return E.concretize(v.t, "an address or size") & ((1 << v.w) - 1)
    if v.__class__ is SymBool:
        return int(bool(v))
    return v


def vterm(v, w):
    """Signed z3 term of a machine integer."""
    return v.t if v.__class__ is VInt else z3.IntVal(sgn(v, w))


import numbers
for _c in (SymReal, SymInt, SymBool):
    numbers.Number.register(_c)  # numpy.isscalar asks
