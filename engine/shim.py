"""Stand-ins that keep symbolic values exact inside the xboa modules: math, numpy, float and int."""
import math, cmath, sys, builtins
from fractions import Fraction
import numpy
import z3
from . import sx
from .sx import E, SymReal, SymInt, SymBool, Complexish, coerce, mkbool, Incomplete

RealFloat, RealInt = float, int


class MFloat(type):
    def __instancecheck__(cls, o):
        return isinstance(o, RealFloat) or o.__class__ is SymReal

    def __subclasscheck__(cls, c):
        return issubclass(c, RealFloat) or c is SymReal

    def __eq__(cls, o):
        return o is RealFloat or o is SymReal or o is cls

    def __hash__(cls):
        return hash(RealFloat)

    def __call__(cls, x=0.0):
        if isinstance(x, str):
            t = sx.from_token(x.strip())
            if t is not None:
                return coerce(t)
            return RealFloat(x)
        if x.__class__ is SymReal:
            return x
        if x.__class__ in (SymInt, SymBool):
            return coerce(x)
        if isinstance(x, numpy.ndarray) and x.dtype == object and x.size == 1:
            return cls(numpy.asarray(x).reshape(-1)[0])
        return RealFloat(x)


class sym_float(RealFloat, metaclass=MFloat):
    pass


class MInt(type):
    def __instancecheck__(cls, o):
        return isinstance(o, RealInt) or o.__class__ is SymInt

    def __subclasscheck__(cls, c):
        return issubclass(c, RealInt) or c is SymInt

    def __eq__(cls, o):
        return o is RealInt or o is SymInt or o is cls

    def __hash__(cls):
        return hash(RealInt)

    def __call__(cls, x=0, *a):
        if isinstance(x, str) and not a:
            t = sx.from_token(x.strip())
            if t is not None:
                if t.__class__ is SymReal:
                    raise ValueError("invalid literal for int() with base 10: %r" % x)
                return t
            return RealInt(x)
        if x.__class__ is SymInt:
            return x
        if x.__class__ is SymReal:
            return sx.trunc(x)
        if x.__class__ is SymBool:
            return x._int()
        return RealInt(x, *a)


class sym_int(RealInt, metaclass=MInt):
    pass


SYM = (SymReal, SymInt, SymBool, sx.SymComplex)


def is_sym(x):
    return x.__class__ in SYM


class SymMath:
    """math with symbolic arguments."""
    def __getattr__(self, n):
        return getattr(math, n)

    def sqrt(self, x):
        if not is_sym(x):
            return math.sqrt(x)
        x = coerce(x)
        if x < 0:
            raise ValueError("math domain error")
        return sx.root(x, 2)

    def fabs(self, x):
        return abs(coerce(x)) if is_sym(x) else math.fabs(x)

    def floor(self, x):
        return sx.fl(x) if is_sym(x) else math.floor(x)

    def ceil(self, x):
        return -sx.fl(-x) if is_sym(x) else math.ceil(x)

    def trunc(self, x):
        return sx.trunc(x) if is_sym(x) else math.trunc(x)

    def isnan(self, x):
        return False if is_sym(x) else math.isnan(x)
    isinf = isnan

    def isinf(self, x):
        return False if is_sym(x) else math.isinf(x)

    def isfinite(self, x):
        return True if is_sym(x) else math.isfinite(x)

    def pow(self, a, b):
        return coerce(a) ** b if is_sym(a) or is_sym(b) else math.pow(a, b)

    def hypot(self, *a):
        return sx.root(sum(coerce(x) * x for x in a), 2) if any(map(is_sym, a)) else math.hypot(*a)

    def atan2(self, a, b):
        return sx.atan2(a, b) if is_sym(a) or is_sym(b) else math.atan2(a, b)

    def radians(self, x):
        return x * (math.pi / 180.0) if is_sym(x) else math.radians(x)

    def degrees(self, x):
        return x * (180.0 / math.pi) if is_sym(x) else math.degrees(x)

    def log(self, x, *b):
        if not is_sym(x):
            return math.log(x, *b)
        if x <= 0:
            raise ValueError("math domain error")
        r = sx.symfun("log", x)
        return r / math.log(b[0]) if b else r

    def fsum(self, l):
        return sum(l)

    def fmod(self, a, b):
        return a - sx.trunc(a / b) * b if is_sym(a) or is_sym(b) else math.fmod(a, b)

    def copysign(self, a, b):
        if is_sym(a) or is_sym(b):
            return abs(a) if b >= 0 else -abs(a)
        return math.copysign(a, b)


def _uf(name):
    def f(self, x):
        return sx.symfun(name, x) if is_sym(x) else getattr(math, name)(x)
    return f


for _n in ("sin", "cos", "tan", "exp", "atan", "asin", "acos", "sinh", "cosh", "tanh", "erf"):
    setattr(SymMath, _n, _uf(_n))
symmath = SymMath()


# ------------------------------------------------------------------------------------------------ numpy
def tolist(a):
    if isinstance(a, numpy.ndarray):
        return numpy.asarray(a).tolist() if a.dtype != object else [tolist(x) if isinstance(x, numpy.ndarray) else x for x in numpy.asarray(a)] if a.ndim > 1 else list(numpy.asarray(a))
    return a


def det(rows):
    n = len(rows)
    if n == 0:
        return 1.0
    if n == 1:
        return rows[0][0]
    memo = {}

    def minor(r, cols):
        if len(cols) == 1:
            return rows[r][cols[0]]
        k = (r, cols)
        if k in memo:
            return memo[k]
        t = 0.0
        for i, c in enumerate(cols):
            x = rows[r][c]
            if not is_sym(x) and x == 0:
                continue
            m = minor(r + 1, cols[:i] + cols[i + 1:])
            t = t + x * m if i % 2 == 0 else t - x * m
        memo[k] = t
        return t
    return minor(0, tuple(range(n)))


def square(a):
    a = numpy.asarray(a)
    if a.ndim != 2 or a.shape[0] != a.shape[1]:
        raise numpy.linalg.LinAlgError("Last 2 dimensions of the array must be square")
    return [[a[i, j] for j in range(a.shape[1])] for i in range(a.shape[0])]


def wrap(rows, like):
    r = numpy.empty((len(rows), len(rows[0]) if rows else 0), dtype=object)
    for i, x in enumerate(rows):
        for j, v in enumerate(x):
            r[i, j] = v
    return numpy.matrix(r) if isinstance(like, numpy.matrix) else r


def has_sym(a):
    a = numpy.asarray(a)
    return a.dtype == object and any(is_sym(x) for x in a.reshape(-1))


def plain(a):
    """Real numpy array of an object array without symbolic entries."""
    b = numpy.asarray(a)
    if b.dtype == object:
        b = b.astype(complex) if any(isinstance(x, complex) for x in b.reshape(-1)) else b.astype(RealFloat)
    return numpy.matrix(b) if isinstance(a, numpy.matrix) else b


class SymLinalg:
    LinAlgError = numpy.linalg.LinAlgError

    def __getattr__(self, n):
        f = getattr(numpy.linalg, n)
        if not callable(f) or isinstance(f, type):
            return self if n == "linalg" else f

        def g(*a, **k):
            for x in a:
                if isinstance(x, (list, tuple, numpy.ndarray)) and has_sym(x):
                    raise sx.Unsupported("numpy.linalg.%s of symbolic values" % n)
            return obj(f(*[plain(x) if isinstance(x, numpy.ndarray) else x for x in a], **k))
        return g

    @property
    def linalg(self):
        return self

    def det(self, a):
        if not has_sym(a):
            return RealFloat(numpy.linalg.det(plain(a)))
        return det(square(a))

    def inv(self, a):
        if not has_sym(a):
            return obj(numpy.linalg.inv(plain(a)))
        m = square(a)
        n = len(m)
        d = det(m)
        if d == 0:
            raise numpy.linalg.LinAlgError("Singular matrix")
        out = [[None] * n for _ in range(n)]
        for i in range(n):
            for j in range(n):
                sub = [[m[r][c] for c in range(n) if c != j] for r in range(n) if r != i]
                x = det(sub)
                out[j][i] = (x if (i + j) % 2 == 0 else 0.0 - x) / d
        return wrap(out, a)

    def solve(self, a, b):
        if not has_sym(a) and not has_sym(b):
            return obj(numpy.linalg.solve(plain(a), plain(b)))
        return numpy.dot(self.inv(numpy.asarray(a)), b)

    def cholesky(self, a):
        if not has_sym(a):
            return obj(numpy.linalg.cholesky(plain(a)))
        m = square(a)
        n = len(m)
        l = [[0.0] * n for _ in range(n)]
        for i in range(n):
            for j in range(i + 1):
                s = m[i][j]
                for k in range(j):
                    s = s - l[i][k] * l[j][k]
                if i == j:
                    if s <= 0:
                        raise numpy.linalg.LinAlgError("Matrix is not positive definite")
                    l[i][j] = sx.root(coerce(s), 2)
                else:
                    l[i][j] = s / l[j][j]
        return wrap(l, a)

    def _eig(self, a):
        """The decomposition the harness announced for this matrix (ctx.eig): any decomposition numpy might return is an instance of it."""
        m = square(a)
        for m1, d, v in sx.E.eigs:
            if len(m1) == len(m) and all((x is y) or sx.same_term(x, y) for r, r1 in zip(m, m1) for x, y in zip(r, r1)):
                return d, v
        raise sx.Unsupported("eigenvalues of symbolic values")

    def eig(self, a):
        if not has_sym(a):
            return obj(numpy.linalg.eig(plain(a)))
        d, v = self._eig(a)
        return numpy.array(list(d) + [None], dtype=object)[:-1], wrap([list(r) for r in v], a)

    def eigh(self, a, *k):
        if not has_sym(a):
            return obj(numpy.linalg.eigh(plain(a), *k))
        d, v = self._eig(a)
        return numpy.array(list(d) + [None], dtype=object)[:-1], wrap([list(r) for r in v], a)

    def norm(self, a, *k):
        if k or not has_sym(a):
            return numpy.linalg.norm(plain(a), *k)
        return sx.root(sum((coerce(x) * x for x in numpy.asarray(a).reshape(-1)), coerce(0.0)), 2)


def obj(a):
    """Float arrays become object arrays of Python floats, so that symbolic values can be stored in them."""
    if isinstance(a, numpy.ndarray) and a.dtype.kind in "fc":
        b = a.astype(object)
        return b
    if isinstance(a, tuple) and type(a) is not tuple:
        return type(a)(*[obj(x) for x in a])
    if isinstance(a, tuple):
        return tuple(obj(x) for x in a)
    return a


def is_obj(a):
    return isinstance(a, numpy.ndarray) and a.dtype == object


def floaty(dt):
    return dt is None or dt is RealFloat or dt is sym_float or dt in ("float", "float64", "d", "f8") or dt is numpy.float64 or dt == object


SymComplex = sx.SymComplex


class SymCmath:
    def __getattr__(self, n):
        f = getattr(cmath, n)
        if not callable(f):
            return f

        def g(*a):
            if any(is_sym(x) for x in a):
                raise sx.Unsupported("cmath.%s of symbolic values" % n)
            return f(*a)
        return g

    def sqrt(self, x):
        return SymComplex.of(x).sqrt() if is_sym(x) else cmath.sqrt(x)

    def exp(self, x):
        return SymComplex.of(x).exp() if is_sym(x) else cmath.exp(x)

    def phase(self, x):
        return SymComplex.of(x).angle() if is_sym(x) else cmath.phase(x)


symcmath = SymCmath()


def each(f, x):
    """f of a number or of every entry of an array."""
    if isinstance(x, (list, tuple)):
        x = numpy.array(x, dtype=object)
    if isinstance(x, numpy.ndarray):
        r = numpy.empty(x.shape, dtype=object)
        for i, v in numpy.ndenumerate(x):
            r[i] = f(v)
        return numpy.matrix(r) if isinstance(x, numpy.matrix) else r
    return f(x)


class SymFft:
    def __getattr__(self, n):
        return getattr(numpy.fft, n)

    def _dft(self, a, m):
        a = [coerce(v) for v in a]
        n = len(a)
        r = numpy.empty(m, dtype=object)
        for k in range(m):
            re, im = coerce(0.0), coerce(0.0)
            for j, v in enumerate(a):
                p = j * k % n
                re = re + v * math.cos(2 * math.pi * p / n)
                im = im - v * math.sin(2 * math.pi * p / n)
            r[k] = SymComplex(re, im)
        return r

    def rfft(self, a, *k, **kw):
        return self._dft(a, len(a) // 2 + 1) if has_sym(numpy.array(a, dtype=object)) and not k and not kw else numpy.fft.rfft(a, *k, **kw)

    def fft(self, a, *k, **kw):
        return self._dft(a, len(a)) if has_sym(numpy.array(a, dtype=object)) and not k and not kw else numpy.fft.fft(a, *k, **kw)


class SymNumpy:
    linalg = SymLinalg()
    fft = SymFft()

    def __getattr__(self, n):
        return getattr(numpy, n)

    def zeros(self, *a, dtype=None, **k):
        if len(a) > 1:
            a, dtype = a[:1], a[1]
        r = numpy.zeros(*a, dtype=RealFloat if floaty(dtype) else RealInt if dtype is sym_int else dtype, **k)
        return obj(r)

    def ones(self, *a, dtype=None, **k):
        return obj(numpy.ones(*a, dtype=RealFloat if floaty(dtype) else RealInt if dtype is sym_int else dtype, **k))

    def full(self, shape, v, dtype=None):
        r = numpy.empty(shape, dtype=object)
        r.fill(v)
        return r

    def empty(self, *a, **k):
        return self.zeros(*a)

    def identity(self, n, *a, **k):
        return obj(numpy.identity(n))

    def eye(self, *a, **k):
        return obj(numpy.eye(*a, **k))

    def diagflat(self, v, k=0):
        v = list(numpy.asarray(v, dtype=object).reshape(-1))
        r = obj(numpy.zeros((len(v), len(v))))
        for i, x in enumerate(v):
            r[i, i] = x
        return r

    def _mk(self, x, dtype):
        if dtype is sym_int:
            dtype = RealInt
        if not floaty(dtype):
            return numpy.array(x, dtype=dtype)
        if isinstance(x, numpy.ndarray):
            if x.dtype == object:
                return numpy.array(x, dtype=object)
            r = numpy.array(x)
            if r.dtype.kind in "f" or dtype not in (None, object):
                r = obj(r.astype(RealFloat))
            return r
        flat = []

        def walk(v):
            if isinstance(v, (list, tuple)):
                for y in v:
                    walk(y)
            elif isinstance(v, numpy.ndarray):
                for y in numpy.asarray(v).reshape(-1):
                    flat.append(y)
            else:
                flat.append(v)
        walk(x)
        if any(is_sym(v) for v in flat):
            return numpy.array(x, dtype=object)
        r = numpy.array(x) if dtype in (None,) else numpy.array(x, dtype=RealFloat if dtype != object else object)
        return obj(r)

    def array(self, x, dtype=None, **k):
        return self._mk(x, dtype)

    def asarray(self, x, dtype=None):
        if isinstance(x, numpy.ndarray) and x.dtype == object:
            return numpy.asarray(x)
        return self._mk(x, dtype)

    def mean(self, a, *k, **kw):
        if k or kw or not has_sym(a):
            return obj(numpy.mean(numpy.array(a, dtype=object) if has_sym(a) else plain(numpy.array(a)), *k, **kw))
        v = list(numpy.asarray(a, dtype=object).reshape(-1))
        return sum(v[1:], v[0]) / len(v)

    def std(self, a, *k, **kw):
        if k or kw or not has_sym(a):
            return numpy.std(plain(numpy.array(a)), *k, **kw)
        v = list(numpy.asarray(a, dtype=object).reshape(-1))
        m = self.mean(v)
        return sx.root(coerce(sum(((x - m) * (x - m) for x in v[1:]), (v[0] - m) * (v[0] - m)) / len(v)), 2)

    def histogram(self, a, bins=10, range=None, weights=None, density=None):
        if not (has_sym(numpy.array(a, dtype=object)) or has_sym(numpy.array(bins, dtype=object)) or weights is not None and has_sym(numpy.array(weights, dtype=object))):
            return numpy.histogram(a, bins, range=range, weights=weights, density=density)
        if range is not None or density or isinstance(bins, RealInt):
            raise sx.Unsupported("numpy.histogram with these options")
        e = list(bins)
        for i in builtins.range(len(e) - 1):
            if e[i] > e[i + 1]:
                raise ValueError("`bins` must increase monotonically, when an array")
        n = len(e) - 1
        out = numpy.empty(n, dtype=object)
        out.fill(0 if weights is None else 0.0)
        for k, x in enumerate(a):
            for i in builtins.range(n):
                if x >= e[i] and (x < e[i + 1] or (i == n - 1 and x == e[n])):
                    out[i] = out[i] + (1 if weights is None else weights[k])
                    break
        return out, numpy.array(e, dtype=object)

    def isnan(self, x):
        return False if is_sym(x) else numpy.isnan(x)

    def sqrt(self, x):
        if is_sym(x):
            return coerce(x).sqrt()
        return numpy.sqrt(x)

    def exp(self, x):
        if is_sym(x) or isinstance(x, numpy.ndarray) and x.dtype == object:
            return each(lambda v: v.exp() if isinstance(v, SymComplex) else sx.symfun("exp", v) if is_sym(v) else cmath.exp(v) if isinstance(v, complex) else math.exp(v), x)
        return numpy.exp(x)

    def real(self, x):
        return each(lambda v: v.real, x) if is_obj(x) else x.real if is_sym(x) else numpy.real(x)

    def imag(self, x):
        return each(lambda v: v.imag if isinstance(v, (SymComplex, complex)) else 0.0, x) if is_obj(x) else x.imag if isinstance(x, SymComplex) else 0.0 if is_sym(x) else numpy.imag(x)

    def angle(self, x, deg=False):
        if not is_obj(x) and not is_sym(x):
            return numpy.angle(x, deg)
        r = each(lambda v: SymComplex.of(v).angle() if is_sym(v) else cmath.phase(v), x)
        return r * (180.0 / math.pi) if deg else r

    def conj(self, x):
        return each(lambda v: v.conjugate(), x) if is_obj(x) else x.conjugate() if is_sym(x) else numpy.conj(x)
    conjugate = conj

    def abs(self, x):
        return self.absolute(x)

    def absolute(self, x):
        if isinstance(x, SymComplex):
            return builtins.abs(x)
        return builtins.abs(x) if is_sym(x) or isinstance(x, numpy.ndarray) and x.dtype == object else numpy.absolute(x)

    def isclose(self, a, b, *k, **kw):
        if has_sym(numpy.array(a, dtype=object)) or has_sym(numpy.array(b, dtype=object)):
            raise sx.Unsupported("numpy.isclose of symbolic values")
        return numpy.isclose(a, b, *k, **kw)


class SymMatrixMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, numpy.matrix)

    def __eq__(cls, o):
        return o is numpy.matrix or o is cls

    def __hash__(cls):
        return hash(numpy.matrix)

    def __call__(cls, x, dtype=None, copy=True):
        a = symnumpy._mk(x if not isinstance(x, str) else numpy.matrix(x), dtype)
        return numpy.matrix(a, dtype=a.dtype)


class sym_matrix(metaclass=SymMatrixMeta):
    pass


symnumpy = SymNumpy()
symnumpy.matrix = sym_matrix


def install(prefix="xboa"):
    """Replace names in every loaded module of the package."""
    swap = {id(math): symmath, id(cmath): symcmath, id(numpy): symnumpy, id(numpy.linalg): symnumpy.linalg}
    for n in dir(math):
        f = getattr(math, n)
        if callable(f) and hasattr(SymMath, n):
            swap[id(f)] = getattr(symmath, n)
    for n in ("array", "zeros", "ones", "matrix", "mean", "std", "histogram", "identity", "eye", "diagflat", "asarray", "exp", "sqrt"):
        swap[id(getattr(numpy, n))] = getattr(symnumpy, n)

    def types(o, depth=0):
        if isinstance(o, dict):
            for k, v in list(o.items()):
                if v is RealFloat:
                    o[k] = sym_float
                elif v is RealInt:
                    o[k] = sym_int
                elif depth < 2:
                    types(v, depth + 1)
        elif isinstance(o, list):
            for k, v in enumerate(o):
                if v is RealFloat:
                    o[k] = sym_float
                elif v is RealInt:
                    o[k] = sym_int
                elif depth < 2:
                    types(v, depth + 1)

    for name, mod in list(sys.modules.items()):
        if mod is None or not (name == prefix or name.startswith(prefix + ".")) or name.startswith(prefix + ".core._"):
            continue
        ns = mod.__dict__
        for k, v in list(ns.items()):
            if k.startswith("__"):
                continue
            s = swap.get(id(v))
            if s is not None:
                ns[k] = s
            elif isinstance(v, (dict, list)):
                types(v)
            elif isinstance(v, type) and getattr(v, "__module__", "").startswith(prefix):
                for kk, vv in list(vars(v).items()):
                    if isinstance(vv, (dict, list)) and not kk.startswith("__"):
                        types(vv)
                    elif vv is RealFloat or vv is RealInt:
                        setattr(v, kk, sym_float if vv is RealFloat else sym_int)
        ns.setdefault("float", sym_float)
        ns.setdefault("int", sym_int)
