"""Run time of the IR virtual machine: memory helpers used by translated code, libc / libstdc++ / libm stand-ins, exceptions, and the
Program that holds the modules of one modelled process."""
import math, os, re, struct, subprocess, sys, hashlib, tempfile, shutil
from concurrent.futures import ThreadPoolExecutor
from fractions import Fraction
import z3
from . import sx
from .sx import E, SymBool, SymReal, SymInt, VInt, mkbool, sgn, conc, vterm, coerce
from .irvm import Memory, Module, Func, Fn, CxxThrow, T, M64, ONES, unq
from .sx import Crash, Unsupported

SETUP_MODULES = {
    "_weight_context": ["pylib/PyWeightContext.cc", "cpplib/WeightContext.cc"],
    "_hitcore": ["pylib/PyHitcore.cc", "cpplib/Hitcore.cc", "utils/SmartPointer.cc"],
    "_bunchcore": ["pylib/PyBunchcore.cc", "cpplib/Bunchcore.cc", "cpplib/Hitcore.cc", "utils/SmartPointer.cc"],
}
RT_CC = "#include <string>\ntemplate class std::basic_string<char>;\n"


def setup_sources(repo):
    """Source lists of the extension modules, read from setup.py."""
    import ast
    src = open(os.path.join(repo, "setup.py")).read()
    out = {}
    for node in ast.walk(ast.parse(src)):
        if isinstance(node, ast.Call) and getattr(node.func, "id", getattr(node.func, "attr", "")) == "Extension":
            name = node.args[0].value
            for k in node.keywords:
                if k.arg == "sources":
                    out[name.split(".")[-1]] = [e.value for e in k.value.elts]
    if set(out) != set(SETUP_MODULES):
        out = {k: ["xboa/core/" + x for x in v] for k, v in SETUP_MODULES.items()}
    return out


CLANG = ["clang++-18", "-S", "-emit-llvm", "-O1", "-ffp-contract=off", "-fno-vectorize", "-fno-slp-vectorize", "-fno-discard-value-names",
         "-std=c++17", "-fPIC", "-w"]


def compile_ir(repo, out):
    """Compile the extension sources of the tree at repo to one linked .ll per module in directory out."""
    srcs = setup_sources(repo)
    with open(os.path.join(out, "rt.cc"), "w") as f:
        f.write(RT_CC)
    jobs = sorted({s for v in srcs.values() for s in v})
    inc = ["-I" + os.path.join(repo, "xboa/core"), "-I" + repo, "-I/usr/include/python3.12"]

    def comp(s):
        path = os.path.join(out, "rt.cc") if s == "rt.cc" else os.path.join(repo, s)
        o = os.path.join(out, s.replace("/", "_") + ".ll")
        r = subprocess.run(CLANG + inc + [path, "-o", o], capture_output=True, text=True)
        if r.returncode:
            raise RuntimeError("compiling %s: %s" % (s, r.stderr[-2000:]))
        return o
    with ThreadPoolExecutor(8) as ex:
        objs = dict(zip(["rt.cc"] + jobs, ex.map(comp, ["rt.cc"] + jobs)))

    def link(m):
        o = os.path.join(out, m + ".ll")
        r = subprocess.run(["llvm-link-18", "-S", objs["rt.cc"]] + [objs[s] for s in srcs[m]] + ["-o", o], capture_output=True, text=True)
        if r.returncode:
            raise RuntimeError("linking %s: %s" % (m, r.stderr[-2000:]))
        return open(o).read()
    with ThreadPoolExecutor(3) as ex:
        ms = list(srcs)
        return dict(zip(ms, ex.map(link, ms)))


def ident(s):
    return re.sub(r"[^A-Za-z0-9_]", "_", s)


class Program:
    def __init__(self):
        self.mem = Memory()
        self.funcs_at = {}
        self.next_func = 4096
        self.modules = {}
        self.shared_globals = {}
        self.ext_globals = {}
        self.ext_funcs = {}
        self.global_at = {}
        self.typeinfo_bases = {"_ZTISt13runtime_error": ["_ZTISt9exception"], "_ZTISt11logic_error": ["_ZTISt9exception"],
                               "_ZTISt12out_of_range": ["_ZTISt11logic_error"], "_ZTISt16invalid_argument": ["_ZTISt11logic_error"],
                               "_ZTISt12length_error": ["_ZTISt11logic_error"], "_ZTISt9bad_alloc": ["_ZTISt9exception"],
                               "_ZTISt12domain_error": ["_ZTISt11logic_error"], "_ZTISt11range_error": ["_ZTISt13runtime_error"],
                               "_ZTISt14overflow_error": ["_ZTISt13runtime_error"],
                               "_ZTISt20bad_array_new_length": ["_ZTISt9bad_alloc"], "_ZTISt8bad_cast": ["_ZTISt9exception"]}
        self.exc = {}
        self.caught = []
        self.encoded = {}
        self.host = {}
        self.epoch = 0
        self.assumed = set()
        self.calls = 0
        install_libs(self)

    # ---- hooks for Module/Fn
    def new_func_addr(self, f):
        a = self.next_func
        self.next_func += 8
        if a >= Memory.LOW:
            raise Unsupported("too many functions")
        self.funcs_at[a] = f
        return a

    def bind_lazy(self, mod, f):
        py = "F%d_%s" % (len(mod.funcs), ident(f.name)[:60])
        ns = mod.ns

        def stub(*args):
            return self.build(mod, f)(*args)
        ns[py] = stub
        return py

    def build(self, mod, f):
        if f.py is None:
            src = Fn(mod, f).build()
            try:
                exec(compile(src, "<ir:%s>" % f.name, "exec"), mod.ns)
            except SyntaxError:
                raise Unsupported("translation of %s" % f.name)
            f.py = mod.ns[f.pyname]
            self.encoded[(mod.name, f.name)] = f.text[1].count("\n") + 1
        return f.py

    def bind_external(self, mod, name):
        f = self.ext_funcs.get(name)
        if f is None:
            f = Func()
            f.name, f.mod, f.text, f.nparams, f.argtypes, f.varargs = name, None, None, None, None, False
            h = self.host.get(name)
            if h is None:
                def h(*a, _n=name):
                    raise Unsupported("external function " + _n)
            f.host = f.py = h
            f.addr = self.new_func_addr(f)
            f.pyname = "X_" + ident(name)
            self.ext_funcs[name] = f
        mod.ns[f.pyname] = f.py
        return f

    def callee(self, mod, name):
        f = mod.funcs.get(name)
        if f is not None:
            return f.pyname
        if name in mod.aliases:
            return self.callee(mod, unq(mod.aliases[name]))
        return self.bind_external(mod, name).pyname

    def external_global(self, name, ty):
        a = self.ext_globals.get(name)
        if a is not None:
            return a
        h = getattr(self, "make_global", None)
        a = h(name, ty) if h else None
        if a is None:
            if name.startswith("_ZTV"):
                base = self.mem.alloc(96, 16, heap=False, fill=0)
                what = self.host_func("$what")
                dt = self.host_func("$noop")
                for i, v in enumerate([0, 0, dt.addr, dt.addr, what.addr, 0, 0, 0]):
                    struct.pack_into("<Q", self.mem.M, base + 8 * i, v)
                a = base
            elif name.startswith("_ZTI"):
                a = self.mem.alloc(32, 16, heap=False, fill=0)
                self.global_at[a] = ("ext", name)
            elif name in ("_ZSt4cerr", "_ZSt4cout", "_ZSt4clog"):
                a = self.mem.alloc(512, 16, heap=False, fill=0)
                vt = self.mem.alloc(64, 16, heap=False, fill=0)
                ct = self.mem.alloc(1024, 16, heap=False, fill=1)
                struct.pack_into("<Q", self.mem.M, a, vt + 32)
                struct.pack_into("<Q", self.mem.M, a + 240, ct)
            else:
                a = self.mem.alloc(max(16, ty.size if ty else 16), 16, heap=False, fill=0)
        self.ext_globals[name] = a
        self.global_at.setdefault(a, ("ext", name))
        return a

    def host_func(self, name):
        f = self.ext_funcs.get(name)
        if f is None:
            class NS:
                ns = {}
            f = self.bind_external(NS, name)
        return f

    def call_addr(self, addr, *args):
        addr = conc(addr)
        f = self.funcs_at.get(addr)
        if f is None:
            raise Crash("call through a bad function pointer (%s)" % (self.mem.describe(addr)))
        if f.host is not None:
            return f.host(*args)
        py = f.py or self.build(f.mod, f)
        if not f.varargs and len(args) != f.nparams:
            args = (args + (0xDEADBEEFDEAD,) * f.nparams)[:f.nparams]
        return py(*args)

    def make_namespace(self, mod):
        ns = dict(self.base_ns())
        return ns

    # ---- exceptions
    def tinfo_name(self, addr):
        return self.global_at.get(addr, (None, "?%d" % addr))[1]

    def derives(self, name, target, mods):
        if name == target:
            return True
        for m in mods:
            for b in m.typeinfo_bases.get(name, []):
                if self.derives(b, target, mods):
                    return True
        return any(self.derives(b, target, mods) for b in self.typeinfo_bases.get(name, []))

    def lpad(self, exc, clauses, cleanup):
        name = self.tinfo_name(exc.tinfo)
        mods = list(self.modules.values())
        self.exc[exc.obj] = exc
        for c in clauses:
            if c == 0:
                return (exc.obj, 1)
            if self.derives(name, self.tinfo_name(c), mods):
                return (exc.obj, c)
        if not cleanup:
            raise exc
        return (exc.obj, 0)

    def throw_std(self, tname, msg):
        obj = self.mem.alloc(16)
        a = self.cstr(msg)
        vt = self.external_global("_ZTV" + tname[4:], None)
        self.wr(obj, 8, vt + 16)
        self.wr(obj + 8, 8, a)
        ti = self.external_global(tname, None)
        e = CxxThrow(obj, ti, 0)
        self.exc[obj] = e
        raise e

    # ---- memory helpers
    def wr(self, a, n, v):
        self.SD(a, n, v, "i")

    def rd(self, a, n):
        return self.LD(a, n, "i")

    def cstr(self, s):
        b = s if isinstance(s, bytes) else s.encode("utf-8")
        a = self.mem.alloc(len(b) + 1)
        self.mem.M[a:a + len(b) + 1] = b + b"\0"
        return a

    def getstr(self, a, limit=4096):
        a = conc(a)
        M, SH = self.mem.M, self.mem.SH
        out = bytearray()
        while True:
            if SH[a] != 1:
                if SH[a] == 0:
                    raise Crash("string read: " + self.mem.describe(a))
                raise Unsupported("symbolic byte in a string")
            if M[a] == 0:
                return out.decode("utf-8", "surrogateescape")
            out.append(M[a])
            a += 1

    def base_ns(self):
        if hasattr(self, "_ns"):
            return self._ns
        mem = self.mem
        M, SH, SYM = mem.M, mem.SH, mem.SYM
        U = {1: struct.Struct("<B"), 2: struct.Struct("<H"), 4: struct.Struct("<I"), 8: struct.Struct("<Q")}
        D, F = struct.Struct("<d"), struct.Struct("<f")

        def bad(a, n):
            for i in range(n):
                if SH[a + i] == 0:
                    raise Crash(mem.describe(a + i))

        def LD(a, n, kind):
            a = conc(a)
            if a < 0 or a + n > len(SH):
                raise Crash("access outside any object")
            s = SH[a:a + n]
            if s == ONES[n]:
                if kind == "i":
                    return U[n].unpack_from(M, a)[0]
                return D.unpack_from(M, a)[0] if kind == "d" else F.unpack_from(M, a)[0]
            if 0 in s:
                bad(a, n)
            e = SYM.get(a)
            if e is not None:
                v, k = e
                if k == n:
                    if kind == "i" and v.__class__ is SymReal or kind == "d" and v.__class__ is VInt:
                        if kind == "d":
                            raise Unsupported("integer read as double")
                    return v
                if k > n and v.__class__ is VInt and kind == "i":
                    return VTRUNC(v, n * 8)
            raise Unsupported("partial read of a symbolic value")

        def clear(a, n):
            """Remove symbolic scalars wholly inside [a, a+n)."""
            i = a
            if SH[a] == 2:
                raise Unsupported("partial overwrite of a symbolic value")
            while i < a + n:
                if SH[i] == 3:
                    v, k = SYM.pop(i)
                    if i + k > a + n:
                        raise Unsupported("partial overwrite of a symbolic value")
                    SH[i:i + k] = ONES[k]
                    i += k
                else:
                    i += 1

        def SD(a, n, v, kind):
            a = conc(a)
            if a < 0 or a + n > len(SH):
                raise Crash("access outside any object")
            s = SH[a:a + n]
            if s != ONES[n]:
                if 0 in s:
                    bad(a, n)
                clear(a, n)
            c = v.__class__
            if c is bool:
                v = int(v); c = int
            if kind == "i":
                if c is int:
                    U[n].pack_into(M, a, v)
                    return
            elif c is float:
                (D if kind == "d" else F).pack_into(M, a, v)
                return
            if c is SymReal:
                k = v.const()
                if k is not None and Fraction(float(k)) == k:
                    D.pack_into(M, a, float(k))
                    return
            elif c is SymBool:
                v = BITE(v, n * 8, False)
                if v.__class__ is int:
                    U[n].pack_into(M, a, v)
                    return
            elif c is SymInt and kind == "d":
                v = coerce(v)
            elif c is not VInt:
                if c is int and kind == "d":
                    D.pack_into(M, a, float(v))
                    return
                raise Unsupported("store of %r" % c)
            SYM[a] = (v, n)
            SH[a] = 3
            for i in range(1, n):
                SH[a + i] = 2

        def MEMCPY(d, s, n):
            d, s, n = conc(d), conc(s), conc(n)
            if n == 0:
                return d
            if max(d, s) + n > len(SH):
                raise Crash("copy outside any object")
            ss, ds = SH[s:s + n], SH[d:d + n]
            one = b"\x01" * n
            if ss == one and ds == one:
                M[d:d + n] = M[s:s + n]
                return d
            if 0 in ss:
                bad(s, n)
            if 0 in ds:
                bad(d, n)
            ents = []
            if ss != one:
                if ss[0] == 2:
                    raise Unsupported("partial copy of a symbolic value")
                for i in range(n):
                    if ss[i] == 3:
                        v, k = SYM[s + i]
                        if i + k > n:
                            raise Unsupported("partial copy of a symbolic value")
                        ents.append((i, v, k))
            b = bytes(M[s:s + n])
            if ds != one:
                clear(d, n)
            M[d:d + n] = b
            for i, v, k in ents:
                SYM[d + i] = (v, k)
                SH[d + i] = 3
                for j in range(1, k):
                    SH[d + i + j] = 2
            return d

        def MEMSET(d, v, n):
            d, v, n = conc(d), conc(v), conc(n)
            if n == 0:
                return d
            if d + n > len(SH):
                raise Crash("write outside any object")
            ds = SH[d:d + n]
            if ds != b"\x01" * n:
                if 0 in ds:
                    bad(d, n)
                clear(d, n)
            M[d:d + n] = bytes([v & 255]) * n
            return d

        def ALLOCA(n, al):
            a = (mem.sp + al - 1) // al * al
            e = a + n + 16
            if e > len(SH):
                raise Crash("stack overflow")
            SH[a:a + n] = b"\x01" * n
            M[a:a + n] = b"\xbe" * n
            mem.sp = e
            if e > mem.sp_max:
                mem.sp_max = e
            return a

        def BITE(c, w, signed):
            if c.__class__ is bool or c.__class__ is int:
                return ((1 << w) - 1 if signed else 1) if c else 0
            if c.__class__ is SymBool:
                one = -1 if signed else 1
                return VInt.norm(w, z3.If(c.t, z3.IntVal(one), z3.IntVal(0)), min(one, 0), max(one, 0))
            raise Unsupported("boolean conversion")

        def B2I(v):
            return v if v.__class__ is int else BITE(v, 8, False)

        def tb(x):
            return x.t if x.__class__ is SymBool else z3.BoolVal(bool(x))

        def simple(x):
            return x.__class__ is bool

        def XOR1(a, b):
            if simple(a) and simple(b):
                return a != b
            return mkbool(z3.Xor(tb(a), tb(b)))

        def AND1(a, b):
            if simple(a):
                return b if a else False
            if simple(b):
                return a if b else False
            return mkbool(z3.And(tb(a), tb(b)))

        def OR1(a, b):
            if simple(a):
                return True if a else b
            if simple(b):
                return True if b else a
            return mkbool(z3.Or(tb(a), tb(b)))

        def NOT1(a):
            return (not a) if simple(a) else mkbool(z3.Not(tb(a)))

        def scmp(op):
            def f(a, b, w):
                if a.__class__ is int and b.__class__ is int:
                    return op(sgn(a, w), sgn(b, w))
                return mkbool(op(vterm(a, w), vterm(b, w)))
            return f

        def VTRUNC(a, w):
            if a.__class__ is int:
                return a & ((1 << w) - 1)
            if a.__class__ is VInt:
                return VInt.norm(w, a.t, a.lo, a.hi)
            if a.__class__ is SymBool:
                return BITE(a, w, False)
            raise Unsupported("truncation of %r" % a.__class__)

        def TRUNC1(a):
            if a.__class__ is int:
                return a & 1 != 0
            if a.__class__ is VInt:
                return mkbool(a.t % 2 == 1)
            return a

        def VZEXT(a, w):
            if a.__class__ is VInt:
                return VInt.norm(w, a.u(), 0 if a.lo < 0 else a.lo, (1 << a.w) - 1 if a.lo < 0 else a.hi)
            if a.__class__ is SymBool or a.__class__ is bool:
                return BITE(a, w, False)
            raise Unsupported("zero extension of %r" % a.__class__)

        def SEXT(a, w1, w2):
            if a.__class__ is int:
                return sgn(a, w1) & ((1 << w2) - 1)
            if a.__class__ is VInt:
                return VInt.norm(w2, a.t, a.lo, a.hi)
            raise Unsupported("sign extension")

        def sidx(w):
            h, f = 1 << (w - 1), 1 << w

            def g(v):
                if v.__class__ is not int:
                    v = conc(v)
                return v - f if v >= h else v
            return g

        def SEL(c, a, b, w):
            return a if c else b

        def SEL1(c, a, b):
            if simple(a) and simple(b):
                return c if a and not b else NOT1(c) if b and not a else a
            return mkbool(z3.If(tb(c), tb(a), tb(b)))

        def ASHR(a, k, w):
            k = conc(k)
            if a.__class__ is int:
                return (sgn(a, w) >> k) & ((1 << w) - 1)
            return VInt.norm(w, a.t / (1 << k), a.lo >> k, a.hi >> k)

        def divlike(op):
            def f(a, b, w):
                if a.__class__ is int and b.__class__ is int:
                    if b == 0:
                        raise Crash("integer division by zero")
                    if op in ("udiv", "urem"):
                        return a // b if op == "udiv" else a % b
                    x, y = sgn(a, w), sgn(b, w)
                    q = abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1)
                    return (q if op == "sdiv" else x - q * y) & ((1 << w) - 1)
                bt = vterm(b, w)
                if mkbool(bt == 0):
                    raise Crash("integer division by zero")
                if op in ("udiv", "urem"):
                    x = a.u() if a.__class__ is VInt else z3.IntVal(a)
                    y = b.u() if b.__class__ is VInt else z3.IntVal(b)
                    return VInt.norm(w, x / y if op == "udiv" else x % y, 0, (1 << w) - 1)
                x, y = vterm(a, w), bt
                q = z3.If((x >= 0), z3.If(y > 0, x / y, -(x / -y)), z3.If(y > 0, -(-x / y), (-x) / (-y)))
                h = 1 << (w - 1)
                return VInt.norm(w, q if op == "sdiv" else x - q * y, -h, h)
            return f

        def mm(name):
            signed, mx = name[0] == "S", name.endswith("MAX")

            def f(a, b, w):
                if a.__class__ is int and b.__class__ is int:
                    k = (lambda v: sgn(v, w)) if signed else (lambda v: v)
                    return max(a, b, key=k) if mx else min(a, b, key=k)
                x, y = vterm(a, w), vterm(b, w)
                if not signed:
                    xu = a.u() if a.__class__ is VInt else z3.IntVal(a)
                    yu = b.u() if b.__class__ is VInt else z3.IntVal(b)
                else:
                    xu, yu = x, y
                alo, ahi = (a.lo, a.hi) if a.__class__ is VInt else (sgn(a, w),) * 2
                blo, bhi = (b.lo, b.hi) if b.__class__ is VInt else (sgn(b, w),) * 2
                c = xu >= yu if mx else xu <= yu
                return VInt.norm(w, z3.If(c, x, y), min(alo, blo), max(ahi, bhi))
            return f

        def IABS(a, w):
            if a.__class__ is int:
                return abs(sgn(a, w)) & ((1 << w) - 1)
            return VInt.norm(w, z3.If(a.t < 0, -a.t, a.t), 0, max(abs(a.lo), abs(a.hi)))

        def FMUL(a, b):
            return a * b

        def FDIV(a, b):
            if a.__class__ is float and b.__class__ is float:
                if b == 0:
                    if a == 0 or a != a:
                        return math.nan
                    return math.copysign(math.inf, a) * math.copysign(1.0, b)
                q = a / b
                if abs(q) < 1e18 and Fraction(q) * Fraction(b) != Fraction(a):
                    return sx.SymReal(Fraction(a) / Fraction(b))    # exact, like every other quotient
                return q
            if b.__class__ is float and b != b or a.__class__ is float and a != a:
                return math.nan
            if b == 0:
                if a == 0:
                    return math.nan
                return math.inf if a > 0 else -math.inf
            return a / b

        def FREM(a, b):
            if a.__class__ is float and b.__class__ is float:
                try:
                    return math.fmod(a, b)
                except ValueError:
                    return math.nan
            return a - sx.trunc(a / b) * b

        def I2D(a):
            if a.__class__ is int:
                return D.unpack(U[8].pack(a))[0]
            if a.__class__ is SymReal:
                return a
            raise Unsupported("integer to double bits")

        def D2I(a):
            if a.__class__ is float:
                return U[8].unpack(D.pack(a))[0]
            return a

        def FPTOSI(a, w):
            h = 1 << (w - 1)
            if a.__class__ is float:
                if a != a or not -h - 1 < a < h:
                    return h
                return int(a) & ((1 << w) - 1)
            k = sx.trunc(a)
            if k.__class__ is int:
                return k & ((1 << w) - 1) if -h <= k < h else h
            if (k < -h) or (k >= h):
                return h
            return VInt.norm(w, k.t, -h, h - 1)

        def FPTOUI(a, w):
            f = 1 << w
            if a.__class__ is float:
                if a != a or not -1 < a < f:
                    return 0
                return int(a)
            k = sx.trunc(a)
            if k.__class__ is int:
                return k & (f - 1)
            if (k < 0) or (k >= f):
                return 0
            return VInt.norm(w, k.t, 0, f - 1)

        def SITOFP(a, w):
            if a.__class__ is int:
                return float(sgn(a, w))
            if a.__class__ is SymBool:
                a = BITE(a, w, True)
            return SymReal(z3.ToReal(a.t))

        def UITOFP(a, w):
            if a.__class__ is int:
                return float(a)
            if a.__class__ is SymBool:
                a = BITE(a, w, False)
            return SymReal(z3.ToReal(a.u()))

        def FPTRUNC(a):
            if a.__class__ is float:
                return F.unpack(F.pack(a))[0]
            # rounded when it surely has more than 24 bits (values below 16 and multiples of 2^-19 are taken as exact)
            if a.__class__ is not SymReal:
                raise Unsupported("single precision")
            t = a.z()
            k = z3.ToInt(t * (1 << 19))
            r = E.fresh("single")
            d = z3.If(t >= 0, t, -t) / (1 << 23)
            E.add(z3.If(z3.And(z3.Or(t >= 16, t <= -16), z3.ToReal(k) != t * (1 << 19)), z3.And(r != t, r - t <= d, t - r <= d), r == t))
            return SymReal(r)

        def INSV(agg, v, ix):
            l = list(agg)
            l[ix[0]] = v if len(ix) == 1 else INSV(l[ix[0]], v, ix[1:])
            return tuple(l)

        def RESUME(a):
            raise self.exc[conc(a[0])]

        def BYVAL(a):
            raise Unsupported("byval argument")

        def TRAP():
            raise Crash("trap")

        def OVF(kind, a, b, w):
            a, b = conc(a), conc(b)
            op = kind[1:4]
            if kind[0] == "s":
                a, b = sgn(a, w), sgn(b, w)
            r = a + b if op == "add" else a - b if op == "sub" else a * b
            lo, hi = (0, (1 << w) - 1) if kind[0] == "u" else (-(1 << (w - 1)), (1 << (w - 1)) - 1)
            return (r & ((1 << w) - 1), not lo <= r <= hi)

        def SAT(kind, a, b, w):
            a, b = conc(a), conc(b)
            r = a - b if kind == "usub" else a + b
            return max(0, min(r, (1 << w) - 1))

        def BITS(k, a, w):
            a = conc(a)
            if k == "ctpop":
                return bin(a).count("1")
            if k == "cttz":
                return w if a == 0 else (a & -a).bit_length() - 1
            if k == "ctlz":
                return w - a.bit_length()
            return int.from_bytes(a.to_bytes(w // 8, "little"), "big")

        def UNSUP(n):
            raise Unsupported("intrinsic " + n)

        def fm(name):
            def f(*a):
                return libm(name, *a)
            return f
        import operator as op
        ns = dict(M=M, SH=SH, MEM=mem, ONE1=ONES[1], ONE2=ONES[2], ONE4=ONES[4], ONE8=ONES[8], U1=U[1].unpack_from, U2=U[2].unpack_from,
                  U4=U[4].unpack_from, U8=U[8].unpack_from, P1=U[1].pack_into, P2=U[2].pack_into, P4=U[4].pack_into, P8=U[8].pack_into,
                  UD=D.unpack_from, PD=D.pack_into, LD=LD, SD=SD, ALLOCA=ALLOCA, CONC=conc, SIDX8=sidx(8), SIDX16=sidx(16), SIDX32=sidx(32),
                  SIDX64=sidx(64), SIDX1=lambda v: -1 if v else 0, B2I=B2I, XOR1=XOR1, AND1=AND1, OR1=OR1, NOT1=NOT1, SLT=scmp(op.lt), SLE=scmp(op.le), SGT=scmp(op.gt),
                  SGE=scmp(op.ge), ASHR=ASHR, UDIV=divlike("udiv"), SDIV=divlike("sdiv"), UREM=divlike("urem"), SREM=divlike("srem"),
                  SEL=SEL, SEL1=SEL1, TRUNC1=TRUNC1, VTRUNC=VTRUNC, BITE=BITE, VZEXT=VZEXT, SEXT=SEXT, I2D=I2D, D2I=D2I, FPTOSI=FPTOSI,
                  FPTOUI=FPTOUI, SITOFP=SITOFP, UITOFP=UITOFP, FPTRUNC=FPTRUNC, FMUL=FMUL, FDIV=FDIV, FREM=FREM, INSV=INSV, RESUME=RESUME,
                  LPAD=self.lpad, BYVAL=BYVAL, ICALL=self.call_addr, MEMCPY=MEMCPY, MEMSET=MEMSET, SMAX=mm("SMAX"), SMIN=mm("SMIN"),
                  UMAX=mm("UMAX"), UMIN=mm("UMIN"), IABS=IABS, TRAP=TRAP, OVF=OVF, SAT=SAT, BITS=BITS, UNSUP=UNSUP, Unsupported=Unsupported,
                  Crash=Crash, CxxThrow=CxxThrow, **{"FM_" + k: fm(k) for k in LIBM})
        self.LD, self.SD, self.MEMCPY, self.MEMSET = LD, SD, MEMCPY, MEMSET
        self._ns = ns
        return ns


LIBM = ["fabs", "sqrt", "floor", "ceil", "pow", "exp", "log", "sin", "cos", "tan", "atan", "atan2", "asin", "acos", "trunc", "rint", "nearbyint",
        "round", "copysign", "minnum", "maxnum", "powi", "log10", "exp2", "log2", "fmod", "fmin", "fmax", "hypot", "sinh", "cosh", "tanh"]


def libm(name, *a):
    """C library mathematics: no exceptions, NaN and infinities as in C."""
    if name == "powi":
        k = sgn(conc(a[1]), 32)
        a = (a[0], float(k))
        name = "pow"
    if all(x.__class__ is float for x in a):
        x = a[0]
        try:
            if name == "fabs":
                return abs(x)
            if name == "sqrt":
                return math.sqrt(x) if x >= 0 else math.nan
            if name in ("floor", "ceil", "trunc", "rint", "nearbyint", "round"):
                if x != x or abs(x) == math.inf:
                    return x
                if name == "round":
                    return float(math.floor(abs(x) + 0.5)) * math.copysign(1, x)
                return float({"floor": math.floor, "ceil": math.ceil, "trunc": math.trunc, "rint": round, "nearbyint": round}[name](x))
            if name in ("minnum", "fmin"):
                return a[1] if x != x else x if a[1] != a[1] else min(a)
            if name in ("maxnum", "fmax"):
                return a[1] if x != x else x if a[1] != a[1] else max(a)
            if name == "log" and x == 0:
                return -math.inf
            if name == "exp2":
                return 2.0 ** x
            return float(getattr(math, name)(*a))
        except ValueError:
            return math.nan
        except OverflowError:
            return math.inf
    x = a[0]
    if name == "fabs":
        return abs(x)
    if name == "sqrt":
        return math.nan if x < 0 else sx.root(x, 2)
    if name in ("floor", "ceil", "trunc"):
        k = sx.fl(x) if name == "floor" else -sx.fl(-x) if name == "ceil" else sx.trunc(x)
        return coerce(k)
    if name in ("rint", "nearbyint"):
        return coerce(sx.rnd(x))
    if name == "round":
        k = sx.fl(abs(x) + 0.5)
        return coerce(k) if x >= 0 else -coerce(k)
    if name in ("minnum", "fmin"):
        return x if x <= a[1] else a[1]
    if name in ("maxnum", "fmax"):
        return x if x >= a[1] else a[1]
    if name == "copysign":
        return abs(x) if a[1] >= 0 else -abs(x)
    if name == "pow":
        r = coerce(x) ** a[1]
        return math.nan if isinstance(r, sx.Complexish) else r
    if name == "hypot":
        return sx.root(coerce(x) * x + coerce(a[1]) * a[1], 2)
    if name == "atan2":
        return sx.atan2(*a)
    return sx.symfun(name, *a)


def install_libs(prog):
    """libc and libstdc++ stand-ins, by mangled name."""
    prog.base_ns()
    mem = prog.mem
    M, SH = mem.M, mem.SH
    rd, wr = prog.rd, prog.wr
    H = prog.host

    def reg(*names):
        def d(f):
            for n in names:
                H[n] = f
            return f
        return d

    @reg("_Znwm", "_Znam", "malloc", "PyMem_Malloc", "PyObject_Malloc")
    def _new(n):
        n = conc(n)
        if n > 1 << 22:
            if n > 1 << 40:
                prog.throw_std("_ZTISt9bad_alloc", "std::bad_alloc")
            raise Unsupported("allocation of %d bytes" % n)
        return mem.alloc(n)

    @reg("calloc", "PyMem_Calloc", "PyObject_Calloc")
    def _calloc(a, b):
        return mem.alloc(conc(a) * conc(b), fill=0)

    @reg("realloc", "PyMem_Realloc", "PyObject_Realloc")
    def _realloc(p, n):
        n = conc(n)
        q = mem.alloc(n)
        if p:
            prog.MEMCPY(q, p, min(n, mem.live.get(p, 0)))
            mem.free(p)
        return q

    @reg("_ZdlPv", "_ZdaPv", "free", "PyMem_Free", "PyObject_Free")
    def _del(p):
        mem.free(conc(p))

    @reg("_ZdlPvm", "_ZdaPvm", "_ZdlPvSt11align_val_t")
    def _delm(p, n):
        mem.free(conc(p))

    @reg("memcpy", "memmove")
    def _mc(d, s, n):
        return prog.MEMCPY(d, s, n)

    @reg("memset")
    def _ms(d, v, n):
        return prog.MEMSET(d, v, n)

    def rbytes(a, n):
        a, n = conc(a), conc(n)
        s = SH[a:a + n]
        if s != b"\x01" * n:
            if 0 in s:
                raise Crash("read: " + mem.describe(a))
            raise Unsupported("bytes of a symbolic value")
        return bytes(M[a:a + n])

    @reg("memcmp", "bcmp")
    def _mcmp(a, b, n):
        x, y = rbytes(a, n), rbytes(b, n)
        return 0 if x == y else 1 if x > y else 0xFFFFFFFF

    @reg("strlen")
    def _strlen(a):
        return len(prog.getstr(a).encode("utf-8", "surrogateescape"))

    @reg("strcmp")
    def _strcmp(a, b):
        x, y = prog.getstr(a), prog.getstr(b)
        return 0 if x == y else 1 if x > y else 0xFFFFFFFF

    @reg("strncmp")
    def _strncmp(a, b, n):
        n = conc(n)
        x, y = prog.getstr(a)[:n], prog.getstr(b)[:n]
        return 0 if x == y else 1 if x > y else 0xFFFFFFFF

    @reg("memchr")
    def _memchr(a, c, n):
        k = rbytes(a, n).find(bytes([conc(c) & 255]))
        return 0 if k < 0 else conc(a) + k

    @reg("abort", "_ZSt9terminatev", "__stack_chk_fail")
    def _abort(*a):
        raise Crash("the process aborts (std::terminate)")

    @reg("exit", "_exit")
    def _exit(*a):
        raise Crash("the process exits")

    @reg("__assert_fail")
    def _assert(*a):
        raise Crash("assertion failure: " + prog.getstr(a[0]))

    @reg("__cxa_atexit", "__cxa_guard_release", "__cxa_thread_atexit", "$noop", "_ZNSt8ios_base4InitC1Ev", "_ZNSt8ios_base4InitD1Ev")
    def _zero(*a):
        return 0

    @reg("__cxa_guard_acquire")
    def _guard(g):
        if rd(g, 1) == 0:
            wr(g, 1, 1)
            return 1
        return 0

    @reg("$what", "_ZNKSt13runtime_error4whatEv", "_ZNKSt11logic_error4whatEv", "_ZNKSt9exception4whatEv")
    def _what(this):
        return rd(conc(this) + 8, 8)

    def exc_ctor(cls, frm):
        vt = "_ZTV" + cls

        def f(this, arg):
            arg = conc(arg)
            s = prog.getstr(arg) if frm == "c" else prog.getstr(rd(arg, 8))
            wr(this, 8, prog.external_global(vt, None) + 16)
            wr(conc(this) + 8, 8, prog.cstr(s))
        return f
    for cls in ("St13runtime_error", "St11logic_error", "St12out_of_range", "St16invalid_argument", "St12length_error", "St12domain_error",
                "St11range_error", "St14overflow_error"):
        for c in ("C1", "C2"):
            H["_ZN%s%sEPKc" % (cls, c)] = exc_ctor(cls, "c")
            H["_ZN%s%sERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE" % (cls, c)] = exc_ctor(cls, "s")

            def cc(this, o):
                wr(this, 8, rd(o, 8))
                wr(conc(this) + 8, 8, prog.cstr(prog.getstr(rd(conc(o) + 8, 8))))
            H["_ZN%s%sERKS_" % (cls, c)] = H["_ZN%s%sEOS_" % (cls, c)] = cc
        for d in ("D0", "D1", "D2"):
            H["_ZN%s%sEv" % (cls, d)] = _zero
    for d in ("D0", "D1", "D2"):
        H["_ZNSt9exception%sEv" % d] = _zero

    for fn, ti in (("_ZSt19__throw_logic_errorPKc", "_ZTISt11logic_error"), ("_ZSt20__throw_length_errorPKc", "_ZTISt12length_error"),
                   ("_ZSt20__throw_out_of_rangePKc", "_ZTISt12out_of_range"), ("_ZSt24__throw_out_of_range_fmtPKcz", "_ZTISt12out_of_range"),
                   ("_ZSt24__throw_invalid_argumentPKc", "_ZTISt16invalid_argument"), ("_ZSt21__throw_runtime_errorPKc", "_ZTISt13runtime_error")):
        def th(msg, *a, _ti=ti):
            prog.throw_std(_ti, prog.getstr(msg))
        H[fn] = th
    for fn, ti in (("_ZSt17__throw_bad_allocv", "_ZTISt9bad_alloc"), ("_ZSt28__throw_bad_array_new_lengthv", "_ZTISt20bad_array_new_length"),
                   ("_ZSt16__throw_bad_castv", "_ZTISt8bad_cast"), ("_ZSt25__throw_bad_function_callv", "_ZTISt17bad_function_call")):
        def th0(*a, _ti=ti):
            prog.throw_std(_ti, _ti)
        H[fn] = th0

    @reg("__cxa_allocate_exception")
    def _cae(n):
        return mem.alloc(conc(n))

    @reg("__cxa_free_exception")
    def _cfe(p):
        mem.free(conc(p))

    @reg("__cxa_throw")
    def _throw(obj, ti, dtor):
        e = CxxThrow(conc(obj), ti, dtor)
        prog.exc[e.obj] = e
        raise e

    @reg("__cxa_begin_catch")
    def _bc(obj):
        obj = conc(obj)
        prog.caught.append(prog.exc[obj])
        return obj

    @reg("__cxa_end_catch")
    def _ec():
        e = prog.caught.pop()
        if e not in prog.caught and not getattr(e, "flying", False):
            if e.dtor:
                prog.call_addr(e.dtor, e.obj)
            mem.free(e.obj)
        e.flying = False

    @reg("__cxa_rethrow")
    def _rt():
        if not prog.caught:
            raise Crash("rethrow without an exception: std::terminate")
        e = prog.caught[-1]
        e.flying = True
        raise e

    @reg("__cxa_get_exception_ptr")
    def _gep(o):
        return o

    # red-black tree primitives: the trees are kept as plain binary search trees (node: color@0 parent@8 left@16 right@24)
    def par(x):
        return rd(x + 8, 8)

    def left(x):
        return rd(x + 16, 8)

    def right(x):
        return rd(x + 24, 8)

    @reg("_ZSt18_Rb_tree_incrementPSt18_Rb_tree_node_base", "_ZSt18_Rb_tree_incrementPKSt18_Rb_tree_node_base")
    def rb_inc(x):
        x = conc(x)
        if right(x):
            x = right(x)
            while left(x):
                x = left(x)
            return x
        y = par(x)
        while x == right(y):
            x, y = y, par(y)
        return y if right(x) != y else x

    @reg("_ZSt18_Rb_tree_decrementPSt18_Rb_tree_node_base", "_ZSt18_Rb_tree_decrementPKSt18_Rb_tree_node_base")
    def rb_dec(x):
        x = conc(x)
        if rd(x, 4) == 0 and par(par(x)) == x:
            return right(x)
        if left(x):
            y = left(x)
            while right(y):
                y = right(y)
            return y
        y = par(x)
        while x == left(y):
            x, y = y, par(y)
        return y

    @reg("_ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_")
    def rb_ins(ins_left, x, p, header):
        x, p, header = conc(x), conc(p), conc(header)
        wr(x + 8, 8, p)
        wr(x + 16, 8, 0)
        wr(x + 24, 8, 0)
        wr(x, 4, 1)               # black: only the header is red, as decrement expects
        if bool(ins_left):
            wr(p + 16, 8, x)
            if p == header:
                wr(header + 8, 8, x)
                wr(header + 24, 8, x)
            elif p == left(header):
                wr(header + 16, 8, x)
        else:
            wr(p + 24, 8, x)
            if p == right(header):
                wr(header + 24, 8, x)

    @reg("_ZSt28_Rb_tree_rebalance_for_erasePSt18_Rb_tree_node_baseRS_")
    def rb_del(z, header):
        z, header = conc(z), conc(header)
        l, r, p = left(z), right(z), par(z)

        def repl(old, new, parent):
            if par(header) == old:
                wr(header + 8, 8, new)
            elif left(parent) == old:
                wr(parent + 16, 8, new)
            else:
                wr(parent + 24, 8, new)
            if new:
                wr(new + 8, 8, parent)
        if l == 0 or r == 0:
            x = l or r
            repl(z, x, p)
            if left(header) == z:
                m = x or p
                if x:
                    while left(m):
                        m = left(m)
                wr(header + 16, 8, m)
            if right(header) == z:
                m = x or p
                if x:
                    while right(m):
                        m = right(m)
                wr(header + 24, 8, m)
            return z
        y = r
        while left(y):
            y = left(y)
        if y != r:
            repl(y, right(y), par(y))
            wr(y + 24, 8, r)
            wr(r + 8, 8, y)
        repl(z, y, p)
        wr(y + 16, 8, l)
        wr(l + 8, 8, y)
        return z

    # output streams: output is discarded
    for n in ("_ZSo3putEc", "_ZSo5flushEv", "_ZNSo3putEc", "_ZNSo5flushEv", "_ZNSo9_M_insertIPKvEERSoT_", "_ZNSo9_M_insertIdEERSoT_",
              "_ZNSo9_M_insertImEERSoT_", "_ZNSo9_M_insertIlEERSoT_", "_ZNSolsEi", "_ZNSolsEd", "_ZNSo9_M_insertIbEERSoT_",
              "_ZSt16__ostream_insertIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_PKS3_l", "_ZStlsISt11char_traitsIcEERSt13basic_ostreamIcT_ES5_PKc"):
        def out(s, *a):
            return s
        H[n] = out
    H["_ZNKSt5ctypeIcE13_M_widen_initEv"] = _zero
    for n in LIBM:
        def f(*a, _n=n):
            return libm(_n, *a)
        H.setdefault(n, f)
