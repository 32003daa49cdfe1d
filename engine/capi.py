"""CPython API on the virtual machine's memory: objects seen by the extension code have an address, a header with a reference count
and a type; extension types become host classes whose methods run the translated code."""
import struct, sys, types, weakref
from fractions import Fraction
import z3
from . import sx
from .sx import E, SymBool, SymReal, SymInt, VInt, mkbool, sgn, conc, coerce, Crash, Unsupported
from .irvm import CxxThrow, M64
from .rt import Program, compile_ir

IMMORTAL = 0xFFFFFFFF
F_LONG, F_LIST, F_TUPLE, F_BYTES, F_UNICODE, F_DICT, F_EXC, F_TYPE = (1 << k for k in range(24, 32))
F_READY, F_BASETYPE, F_HAVEGC = 1 << 12, 1 << 10, 1 << 14
OPS = {"__add__": 0, "__sub__": 8, "__mul__": 16, "__mod__": 24, "__divmod__": 32, "__lshift__": 88, "__rshift__": 96, "__and__": 104,
       "__xor__": 112, "__or__": 120, "__floordiv__": 232, "__truediv__": 240}
IOPS = {"__iadd__": 152, "__isub__": 160, "__imul__": 168, "__imod__": 176, "__ilshift__": 192, "__irshift__": 200, "__iand__": 208,
        "__ixor__": 216, "__ior__": 224, "__ifloordiv__": 248, "__itruediv__": 256}
UOPS = {"__neg__": 48, "__pos__": 56, "__abs__": 64, "__invert__": 80, "__int__": 128, "__float__": 144, "__index__": 264}
CMP = {"__lt__": 0, "__le__": 1, "__eq__": 2, "__ne__": 3, "__gt__": 4, "__ge__": 5}


class Capsule:
    def __init__(self, ptr, name):
        self.ptr, self.name = ptr, name


class VMBase:
    """Instance of an extension type living at _addr in VM memory."""
    __slots__ = ("_addr", "_ep", "__weakref__", "__dict__")

    def __reduce_ex__(self, proto):
        raise TypeError("cannot pickle '%s' object" % type(self).__name__)


class Bridge(Program):
    def __init__(self):
        self.type_at = {}       # address -> class
        self.type_addr_of = {}  # class -> address
        self.host_addr = {}     # id(obj) -> addr
        self.host_obj = {}      # addr -> obj
        self.extra = {}         # addr -> list of VM buffers to free with it
        self.wrappers = {}      # vm addr -> weakref to wrapper
        self.err = None
        self.pins = []
        self.depth = 0
        self.pending = None
        self.singletons = {}
        Program.__init__(self)
        for cls, nm, fl in ((float, "PyFloat_Type", 0), (int, "PyLong_Type", F_LONG), (bool, "PyBool_Type", F_LONG), (str, "PyUnicode_Type", F_UNICODE),
                            (bytes, "PyBytes_Type", F_BYTES), (list, "PyList_Type", F_LIST), (tuple, "PyTuple_Type", F_TUPLE),
                            (dict, "PyDict_Type", F_DICT), (type, "PyType_Type", F_TYPE), (object, "PyBaseObject_Type", 0)):
            self.make_type(cls, fl, nm)
        for obj, nm in ((None, "_Py_NoneStruct"), (True, "_Py_TrueStruct"), (False, "_Py_FalseStruct"), (NotImplemented, "_Py_NotImplementedStruct"),
                        (Ellipsis, "_Py_EllipsisObject")):
            a = self.mem.alloc(64, 16, heap=False, fill=0)
            self.wr(a, 8, IMMORTAL)
            self.wr(a + 8, 8, self.type_addr(type(obj)))
            self.ext_globals[nm] = a
            self.host_obj[a] = obj
            self.singletons[id(obj)] = a
        install_capi(self)

    # ---------------------------------------------------------------- types
    def make_type(self, cls, flags, nm=None):
        a = self.mem.alloc(416, 16, heap=False, fill=0)
        self.wr(a, 8, IMMORTAL)
        for base, fl in ((int, F_LONG), (str, F_UNICODE), (list, F_LIST), (tuple, F_TUPLE), (dict, F_DICT), (bytes, F_BYTES), (type, F_TYPE),
                         (BaseException, F_EXC)):
            if issubclass(cls, base):
                flags |= fl
        self.wr(a + 168, 8, flags | F_READY)
        self.wr(a + 24, 8, self.cstr(cls.__name__))
        self.type_at[a] = cls
        self.type_addr_of[cls] = a
        if nm:
            self.ext_globals[nm] = a
        meta = self.type_addr_of.get(type)
        if meta:
            self.wr(a + 8, 8, meta)
        return a

    def type_addr(self, cls):
        if cls is SymReal:
            cls = float
        elif cls is SymInt:
            cls = int
        elif cls is SymBool:
            cls = bool
        a = self.type_addr_of.get(cls)
        return a if a is not None else self.make_type(cls, 0)

    def make_global(self, name, ty):
        if name.startswith("PyExc_"):
            cls = getattr(__builtins__, name[6:], None) if not isinstance(__builtins__, dict) else __builtins__.get(name[6:])
            if cls is None:
                return None
            a = self.mem.alloc(8, 8, heap=False, fill=0)
            self.wr(a, 8, self.type_addr(cls))
            return a
        return None

    # ---------------------------------------------------------------- objects
    def addr_new(self, obj):
        """Address of obj with a new reference."""
        if isinstance(obj, VMBase):
            a = obj._addr
            if obj._ep != self.epoch:
                raise Unsupported("object of another path")
            self.incref(a)
            return a
        if isinstance(obj, type):
            return self.type_addr(obj)
        a = self.singletons.get(id(obj))
        if a is not None:
            return a
        if obj.__class__ is SymBool:
            return self.addr_new(bool(obj))
        a = self.host_addr.get(id(obj))
        if a is not None:
            self.incref(a)
            return a
        a = self.mem.alloc(48)
        self.mem.M[a:a + 48] = bytes(48)
        self.wr(a, 8, 1)
        self.wr(a + 8, 8, self.type_addr(type(obj)))
        if isinstance(obj, float):
            self.SD(a + 16, 8, float(obj), "d")
        elif obj.__class__ is SymReal:
            self.SD(a + 16, 8, obj, "d")
        elif isinstance(obj, (list, tuple, dict)):
            self.wr(a + 16, 8, len(obj))
        self.host_addr[id(obj)] = a
        self.host_obj[a] = obj
        return a

    def pin(self, obj):
        """Borrowed address: kept alive until the outermost call from the host ends."""
        a = self.addr_new(obj)
        self.pins.append(a)
        return a

    def buffer(self, a, data):
        """VM copy of bytes that lives as long as the host object at a."""
        b = self.cstr(data)
        self.extra.setdefault(a, []).append(b)
        return b

    def incref(self, a):
        rc = self.rd(a, 8)
        if rc & 0xFFFFFFFF == IMMORTAL:
            return
        self.wr(a, 8, rc + 1)

    def decref(self, a):
        rc = self.rd(a, 8)
        if rc & 0xFFFFFFFF == IMMORTAL:
            return
        if rc == 0 or rc > 1 << 31:
            raise Crash("reference count of a dead object")
        self.wr(a, 8, rc - 1)
        if rc == 1:
            self.dealloc(a)

    def dealloc(self, a):
        a = conc(a)
        if a in self.host_obj:
            if a in self.pins:
                raise Crash("an object is released more often than it is held")
            obj = self.host_obj.pop(a)
            self.host_addr.pop(id(obj), None)
            for b in self.extra.pop(a, ()):
                self.mem.free(b)
            self.mem.free(a)
            return
        w = self.wrappers.get(a)
        if w is not None and w() is not None and w()._ep == self.epoch:
            raise Crash("an object is freed while a holder remains")
        tp = self.rd(a + 8, 8)
        d = self.rd(tp + 48, 8)
        if d:
            self.call_addr(d, a)
        else:
            self.mem.free(a)

    def obj_at(self, a):
        """Host view of the object at a (borrowed)."""
        a = conc(a)
        if a == 0:
            raise Crash("null object")
        if a in self.host_obj:
            self.rd(a, 8)
            return self.host_obj[a]
        if a in self.type_at:
            return self.type_at[a]
        tp = self.rd(a + 8, 8)
        cls = self.type_at.get(tp)
        if cls is None:
            raise Crash("not a Python object (%s)" % self.mem.describe(a))
        w = self.wrappers.get(a)
        o = w() if w is not None else None
        if o is not None and o._ep == self.epoch:
            return o
        o = object.__new__(cls)
        o._addr, o._ep = a, self.epoch
        self.incref(a)
        self.wrappers[a] = weakref.ref(o)
        return o

    def take(self, a):
        """Host view of a and consume one reference to it."""
        o = self.obj_at(a)
        self.decref(a)
        return o

    # ---------------------------------------------------------------- calls from the host
    def poll(self):
        if E.poison is not None:
            raise E.poison

    def enter(self, fn, *args):
        """Run VM code at fn from the host; returns the raw result."""
        self.poll()
        outer = self.pins
        self.pins = []
        self.depth += 1
        self.calls += 1
        try:
            try:
                return self.call_addr(fn, *args)
            except CxxThrow as e:
                raise Crash("uncaught C++ exception %s: std::terminate" % self.tinfo_name(e.tinfo))
        finally:
            self.depth -= 1
            pins, self.pins = self.pins, outer
            if E.poison is None:
                for a in pins:
                    if a in self.host_obj or a not in self.mem.freed:
                        self.decref(a)
                    else:
                        raise Crash("an object is released more often than it is held")

    def args(self, *objs):
        return [self.addr_new(o) for o in objs]

    def call(self, fn, *objs, null_ok=False, self_addr=None):
        """Call a PyObject*-returning function with host objects."""
        self.poll()
        al = []
        for o in objs:
            al.append(0 if o is MISSING else self.addr_new(o))
        self.err = None
        try:
            r = conc(self.enter(fn, *al))
            if r == 0:
                if self.err is None:
                    raise SystemError("NULL result without an exception")
                self.throw()
            if self.err is not None:
                raise SystemError("a function returned a result with an exception set")
            return self.take(r)
        finally:
            if E.poison is None:
                for a in al:
                    if a:
                        self.decref(a)

    def call_int(self, fn, objs, extra=()):
        """Call an int-returning function; raises when an error is set."""
        self.poll()
        al = [self.addr_new(o) if o is not MISSING else 0 for o in objs]
        self.err = None
        try:
            r = self.enter(fn, *(al + list(extra)))
            if self.err is not None:
                self.throw()
            return r
        finally:
            if E.poison is None:
                for a in al:
                    if a:
                        self.decref(a)

    def throw(self):
        e = self.err
        self.err = None
        if isinstance(e, BaseException):
            raise e
        cls, msg = e
        raise cls(msg)

    # ---------------------------------------------------------------- modules
    def load(self, name, text):
        from .irvm import Module
        m = Module(self, name, text)
        self.modules[name] = m
        for c in m.ctors:
            f = m.funcs.get(c)
            self.call_addr(f.addr)
        return m

    def init_module(self, name, full):
        m = self.modules[name]
        f = m.funcs.get("PyInit_" + name)
        if f is None:
            raise Unsupported("no PyInit_" + name)
        self.err = None
        r = conc(self.enter(f.addr))
        if r == 0 or self.err is not None:
            if self.err is not None:
                self.throw()
            raise SystemError("initialisation of %s failed" % name)
        mod = self.obj_at(r)
        mod.__name__ = full
        sys.modules[full] = mod
        import importlib
        pk, _, leaf = full.rpartition(".")
        if pk in sys.modules:
            setattr(sys.modules[pk], leaf, mod)
        return mod

    def boot(self, texts, package="xboa.core"):
        for n, t in texts.items():
            self.load(n, t)
        for n in ("_weight_context", "_hitcore", "_bunchcore"):
            if n in texts and package + "." + n not in sys.modules:
                self.init_module(n, package + "." + n)
        self.snap = (self.mem.snapshot(), dict(self.host_addr), dict(self.host_obj), {k: list(v) for k, v in self.extra.items()}, self.next_func)

    def reset(self):
        s, ha, ho, ex, nf = self.snap
        self.mem.restore(s)
        self.host_addr = dict(ha)
        self.host_obj = dict(ho)
        self.extra = {k: list(v) for k, v in ex.items()}
        self.wrappers = {}
        self.err = None
        self.pins = []
        self.depth = 0
        self.exc = {}
        self.caught = []
        self.epoch += 1
        # types created for host classes after the snapshot are forgotten
        for a, c in list(self.type_at.items()):
            if a >= s[3]:
                del self.type_at[a]
                if self.type_addr_of.get(c) == a:
                    del self.type_addr_of[c]

    def live_objects(self):
        """(address, class) of live instances of extension types is not tracked; heap blocks are."""
        return dict(self.mem.live)

    # ---------------------------------------------------------------- extension types
    def type_ready(self, t):
        rd = self.rd
        name = self.getstr(rd(t + 24, 8))
        br = self
        new, init = rd(t + 312, 8), rd(t + 296, 8)
        gen_alloc = self.host_func("PyType_GenericAlloc").addr
        if not rd(t + 304, 8):
            self.wr(t + 304, 8, gen_alloc)
        if not rd(t + 320, 8):
            self.wr(t + 320, 8, self.host_func("PyObject_Free").addr)
        if rd(t, 8) & 0xFFFFFFFF != IMMORTAL:
            self.wr(t, 8, IMMORTAL)
        if not rd(t + 8, 8):
            self.wr(t + 8, 8, self.type_addr(type))
        self.wr(t + 168, 8, rd(t + 168, 8) | F_READY)
        d = {"__slots__": (), "__module__": name.rpartition(".")[0]}
        holder = {}

        def c_new(cls, *a, **k):
            if not new:
                raise TypeError("cannot create '%s' instances" % name)
            o = br.call(new, cls, tuple(a), k if k else MISSING)
            return o
        d["__new__"] = c_new

        def c_init(self, *a, **k):
            if init:
                r = br.call_int(init, (self, tuple(a), k if k else MISSING))
                if conc(r) & 0xFFFFFFFF:
                    if br.err is not None:
                        br.throw()
                    raise SystemError("__init__ failed without an exception")
        d["__init__"] = c_init

        def c_del(self):
            if getattr(self, "_ep", None) == br.epoch and not E.aborting and E.poison is None:
                w = br.wrappers.get(self._addr)
                if w is not None and (w() is None or w() is self):
                    br.wrappers.pop(self._addr, None)
                try:
                    br.decref_host(self._addr)
                except BaseException:
                    pass       # a Crash or another signal is remembered in E.poison
        d["__del__"] = c_del
        for nm, fn in self.methods(rd(t + 232, 8)):
            d[nm] = fn
        nb = rd(t + 96, 8)
        if nb:
            for op, off in OPS.items():
                f = rd(nb + off, 8)
                if f:
                    d[op] = self._bin(f, False)
                    d["__r" + op[2:]] = self._bin(f, True)
            f = rd(nb + 40, 8)
            if f:
                d["__pow__"] = lambda self, o, m=None, f=f: br.call(f, self, o, m)
            for op, off in IOPS.items():
                f = rd(nb + off, 8)
                if f:
                    d[op] = self._bin(f, False)
            for op, off in UOPS.items():
                f = rd(nb + off, 8)
                if f:
                    d[op] = lambda self, f=f: br.call(f, self)
            f = rd(nb + 72, 8)
            if f:
                d["__bool__"] = lambda self, f=f: bool(conc(br.call_int(f, (self,))) & 0xFFFFFFFF)
        sq = rd(t + 104, 8)
        if sq:
            self._seq(d, sq)
        mp = rd(t + 112, 8)
        if mp:
            self._map(d, mp)
        rc = rd(t + 200, 8)
        if rc:
            for op, k in CMP.items():
                d[op] = lambda self, o, f=rc, k=k: br.call_cmp(f, self, o, k)
            d["__hash__"] = None
        for off, nm in ((88, "__repr__"), (136, "__str__")):
            f = rd(t + off, 8)
            if f:
                d[nm] = lambda self, f=f: br.call(f, self)
        f = rd(t + 128, 8)
        if f:
            d["__call__"] = lambda self, *a, f=f, **k: br.call(f, self, tuple(a), k if k else MISSING)
        f = rd(t + 216, 8)
        if f:
            d["__iter__"] = lambda self, f=f: br.call(f, self)
        f = rd(t + 144, 8)
        if f:
            d["__getattr__"] = lambda self, n, f=f: br.call(f, self, n)
        gs = rd(t + 248, 8)
        while gs and rd(gs, 8):
            nm, g, s, clo = self.getstr(rd(gs, 8)), rd(gs + 8, 8), rd(gs + 16, 8), rd(gs + 32, 8)
            d[nm] = property((lambda self, g=g, c=clo: br.call_raw(g, [self], [c])) if g else None,
                             (lambda self, v, s=s, c=clo: br.call_set(s, self, v, c)) if s else None)
            gs += 40
        mb = rd(t + 240, 8)
        if mb and rd(mb, 8):
            raise Unsupported("tp_members")
        d.pop("__slots__")
        cls = type(name.rpartition(".")[2], (VMBase,), d)
        self.type_at[t] = cls
        self.type_addr_of[cls] = t
        return cls

    def decref_host(self, a):
        self.poll()
        outer, self.pins = self.pins, []
        try:
            self.decref(a)
        except CxxThrow:
            raise Crash("C++ exception in a destructor")
        finally:
            self.pins = outer

    def _bin(self, f, swap):
        def op(self_, o):
            return self.call(f, o, self_) if swap else self.call(f, self_, o)
        return op

    def call_cmp(self, f, a, b, k):
        return self.call_raw(f, [a, b], [k])

    def call_raw(self, fn, objs, extra):
        al = [self.addr_new(o) for o in objs]
        self.err = None
        try:
            r = conc(self.enter(fn, *(al + extra)))
            if r == 0:
                if self.err is None:
                    raise SystemError("NULL result without an exception")
                self.throw()
            if self.err is not None:
                raise SystemError("a result with an exception set")
            return self.take(r)
        finally:
            if E.poison is None:
                for a in al:
                    self.decref(a)

    def call_set(self, fn, obj, v, clo):
        r = self.call_int(fn, (obj, v), (clo,))
        if conc(r) & 0xFFFFFFFF:
            raise SystemError("setter failed without an exception")

    def ssize(self, r):
        if r.__class__ is int:
            return sgn(r & M64, 64)
        return SymInt.mk(r.t)

    def _seq(self, d, sq):
        rd = self.rd
        f = rd(sq, 8)
        length = None
        if f:
            def c_len(self_, f=f):
                r = conc(self.call_int(f, (self_,)))
                r = sgn(r & M64, 64)
                if r < 0:
                    raise SystemError("negative length")
                return r
            d["__len__"] = c_len
            length = c_len

        def index(self_, k):
            try:
                k = k.__index__() if not isinstance(k, SymInt) else k
            except AttributeError:
                raise TypeError("sequence index must be integer, not '%s'" % type(k).__name__)
            if length and k < 0:
                k = k + length(self_)
            return k.__index__() & M64
        f = rd(sq + 24, 8)
        if f:
            d["__getitem__"] = lambda self_, k, f=f: self.call_raw(f, [self_], [index(self_, k)])
        g = rd(sq + 40, 8)
        if g:
            def setit(self_, k, v):
                i = index(self_, k)
                av = 0 if v is MISSING else self.addr_new(v)
                try:
                    r = self.call_int(g, (self_,), (i, av))
                    if conc(r) & 0xFFFFFFFF:
                        raise SystemError("error without an exception")
                finally:
                    if av and E.poison is None:
                        self.decref(av)
            d["__setitem__"] = setit
            d["__delitem__"] = lambda self_, k: setit(self_, k, MISSING)
        f = rd(sq + 56, 8)
        if f:
            d["__contains__"] = lambda self_, v, f=f: bool(sgn(conc(self.call_int(f, (self_, v))) & 0xFFFFFFFF, 32) > 0)
        for off, nm in ((8, "__add__"), (64, "__iadd__")):
            f = rd(sq + off, 8)
            if f:
                d[nm] = self._bin(f, False)

    def _map(self, d, mp):
        rd = self.rd
        f = rd(mp, 8)
        if f:
            d["__len__"] = lambda self_, f=f: sgn(conc(self.call_int(f, (self_,))) & M64, 64)
        f = rd(mp + 8, 8)
        if f:
            d["__getitem__"] = lambda self_, k, f=f: self.call(f, self_, k)
        g = rd(mp + 16, 8)
        if g:
            def setit(self_, k, v):
                r = self.call_int(g, (self_, k, v))
                if conc(r) & 0xFFFFFFFF:
                    raise SystemError("error without an exception")
            d["__setitem__"] = setit
            d["__delitem__"] = lambda self_, k: setit(self_, k, MISSING)

    def methods(self, t, module=None):
        out = []
        rd = self.rd
        while t and rd(t, 8):
            nm, f, fl = self.getstr(rd(t, 8)), rd(t + 8, 8), sgn(rd(t + 16, 4), 32)
            out.append((nm, self._method(nm, f, fl, module)))
            t += 32
        return out

    def _method(self, nm, f, fl, module):
        br = self
        kind = fl & 15
        if kind & ~15 or kind not in (1, 2, 3, 4, 8):
            raise Unsupported("method flags %d" % fl)

        def run(self_, a, k):
            if kind == 1:
                if k:
                    raise TypeError("%s() takes no keyword arguments" % nm)
                return br.call(f, self_, tuple(a))
            if kind in (2, 3):
                return br.call(f, self_, tuple(a), dict(k) if k else MISSING)
            if kind == 4:
                if a or k:
                    raise TypeError("%s() takes no arguments (%d given)" % (nm, len(a)))
                return br.call(f, self_, MISSING)
            if k or len(a) != 1:
                raise TypeError("%s() takes exactly one argument (%d given)" % (nm, len(a)))
            return br.call(f, self_, a[0])
        if module is not None:
            def m(*a, **k):
                return run(module(), a, k)
        elif fl & 32:
            def m(*a, **k):
                return run(MISSING, a, k)
            m.__name__ = nm
            return staticmethod(m)
        elif fl & 16:
            def m(cls, *a, **k):
                return run(cls, a, k)
            return classmethod(m)
        else:
            def m(self, *a, **k):
                return run(self, a, k)
        m.__name__ = nm
        return m


MISSING = object()


def sym_long(br, o, w, what="int"):
    """Machine integer from a Python int, with the OverflowError of CPython."""
    lo, hi = -(1 << (w - 1)), (1 << (w - 1)) - 1
    if o.__class__ is SymBool:
        o = o._int()
    if o.__class__ is SymInt:
        if (o < lo) or (o > hi):
            br.err = (OverflowError, "Python int too large to convert to C " + what)
            return M64 & ((1 << w) - 1)
        return VInt.norm(w, o.t, lo, hi)
    try:
        v = o.__index__()
    except AttributeError:
        br.err = (TypeError, "'%s' object cannot be interpreted as an integer" % tname(o))
        return (1 << w) - 1
    if not lo <= v <= hi:
        br.err = (OverflowError, "Python int too large to convert to C " + what)
        return (1 << w) - 1
    return v & ((1 << w) - 1)


def tname(o):
    return "float" if o.__class__ is SymReal else "int" if o.__class__ is SymInt else type(o).__name__


def to_double(br, o):
    if o.__class__ is SymReal:
        return o
    if isinstance(o, float):
        return float(o)
    if o.__class__ is SymInt or o.__class__ is SymBool:
        return coerce(o)
    if isinstance(o, int):
        try:
            return float(o)
        except OverflowError as e:
            br.err = e
            return -1.0
    if not isinstance(o, VMBase) and hasattr(type(o), "__float__"):
        try:
            c = coerce(o)
            return float(o) if c is None or c.__class__ is float else c if c.const() is None else float(c.const())
        except Exception as e:
            br.err = e
            return -1.0
    br.err = (TypeError, "must be real number, not " + tname(o))
    return -1.0


def install_capi(br):
    H = br.host
    rd, wr = br.rd, br.wr
    obj, new, pin = br.obj_at, br.addr_new, br.pin

    def reg(*names):
        def d(f):
            for n in names:
                H[n] = f
            return f
        return d

    def guard(f, *a, fail=0):
        try:
            return f(*a)
        except Exception as e:
            br.err = e
            return fail

    # -- arguments
    def parse(args, kw, fmt, names, out):
        fmt = fmt.split(":")[0].split(";")[0]
        opt = kwonly = False
        i = pos = 0
        out = list(out)
        used = 0
        nargs = len(args)
        fname = "function"
        while i < len(fmt):
            c = fmt[i]
            i += 1
            if c == "|":
                opt = True
                continue
            if c == "$":
                kwonly = True
                continue
            mod = ""
            while i < len(fmt) and fmt[i] in "!&#*":
                mod += fmt[i]
                i += 1
            dest = [out.pop(0)]
            if mod:
                dest.append(out.pop(0))
            v = MISSING
            if pos < nargs and not kwonly:
                v = args[pos]
                if names and kw and pos < len(names) and names[pos] in kw:
                    br.err = (TypeError, "argument given by name and position")
                    return 0
            elif kw and names and pos < len(names) and names[pos] in kw:
                v = kw[names[pos]]
                used += 1
            pos += 1
            if v is MISSING:
                if not opt:
                    br.err = (TypeError, "function missing required argument (pos %d)" % pos)
                    return 0
                continue
            if not conv(c, mod, v, dest):
                return 0
        if nargs > pos:
            br.err = (TypeError, "function takes at most %d arguments (%d given)" % (pos, nargs))
            return 0
        if kw and used < len(kw):
            br.err = (TypeError, "invalid keyword argument")
            return 0
        return 1

    def conv(c, mod, v, dest):
        p = conc(dest[0])
        if c == "O":
            if mod == "!":
                if not isinstance(v, br.type_at[p]) and not (br.type_at[p] is float and v.__class__ is SymReal) and not (
                        br.type_at[p] is int and v.__class__ is SymInt):
                    br.err = (TypeError, "argument must be %s, not %s" % (br.type_at[p].__name__, tname(v)))
                    return 0
                wr(dest[1], 8, pin(v))
            elif mod == "&":
                r = conc(br.call_addr(p, pin(v), dest[1])) & 0xFFFFFFFF
                if r == 0:
                    if br.err is None:
                        br.err = (SystemError, "converter failed without an exception")
                    return 0
            else:
                wr(p, 8, pin(v))
            return 1
        if c in "sz":
            if v is None and c == "z":
                wr(p, 8, 0)
                return 1
            if not isinstance(v, str):
                br.err = (TypeError, "argument must be str, not %s" % tname(v))
                return 0
            if "\0" in v:
                br.err = (ValueError, "embedded null character")
                return 0
            b = v.encode("utf-8", "surrogatepass")
            wr(p, 8, br.buffer(pin(v), b))
            if mod == "#":
                wr(dest[1], 8, len(b))
            return 1
        if c in "df":
            d = to_double(br, v)
            if br.err is not None:
                return 0
            br.SD(p, 8 if c == "d" else 4, d, c)
            return 1
        if c in "ilnLhb":
            w = {"i": 32, "l": 64, "n": 64, "L": 64, "h": 16, "b": 8}[c]
            r = sym_long(br, v, w)
            if br.err is not None:
                return 0
            wr(p, w // 8, r)
            return 1
        if c in "IkKH":
            w = {"I": 32, "k": 64, "K": 64, "H": 16}[c]
            if v.__class__ is SymInt:
                r = VInt.norm(w, v.t, -(1 << 100), 1 << 100)
            else:
                try:
                    r = v.__index__() & ((1 << w) - 1)
                except AttributeError:
                    br.err = (TypeError, "'%s' object cannot be interpreted as an integer" % tname(v))
                    return 0
            wr(p, w // 8, r)
            return 1
        if c == "p":
            wr(p, 4, int(bool(v)))
            return 1
        if c in "SUY":
            wr(p, 8, pin(v))
            return 1
        raise Unsupported("argument format " + c)

    @reg("PyArg_ParseTuple", "_PyArg_ParseTuple_SizeT")
    def PyArg_ParseTuple(args, fmt, *out):
        return parse(obj(args), None, br.getstr(fmt), None, out)

    @reg("PyArg_ParseTupleAndKeywords", "_PyArg_ParseTupleAndKeywords_SizeT")
    def PyArg_PTK(args, kw, fmt, kwlist, *out):
        names = []
        k = conc(kwlist)
        while rd(k, 8):
            names.append(br.getstr(rd(k, 8)))
            k += 8
        return parse(obj(args), obj(kw) if conc(kw) else None, br.getstr(fmt), names, out)

    @reg("PyArg_UnpackTuple")
    def PyArg_UT(args, name, mn, mx, *out):
        a = obj(args)
        if not conc(mn) <= len(a) <= conc(mx):
            br.err = (TypeError, "wrong number of arguments")
            return 0
        for o, p in zip(a, out):
            wr(p, 8, pin(o))
        return 1

    @reg("PyArg_Parse")
    def PyArg_Parse(a, fmt, *out):
        return parse((obj(a),), None, br.getstr(fmt), None, out)

    @reg("Py_BuildValue", "_Py_BuildValue_SizeT")
    def Py_BuildValue(fmt, *va):
        fmt = br.getstr(fmt).replace(",", "").replace(" ", "")
        va = list(va)

        def item(i):
            c = fmt[i]
            if c in "([{":
                end = {"(": ")", "[": "]", "{": "}"}[c]
                r = []
                i += 1
                while fmt[i] != end:
                    v, i = item(i)
                    r.append(v)
                    while fmt[i] == ":":
                        i += 1
                r = tuple(r) if c == "(" else r if c == "[" else dict(zip(r[::2], r[1::2]))
                return r, i + 1
            if c in "OSN":
                if i + 1 < len(fmt) and fmt[i + 1] == "&":
                    raise Unsupported("build value O&")
                a = conc(va.pop(0))
                return (br.take(a) if c == "N" else obj(a)), i + 1
            if c in "sz":
                a = conc(va.pop(0))
                return (None if a == 0 else br.getstr(a)), i + 1
            if c in "df":
                return va.pop(0), i + 1
            if c in "ilnLhbB":
                w = {"i": 32, "l": 64, "n": 64, "L": 64, "h": 32, "b": 32, "B": 32}[c]
                v = va.pop(0)
                return (SymInt.mk(v.t) if v.__class__ is VInt else sgn(v & ((1 << w) - 1), w)), i + 1
            if c in "IkK":
                v = va.pop(0)
                return (SymInt.mk(v.u()) if v.__class__ is VInt else v), i + 1
            raise Unsupported("build value " + c)
        r, i = [], 0
        while i < len(fmt):
            v, i = item(i)
            r.append(v)
        return new(None if not r else r[0] if len(r) == 1 else tuple(r))

    # -- errors
    @reg("PyErr_SetString")
    def PyErr_SetString(cls, msg):
        br.err = (obj(cls), br.getstr(msg))

    @reg("PyErr_SetObject")
    def PyErr_SetObject(cls, v):
        br.err = (obj(cls), obj(v))

    @reg("PyErr_SetNone")
    def PyErr_SetNone(cls):
        br.err = (obj(cls), "")

    @reg("PyErr_Format")
    def PyErr_Format(cls, msg, *a):
        br.err = (obj(cls), br.getstr(msg))
        return 0

    @reg("PyErr_NoMemory")
    def PyErr_NoMemory():
        br.err = (MemoryError, "")
        return 0

    @reg("PyErr_BadArgument", "PyErr_BadInternalCall")
    def PyErr_Bad():
        br.err = (TypeError, "bad argument type for built-in operation")
        return 0

    @reg("PyErr_Clear")
    def PyErr_Clear():
        br.err = None

    def errcls():
        return type(br.err) if isinstance(br.err, BaseException) else br.err[0]

    @reg("PyErr_Occurred")
    def PyErr_Occurred():
        return 0 if br.err is None else br.type_addr(errcls())

    @reg("PyErr_ExceptionMatches")
    def PyErr_EM(cls):
        return int(br.err is not None and issubclass(errcls(), obj(cls)))

    @reg("PyErr_Print", "PyErr_WriteUnraisable")
    def PyErr_Print(*a):
        br.err = None

    @reg("PyErr_Fetch")
    def PyErr_Fetch(a, b, c):
        br.fetched = br.err
        br.err = None
        wr(a, 8, 0); wr(b, 8, 0); wr(c, 8, 0)

    @reg("PyErr_Restore")
    def PyErr_Restore(a, b, c):
        br.err = br.fetched

    # -- numbers
    @reg("PyFloat_AsDouble")
    def PyFloat_AsDouble(a):
        return to_double(br, obj(a))

    @reg("PyFloat_FromDouble")
    def PyFloat_FromDouble(v):
        return fresh(v if v.__class__ is SymReal else float(v))

    def fresh(v):
        # numbers are new objects
        if v.__class__ is SymReal:
            v = SymReal(v.n, v.d, v.dp)
            return new(v)
        return new(v)

    for n, w in (("PyLong_AsLong", 64), ("PyLong_AsSsize_t", 64), ("PyLong_AsLongLong", 64), ("_PyLong_AsInt", 32), ("PyNumber_AsSsize_t", 64)):
        def aslong(a, *x, _w=w, _n=n):
            o = obj(a)
            if _n == "PyLong_AsSsize_t" and not isinstance(o, (int, SymInt)):
                br.err = (TypeError, "an integer is required")
                return M64
            return sym_long(br, o, _w, "long")
        H[n] = aslong
    for n in ("PyLong_AsUnsignedLong", "PyLong_AsSize_t", "PyLong_AsUnsignedLongLong"):
        def asulong(a):
            o = obj(a)
            if not isinstance(o, (int, SymInt)):
                br.err = (TypeError, "an integer is required")
                return M64
            if (o < 0) or (o > M64):
                br.err = (OverflowError, "can't convert to unsigned")
                return M64
            return VInt.norm(64, o.t, 0, M64) if o.__class__ is SymInt else int(o)
        H[n] = asulong

    def from_int(v, signed=True):
        if v.__class__ is VInt:
            return new(SymInt.mk(v.t if signed else v.u()))
        return new(sgn(v & M64, 64) if signed else v & M64)
    for n in ("PyLong_FromLong", "PyLong_FromLongLong", "PyLong_FromSsize_t"):
        H[n] = from_int
    for n in ("PyLong_FromSize_t", "PyLong_FromUnsignedLong", "PyLong_FromUnsignedLongLong", "PyLong_FromVoidPtr"):
        H[n] = lambda v: from_int(v, False)
    H["PyLong_AsDouble"] = lambda a: to_double(br, obj(a))
    H["PyLong_FromDouble"] = lambda v: new(sx.trunc(v))

    @reg("PyBool_FromLong")
    def PyBool_FromLong(v):
        return new(bool(v != 0))

    @reg("PyNumber_Float")
    def PyNumber_Float(a):
        o = obj(a)
        if isinstance(o, str):
            t = sx.from_token(o.strip())
            if t is not None:
                return new(coerce(t))
            return guard(lambda: new(float(o)))
        d = to_double(br, o)
        return 0 if br.err is not None else fresh(d)

    @reg("PyNumber_Long")
    def PyNumber_Long(a):
        o = obj(a)
        if o.__class__ is SymReal:
            return new(sx.trunc(o))
        return guard(lambda: new(int(o)))

    @reg("PyNumber_Index")
    def PyNumber_Index(a):
        o = obj(a)
        return guard(lambda: new(o if o.__class__ is SymInt else o.__index__()))

    @reg("PyNumber_Check")
    def PyNumber_Check(a):
        o = obj(a)
        return int(isinstance(o, (SymReal, SymInt, int, float)) or hasattr(type(o), "__float__"))

    import operator
    for n, f in (("Add", operator.add), ("Subtract", operator.sub), ("Multiply", operator.mul), ("TrueDivide", operator.truediv)):
        H["PyNumber_" + n] = lambda a, b, f=f: guard(lambda: new(f(obj(a), obj(b))))

    # -- strings
    @reg("PyUnicode_FromString", "PyUnicode_InternFromString")
    def PyUnicode_FromString(p):
        return new(br.getstr(p))

    H["PyUnicode_FromStringAndSize"] = lambda p, n: new(bytes(br.mem.M[conc(p):conc(p) + conc(n)]).decode("utf-8"))

    def fmtstr(fmt, a):
        import re
        it = iter(a)

        def one(m):
            k = m.group(1)[-1]
            if k == "%":
                return "%"
            v = conc(next(it))
            if k == "s":
                return br.getstr(v)
            if k in "RSU":
                return str(obj(v))
            w = 64 if "l" in m.group(1) or "z" in m.group(1) else 32
            return str(sgn(v & ((1 << w) - 1), w))
        return re.sub(r"%([0-9.]*[lz]*[sdiuRSUxpc%])", one, fmt)

    H["PyUnicode_FromFormat"] = lambda fmt, *a: new(fmtstr(br.getstr(fmt), a))

    @reg("PyUnicode_AsASCIIString", "PyUnicode_AsUTF8String", "PyUnicode_AsEncodedString")
    def PyUnicode_AsBytes(a, *x):
        o = obj(a)
        if not isinstance(o, str):
            br.err = (TypeError, "bad argument type for built-in operation")
            return 0
        return guard(lambda: new(o.encode("ascii")))
    H["PyUnicode_AsUTF8String"] = lambda a: guard(lambda: new(obj(a).encode("utf-8")))

    @reg("PyBytes_AsString")
    def PyBytes_AsString(a):
        if conc(a) == 0:
            raise Crash("null dereference (PyBytes_AsString)")
        o = obj(a)
        if not isinstance(o, bytes):
            br.err = (TypeError, "expected bytes, %s found" % tname(o))
            return 0
        return br.buffer(conc(a), o)

    @reg("PyUnicode_AsUTF8")
    def PyUnicode_AsUTF8(a):
        o = obj(a)
        if not isinstance(o, str):
            br.err = (TypeError, "bad argument type for built-in operation")
            return 0
        return br.buffer(conc(a), o.encode("utf-8"))

    @reg("PyUnicode_AsUTF8AndSize")
    def PyUnicode_AsUTF8AndSize(a, p):
        r = PyUnicode_AsUTF8(a)
        if r and conc(p):
            wr(p, 8, len(obj(a).encode("utf-8")))
        return r

    @reg("PyUnicode_CompareWithASCIIString")
    def PyUnicode_Cmp(a, s):
        x, y = obj(a), br.getstr(s)
        return 0 if x == y else 1 if x > y else 0xFFFFFFFF

    # -- containers
    def need(a, cls):
        o = obj(a)
        if not isinstance(o, cls):
            br.err = (SystemError, "bad argument to internal function")
            return None
        return o

    def upd(a):
        a = conc(a)
        wr(a + 16, 8, len(obj(a)))

    H["PyList_New"] = lambda n: new([None] * conc(n))

    @reg("PyList_Size", "PyTuple_Size", "PyList_GET_SIZE")
    def PyList_Size(a):
        o = need(a, (list, tuple))
        return M64 if o is None else len(o)

    @reg("PyList_GetItem", "PyTuple_GetItem")
    def PyList_GetItem(a, i):
        o = need(a, (list, tuple))
        if o is None:
            return 0
        i = sgn(conc(i), 64)
        if not 0 <= i < len(o):
            br.err = (IndexError, "list index out of range")
            return 0
        return pin(o[i])

    @reg("PyList_SetItem")
    def PyList_SetItem(a, i, v):
        o = need(a, list)
        x = br.take(v)
        if o is None:
            return 0xFFFFFFFF
        i = sgn(conc(i), 64)
        if not 0 <= i < len(o):
            br.err = (IndexError, "list assignment index out of range")
            return 0xFFFFFFFF
        o[i] = x
        return 0

    @reg("PyList_Append")
    def PyList_Append(a, v):
        o = need(a, list)
        if o is None or conc(v) == 0:
            br.err = br.err or (SystemError, "bad argument to internal function")
            return 0xFFFFFFFF
        o.append(obj(v))
        upd(a)
        return 0

    @reg("PyList_Insert")
    def PyList_Insert(a, i, v):
        o = need(a, list)
        if o is None:
            return 0xFFFFFFFF
        o.insert(sgn(conc(i), 64), obj(v))
        upd(a)
        return 0

    @reg("PyTuple_New")
    def PyTuple_New(n):
        # tuples are mutable until they are handed over: kept as a list subclass only inside the VM
        t = tuple([None] * conc(n))
        return new(tuple(list(t)) if n else tuple_empty())

    def tuple_empty():
        return ()

    @reg("PyTuple_SetItem")
    def PyTuple_SetItem(a, i, v):
        a, i = conc(a), conc(i)
        o = list(obj(a))
        o[i] = br.take(v)
        t = tuple(o)
        br.host_addr.pop(id(br.host_obj[a]), None)
        br.host_obj[a] = t
        br.host_addr[id(t)] = a
        return 0

    H["PyTuple_Pack"] = lambda n, *a: new(tuple(obj(x) for x in a[:conc(n)]))
    H["PyDict_New"] = lambda: new({})

    def setitem(d, k, v):
        o = need(d, dict)
        if o is None or conc(v) == 0:
            br.err = br.err or (SystemError, "bad argument to internal function")
            return 0xFFFFFFFF
        o[k] = obj(v)
        upd(d)
        return 0
    H["PyDict_SetItem"] = lambda d, k, v: setitem(d, obj(k), v)
    H["PyDict_SetItemString"] = lambda d, k, v: setitem(d, br.getstr(k), v)

    def getitem(d, k):
        o = obj(d)
        if not isinstance(o, dict) or k not in o:
            return 0
        return pin(o[k])
    H["PyDict_GetItemString"] = lambda d, k: getitem(d, br.getstr(k))
    H["PyDict_GetItem"] = H["PyDict_GetItemWithError"] = lambda d, k: getitem(d, obj(k))
    H["PyDict_Contains"] = lambda d, k: int(obj(k) in obj(d))
    H["PyDict_Size"] = lambda d: len(obj(d)) if isinstance(obj(d), dict) else M64
    H["PyDict_Keys"] = lambda d: new(list(obj(d).keys()))
    H["PyDict_Values"] = lambda d: new(list(obj(d).values()))
    H["PyDict_Items"] = lambda d: new(list(obj(d).items()))

    def delitem(d, k):
        o = obj(d)
        if k not in o:
            br.err = (KeyError, k)
            return 0xFFFFFFFF
        del o[k]
        upd(d)
        return 0
    H["PyDict_DelItemString"] = lambda d, k: delitem(d, br.getstr(k))
    H["PyDict_DelItem"] = lambda d, k: delitem(d, obj(k))

    @reg("PyDict_Next")
    def PyDict_Next(d, ppos, pk, pv):
        o = obj(d)
        if not isinstance(o, dict):
            return 0
        i = conc(rd(ppos, 8))
        ks = list(o.items())
        if i >= len(ks):
            return 0
        if conc(pk):
            wr(pk, 8, pin(ks[i][0]))
        if conc(pv):
            wr(pv, 8, pin(ks[i][1]))
        wr(ppos, 8, i + 1)
        return 1

    @reg("PySequence_Check")
    def PySequence_Check(a):
        return int(hasattr(type(obj(a)), "__getitem__") and not isinstance(obj(a), dict))
    H["PySequence_Size"] = H["PyObject_Size"] = H["PyObject_Length"] = H["PySequence_Length"] = lambda a: guard(lambda: len(obj(a)), fail=M64)
    H["PySequence_GetItem"] = lambda a, i: guard(lambda: new(obj(a)[sgn(conc(i), 64)]))
    H["PySequence_List"] = lambda a: guard(lambda: new(list(obj(a))))
    H["PySequence_Tuple"] = lambda a: guard(lambda: new(tuple(obj(a))))
    H["PyObject_GetIter"] = lambda a: guard(lambda: new(iter(obj(a))))

    @reg("PyIter_Next")
    def PyIter_Next(a):
        try:
            return new(next(obj(a)))
        except StopIteration:
            return 0
        except Exception as e:
            br.err = e
            return 0

    # -- objects
    H["PyObject_GetAttrString"] = lambda a, n: guard(lambda: new(getattr(obj(a), br.getstr(n))))
    H["PyObject_GetAttr"] = lambda a, n: guard(lambda: new(getattr(obj(a), obj(n))))
    H["PyObject_HasAttrString"] = lambda a, n: int(hasattr(obj(a), br.getstr(n)))

    def setattr_(a, n, v):
        def f():
            setattr(obj(a), n, obj(v))
            return 0
        return guard(f, fail=0xFFFFFFFF)
    H["PyObject_SetAttrString"] = lambda a, n, v: setattr_(a, br.getstr(n), v)

    def callobj(f, args, kw=None):
        fn = obj(f)
        pins = br.pins
        try:
            r = fn(*args, **(kw or {}))
            br.err = None
            return new(r)
        except Exception as e:
            br.err = e
            return 0
        finally:
            br.pins = pins
    H["PyObject_CallObject"] = lambda f, a: callobj(f, obj(a) if conc(a) else ())
    H["PyObject_Call"] = lambda f, a, k: callobj(f, obj(a), obj(k) if conc(k) else {})
    H["PyObject_CallNoArgs"] = lambda f: callobj(f, ())
    H["PyObject_CallOneArg"] = lambda f, a: callobj(f, (obj(a),))

    @reg("PyObject_CallFunctionObjArgs")
    def PyObject_CFOA(f, *a):
        l = []
        for x in a:
            if conc(x) == 0:
                break
            l.append(obj(x))
        return callobj(f, l)

    @reg("PyObject_CallFunction")
    def PyObject_CallFunction(f, fmt, *a):
        if conc(fmt) == 0:
            return callobj(f, ())
        t = br.take(Py_BuildValue(br.cstr("(" + br.getstr(fmt) + ")"), *a))
        return callobj(f, t)

    @reg("PyObject_IsTrue")
    def PyObject_IsTrue(a):
        return guard(lambda: int(bool(obj(a))), fail=0xFFFFFFFF)
    H["PyObject_Not"] = lambda a: guard(lambda: int(not obj(a)), fail=0xFFFFFFFF)

    @reg("PyObject_IsInstance")
    def PyObject_IsInstance(a, c):
        o, cls = obj(a), obj(c)
        if o.__class__ is SymReal:
            return int(issubclass(float, cls))
        if o.__class__ is SymInt:
            return int(issubclass(int, cls))
        return guard(lambda: int(isinstance(o, cls)), fail=0xFFFFFFFF)

    import operator as op

    @reg("PyObject_RichCompare")
    def PyObject_RC(a, b, k):
        f = [op.lt, op.le, op.eq, op.ne, op.gt, op.ge][conc(k)]
        return guard(lambda: new(f(obj(a), obj(b))))

    @reg("PyObject_RichCompareBool")
    def PyObject_RCB(a, b, k):
        f = [op.lt, op.le, op.eq, op.ne, op.gt, op.ge][conc(k)]
        return guard(lambda: int(bool(f(obj(a), obj(b)))), fail=0xFFFFFFFF)
    H["PyObject_Str"] = lambda a: guard(lambda: new(str(obj(a))))
    H["PyObject_Repr"] = lambda a: guard(lambda: new(repr(obj(a))))
    H["PyObject_Type"] = lambda a: new(type(obj(a)))
    H["PyCallable_Check"] = lambda a: int(callable(obj(a))) if conc(a) else 0

    @reg("_Py_Dealloc")
    def _Py_Dealloc(a):
        br.dealloc(a)

    @reg("Py_IncRef")
    def Py_IncRef(a):
        if conc(a):
            br.incref(conc(a))

    @reg("Py_DecRef")
    def Py_DecRef(a):
        if conc(a):
            br.decref(conc(a))

    # -- types, modules, capsules
    @reg("PyType_IsSubtype")
    def PyType_IsSubtype(a, b):
        x, y = br.type_at.get(conc(a)), br.type_at.get(conc(b))
        if x is None or y is None:
            if conc(a) == conc(b):
                return 1
            if conc(a) == 0 or conc(b) == 0:
                raise Crash("null type")
            return 0
        return int(issubclass(x, y))

    @reg("PyType_Ready")
    def PyType_Ready(t):
        br.type_ready(conc(t))
        return 0

    @reg("PyType_GenericAlloc")
    def PyType_GenericAlloc(t, n):
        t = conc(t)
        size = rd(t + 32, 8) + conc(n) * rd(t + 40, 8)
        a = br.mem.alloc(size, fill=0)
        wr(a, 8, 1)
        wr(a + 8, 8, t)
        return a

    @reg("PyType_GenericNew")
    def PyType_GenericNew(t, args, kw):
        return br.call_addr(rd(conc(t) + 304, 8), t, 0)

    H["_PyObject_New"] = lambda t: PyType_GenericAlloc(t, 0)
    H["PyObject_Init"] = lambda a, t: (wr(a, 8, 1), wr(conc(a) + 8, 8, t), a)[2]

    @reg("PyModule_Create2")
    def PyModule_Create2(d, ver):
        d = conc(d)
        m = types.ModuleType(br.getstr(rd(d + 40, 8)))
        for nm, f in br.methods(rd(d + 64, 8), module=lambda: m):
            setattr(m, nm, f)
        return new(m)

    def modadd(m, n, v):
        setattr(obj(m), br.getstr(n), obj(v))
        return 0

    @reg("PyModule_AddObject")
    def PyModule_AddObject(m, n, v):
        modadd(m, n, v)
        br.decref(conc(v))
        return 0
    H["PyModule_AddObjectRef"] = modadd

    @reg("PyModule_AddType")
    def PyModule_AddType(m, t):
        cls = br.type_ready(conc(t)) if conc(t) not in br.type_at else br.type_at[conc(t)]
        setattr(obj(m), cls.__name__, cls)
        return 0
    H["PyModule_AddIntConstant"] = lambda m, n, v: (setattr(obj(m), br.getstr(n), sgn(conc(v), 64)), 0)[1]
    H["PyModule_GetDict"] = lambda m: pin(obj(m).__dict__)

    @reg("PyImport_ImportModule")
    def PyImport_ImportModule(n):
        name = br.getstr(n)
        mod = sys.modules.get(name)
        leaf = name.rpartition(".")[2]
        if leaf in br.modules and (mod is None or getattr(mod, "__file__", None)):
            mod = br.init_module(leaf, name)
        if mod is None:
            def imp():
                import importlib
                return importlib.import_module(name)
            mod = guard(imp)
            if mod == 0:
                return 0
        return new(mod)
    H["PyImport_ImportModuleNoBlock"] = PyImport_ImportModule

    H["PyCapsule_New"] = lambda p, n, d: new(Capsule(conc(p), br.getstr(n) if conc(n) else None))

    @reg("PyCapsule_GetPointer")
    def PyCapsule_GetPointer(a, n):
        o = obj(a)
        if not isinstance(o, Capsule) or o.name != (br.getstr(n) if conc(n) else None):
            br.err = (ValueError, "PyCapsule_GetPointer called with incorrect name")
            return 0
        return o.ptr

    @reg("PyCapsule_Import")
    def PyCapsule_Import(n, blk):
        name = br.getstr(n)
        m, _, a = name.rpartition(".")
        mod = sys.modules.get(m)
        return getattr(mod, a).ptr

    H["PyGILState_Ensure"] = H["PyGILState_Release"] = lambda *a: 0
    H["PyEval_SaveThread"] = lambda: 1
    H["PyEval_RestoreThread"] = lambda *a: 0
