"""LLVM IR virtual machine.

Parses the textual IR of the extension modules (compiled from the current tree), translates each function to Python source on
first use and runs it on a flat memory.  Every byte has a shadow state (0 inaccessible, 1 ordinary, 3/2 first/further byte of a
symbolic scalar kept in an overlay), so that accesses outside live objects, double frees and null dereferences end the path as a
crash, and scalars may be symbolic terms of engine.sx.
"""
import re, struct, bisect

from .sx import Crash, Unsupported

M64 = (1 << 64) - 1


class CxxThrow(Exception):
    def __init__(self, obj, tinfo, dtor):
        self.obj, self.tinfo, self.dtor = obj, tinfo, dtor


# ---------------------------------------------------------------- tokens and types
TOK = re.compile(r'''\s+|;[^\n]*|c"(?:[^"\\]|\\.)*"|[@%](?:"(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+)|"(?:[^"\\]|\\.)*"'''
                 r'''|\$(?:"[^"]*"|[-a-zA-Z$._0-9]+)|![-a-zA-Z$._0-9]*|#\d+|0x[HKLMR]?[0-9A-Fa-f]+|-?\d+\.\d*(?:[eE][-+]?\d+)?|-?\d+'''
                 r'''|\.\.\.|[a-zA-Z_][-a-zA-Z0-9_.]*|[()\[\]{}<>,=*|:]''')


def tokenize(s):
    out, i, n = [], 0, len(s)
    m = TOK.match
    while i < n:
        k = m(s, i)
        if k is None:
            raise Unsupported("cannot tokenize: " + s[i:i + 60])
        t = k.group()
        i = k.end()
        if t[0] in ' \t\n\r;':
            continue
        out.append(t)
    return out


class T:  # type
    __slots__ = ("k", "w", "el", "n", "size", "align", "offs", "tag")

    def __init__(self, k, **kw):
        self.k = k
        self.w = self.el = self.n = self.offs = self.tag = None
        self.size = self.align = 0
        for a, b in kw.items():
            setattr(self, a, b)


VOID, PTR, LABEL = T("void"), T("ptr", size=8, align=8), T("label")
DBL, FLT, X87 = T("double", size=8, align=8), T("float", size=4, align=4), T("x86_fp80", size=16, align=16)
META = T("metadata")
_ints = {}


def int_t(w):
    if w not in _ints:
        sz = 1
        while sz * 8 < w:
            sz *= 2
        _ints[w] = T("int", w=w, size=sz, align=min(sz, 16))
    return _ints[w]


def struct_t(els, packed=False):
    off, al, offs = 0, 1, []
    for e in els:
        a = 1 if packed else max(e.align, 1)
        al = max(al, a)
        off = (off + a - 1) // a * a
        offs.append(off)
        off += e.size
    size = (off + al - 1) // al * al
    return T("struct", el=els, offs=offs, size=size, align=al)


def array_t(n, e):
    return T("array", el=e, n=n, size=n * e.size, align=max(e.align, 1))


ATTR_PAREN = {"dereferenceable", "dereferenceable_or_null", "sret", "byval", "byref", "inalloca", "preallocated",
              "elementtype", "range", "captures", "nofpclass", "memory", "allocsize", "vscale_range", "initializes", "align"}
CONSTEXPR = {"getelementptr", "ptrtoint", "inttoptr", "bitcast", "trunc", "zext", "sext", "sub", "add", "mul", "xor", "icmp",
             "select", "addrspacecast", "and", "or", "shl"}
VALWORDS = {"null", "undef", "poison", "true", "false", "zeroinitializer", "none"} | CONSTEXPR


class P:
    """Token cursor."""
    def __init__(self, mod, toks):
        self.mod, self.t, self.i = mod, toks, 0

    def peek(self, k=0):
        j = self.i + k
        return self.t[j] if j < len(self.t) else None

    def next(self):
        t = self.t[self.i]
        self.i += 1
        return t

    def eat(self, x):
        if self.i < len(self.t) and self.t[self.i] == x:
            self.i += 1
            return True
        return False

    def need(self, x):
        if self.t[self.i] != x:
            raise Unsupported("expected %s near %s" % (x, " ".join(self.t[max(0, self.i - 8):self.i + 8])))
        self.i += 1

    def skip_parens(self):
        self.need("(")
        d = 1
        while d:
            t = self.next()
            d += (t == "(") - (t == ")")

    def type(self):
        t = self.next()
        if t == "void":
            r = VOID
        elif t == "ptr":
            r = PTR
            if self.peek() == "addrspace":
                self.next(); self.skip_parens()
        elif t[0] == "i" and t[1:].isdigit():
            r = int_t(int(t[1:]))
        elif t == "double":
            r = DBL
        elif t == "float":
            r = FLT
        elif t == "x86_fp80":
            r = X87
        elif t == "label":
            r = LABEL
        elif t in ("metadata", "token"):
            r = META
        elif t == "opaque":
            r = T("opaque")
        elif t == "[":
            n = int(self.next()); self.need("x")
            e = self.type(); self.need("]")
            r = array_t(n, e)
        elif t == "<":
            if self.peek() == "{":
                self.next()
                r = struct_t(self.type_list("}"), True)
                self.need(">")
            else:
                n = int(self.next()); self.need("x")
                e = self.type(); self.need(">")
                r = T("vector", el=e, n=n, size=n * e.size, align=n * e.size)
        elif t == "{":
            r = struct_t(self.type_list("}"))
        elif t[0] == "%":
            r = self.mod.named_type(t)
        else:
            raise Unsupported("type " + t + " near " + " ".join(self.t[max(0, self.i - 6):self.i + 6]))
        while self.peek() == "(" and r is not None and self._is_fn_type():
            self.skip_parens()
            r = T("fn", el=r)
        return r

    def _is_fn_type(self):
        # a '(' directly after a type in call position is a function type only when a callee follows the ')'
        d, j = 1, self.i + 1
        while d:
            t = self.t[j]
            d += (t == "(") - (t == ")")
            j += 1
        nt = self.t[j] if j < len(self.t) else None
        return nt is not None and (nt[0] in "@%")

    def type_list(self, end):
        r = []
        if self.eat(end):
            return r
        while True:
            r.append(self.type())
            if self.eat(end):
                return r
            self.need(",")

    def skip_attrs(self):
        while True:
            t = self.peek()
            if t is None:
                return
            if t[0] == "#":
                self.next(); continue
            if t[0] == '"':
                self.next()
                if self.eat("="):
                    self.next()
                continue
            if t[0].isalpha() and t not in VALWORDS and not t.startswith('c"'):
                self.next()
                if t == "align" and self.peek() != "(":
                    self.next()
                elif self.peek() == "(" and t in ATTR_PAREN:
                    self.skip_parens()
                continue
            return


def unq(name):
    s = name[1:]
    if s and s[0] == '"':
        s = s[1:-1]
    return s


# ---------------------------------------------------------------- memory
class Memory:
    SIZE = 48 << 20
    LOW = 1 << 16

    def __init__(self):
        self.M = bytearray(self.SIZE)
        self.SH = bytearray(self.SIZE)
        self.SYM = {}
        self.brk = self.LOW           # heap and globals grow up
        self.stack0 = 40 << 20
        self.sp = self.stack0
        self.live = {}                # heap block addr -> size
        self.freed = {}
        self.sp_max = self.sp

    def alloc(self, n, align=16, heap=True, fill=0xBE):
        a = (self.brk + align - 1) // align * align
        if a + n + 64 > self.stack0:
            raise Unsupported("VM heap exhausted")
        self.brk = a + n + 32 - (n % 16)
        self.SH[a:a + n] = b"\x01" * n
        self.M[a:a + n] = bytes([fill]) * n
        if heap:
            self.live[a] = n
        return a

    def free(self, a):
        if a == 0:
            return
        if a not in self.live:
            raise Crash("double free" if a in self.freed else "free of an address that was not allocated")
        n = self.live.pop(a)
        self.freed[a] = n
        self.SH[a:a + n] = b"\x00" * n

    def describe(self, a):
        if a < self.LOW:
            return "null dereference (address %d)" % a
        for base, n in self.freed.items():
            if base <= a < base + n:
                return "use after free"
        return "access outside any object"

    def snapshot(self):
        return (bytes(self.M[:self.brk]), bytes(self.SH[:self.brk]), dict(self.SYM), self.brk, dict(self.live), dict(self.freed))

    def restore(self, s):
        m, sh, sym, brk, live, freed = s
        self.M[:brk] = m
        self.SH[:brk] = sh
        if self.brk > brk:
            self.SH[brk:self.brk] = bytes(self.brk - brk)
        if self.sp_max > self.stack0:
            self.SH[self.stack0:self.sp_max] = bytes(self.sp_max - self.stack0)
        self.SYM.clear(); self.SYM.update(sym)
        self.brk = brk
        self.live = dict(live)
        self.freed = dict(freed)
        self.sp = self.sp_max = self.stack0


ONES = {n: b"\x01" * n for n in range(0, 257)}
ST = {"i1": struct.Struct("<B"), "i2": struct.Struct("<H"), "i4": struct.Struct("<I"), "i8": struct.Struct("<Q"),
      "d": struct.Struct("<d"), "f": struct.Struct("<f")}


class Global:
    __slots__ = ("name", "addr", "type", "init", "const", "weak", "tls")


class Func:
    __slots__ = ("name", "text", "addr", "py", "nparams", "argtypes", "host", "mod", "pyname", "varargs")


class Module:
    """One shared object: its own globals and functions on the program's memory."""
    def __init__(self, prog, name, text):
        self.prog, self.name = prog, name
        self.types, self.type_src = {}, {}
        self.funcs, self.globals = {}, {}
        self.aliases = {}
        self.ns = prog.make_namespace(self)
        self.typeinfo_bases = {}
        self.ctors = []
        self.encoded = {}
        self._scan(text)

    # ---- scanning
    def _scan(self, text):
        lines = text.split("\n")
        i, n = 0, len(lines)
        gl = []
        while i < n:
            l = lines[i]
            if not l or l[0] == ";":
                pass
            elif l[0] == "%":
                k = l.index(" = type ")
                self.type_src[l[:k].strip()] = l[k + 8:]
            elif l[0] == "@":
                gl.append(l)
            elif l.startswith("define"):
                j = i
                while lines[j] != "}":
                    j += 1
                self._func(l, "\n".join(lines[i + 1:j]))
                i = j
            elif l.startswith("declare"):
                self._declare(l)
            i += 1
        inits = []
        for l in gl:
            inits.append(self._global(l))
        for g, p in inits:
            if g is None or p is None:
                continue
            self.store_const(g.addr, g.type, p)
        # unresolved function names in initialisers were bound lazily

    def named_type(self, t):
        r = self.types.get(t)
        if r is None:
            src = self.type_src.get(t)
            if src is None:
                raise Unsupported("unknown type " + t)
            r = T("struct", tag=t)
            self.types[t] = r
            p = P(self, tokenize(src))
            x = p.type()
            for a in T.__slots__:
                if a != "tag":
                    setattr(r, a, getattr(x, a))
        return r

    HDR = re.compile(r'@("(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+)\(')

    def _func(self, header, body):
        m = self.HDR.search(header)
        name = unq("@" + m.group(1))
        f = Func()
        f.name, f.text, f.mod, f.host, f.py = name, (header, body), self, None, None
        f.addr = self.prog.new_func_addr(f)
        self.funcs[name] = f
        f.pyname = self.prog.bind_lazy(self, f)
        return f

    def _declare(self, l):
        m = self.HDR.search(l)
        name = unq("@" + m.group(1))
        if name not in self.funcs:
            self.prog.bind_external(self, name)

    def _global(self, l):
        toks = tokenize(l)
        p = P(self, toks)
        name = unq(p.next())
        p.need("=")
        g = Global()
        g.name, g.weak, g.const = name, False, False
        ext = False
        while True:
            t = p.next()
            if t in ("global", "constant"):
                g.const = t == "constant"
                break
            if t == "alias":
                self.aliases[name] = [x for x in toks[1:] if x[0] == "@"][0]
                return None, None
            if t in ("linkonce_odr", "weak_odr", "linkonce", "weak"):
                g.weak = True
            if t in ("external", "extern_weak"):
                ext = True
            if p.peek() == "(":
                p.skip_parens()
        if name.startswith("llvm."):
            if name == "llvm.global_ctors":
                for f in re.findall(r"@([-a-zA-Z$._0-9]+)", l)[1:]:
                    self.ctors.append(f)
            return None, None
        g.type = p.type()
        if ext:
            g.addr = self.prog.external_global(name, g.type)
            self.globals[name] = g
            return None, None
        if name.startswith("_ZTI"):
            self.typeinfo_bases[name] = [b for b in re.findall(r"@(_ZTI[-a-zA-Z$._0-9]+)", l) if b != name]
        shared = g.weak and not g.const and not name.startswith(("_ZTV", "_ZTI", "_ZTS"))
        if shared and name in self.prog.shared_globals:
            g.addr = self.prog.shared_globals[name]
            self.globals[name] = g
            return None, None
        g.addr = self.prog.mem.alloc(g.type.size, max(16, g.type.align), heap=False, fill=0)
        if shared:
            self.prog.shared_globals[name] = g.addr
        self.globals[name] = g
        self.prog.global_at[g.addr] = (self.name, name)
        return g, p

    def symaddr(self, name):
        g = self.globals.get(name)
        if g is not None:
            return g.addr
        f = self.funcs.get(name)
        if f is not None:
            return f.addr
        if name in self.aliases:
            return self.symaddr(unq(self.aliases[name]))
        f = self.prog.bind_external(self, name)
        return f.addr

    # ---- constants
    def store_const(self, addr, ty, p):
        t = p.peek()
        mem = self.prog.mem
        if t in ("zeroinitializer", "null", "undef", "poison", "none"):
            p.next()
            return
        if ty.k == "struct":
            packed = p.eat("<")
            p.need("{")
            for i, e in enumerate(ty.el):
                et = p.type()
                self.store_const(addr + ty.offs[i], et, p)
                p.eat(",")
            p.need("}")
            if packed:
                p.need(">")
            return
        if ty.k in ("array", "vector"):
            if t.startswith('c"'):
                p.next()
                b = cstring(t[2:-1])
                mem.M[addr:addr + len(b)] = b
                return
            p.need("[" if ty.k == "array" else "<")
            for i in range(ty.n):
                et = p.type()
                self.store_const(addr + i * ty.el.size, et, p)
                p.eat(",")
            p.need("]" if ty.k == "array" else ">")
            return
        v = self.const(ty, p)
        if ty.k == "double":
            ST["d"].pack_into(mem.M, addr, v)
        elif ty.k == "float":
            ST["f"].pack_into(mem.M, addr, v)
        else:
            if v is True or v is False:
                v = int(v)
            mem.M[addr:addr + ty.size] = (v & ((1 << (8 * ty.size)) - 1)).to_bytes(ty.size, "little")

    def const(self, ty, p):
        """Constant scalar or aggregate value as a Python object."""
        t = p.next()
        k = ty.k
        if t in ("null", "none"):
            return 0
        if t in ("undef", "poison", "zeroinitializer"):
            return zero(ty)
        if t == "true":
            return True
        if t == "false":
            return False
        if t[0] == "@":
            return self.symaddr(unq(t))
        if k in ("double", "float", "x86_fp80"):
            return float_const(t)
        if t == "getelementptr":
            while p.peek() != "(":
                p.next()
            p.need("(")
            while p.peek() in ("inbounds", "nuw", "nusw", "inrange"):
                p.next()
            base = p.type(); p.need(",")
            pt = p.type(); addr = self.const(pt, p)
            idx = []
            while p.eat(","):
                p.eat("inrange")
                it = p.type()
                v = self.const(it, p)
                idx.append(v if v < (1 << (it.w - 1)) else v - (1 << it.w))
            p.need(")")
            off = idx[0] * base.size
            cur = base
            for v in idx[1:]:
                if cur.k == "struct":
                    off += cur.offs[v]; cur = cur.el[v]
                else:
                    off += v * cur.el.size; cur = cur.el
            return (addr + off) & M64
        if t in ("ptrtoint", "inttoptr", "bitcast", "addrspacecast", "trunc", "zext"):
            p.need("(")
            st = p.type(); v = self.const(st, p)
            p.need("to"); dt = p.type(); p.need(")")
            return v & ((1 << (dt.size * 8)) - 1)
        if t in ("sub", "add", "mul", "xor", "and", "or"):
            while p.peek() != "(":
                p.next()
            p.need("(")
            ta = p.type(); a = self.const(ta, p); p.need(",")
            tb = p.type(); b = self.const(tb, p); p.need(")")
            m = (1 << ta.w) - 1
            return {"sub": a - b, "add": a + b, "mul": a * b, "xor": a ^ b, "and": a & b, "or": a | b}[t] & m
        if t == "{" or t == "[" or t == "<":
            end = {"{": "}", "[": "]", "<": ">"}[t]
            r = []
            if t == "<" and p.peek() == "{":
                p.next(); end = "}"
            while not p.eat(end):
                et = p.type()
                r.append(self.const(et, p))
                p.eat(",")
            return tuple(r)
        if k == "int":
            return int(t) & ((1 << ty.w) - 1)
        raise Unsupported("constant %s of %s" % (t, k))


def zero(ty):
    if ty.k in ("double", "float", "x86_fp80"):
        return 0.0
    if ty.k == "struct":
        return tuple(zero(e) for e in ty.el)
    if ty.k in ("array", "vector"):
        return tuple(zero(ty.el) for _ in range(ty.n))
    if ty.k == "int" and ty.w == 1:
        return False
    return 0


def float_const(t):
    if t.startswith("0x"):
        if t[2] in "HKLMR":
            raise Unsupported("float constant " + t)
        return struct.unpack("<d", int(t, 16).to_bytes(8, "little"))[0]
    return float(t)


def cstring(s):
    out = bytearray()
    i = 0
    b = s.encode("latin-1") if all(ord(c) < 256 for c in s) else s.encode("utf-8")
    while i < len(b):
        if b[i] == 0x5C:
            if b[i + 1] == 0x5C:
                out.append(0x5C); i += 2
            else:
                out.append(int(b[i + 1:i + 3], 16)); i += 3
        else:
            out.append(b[i]); i += 1
    return bytes(out)


# ---------------------------------------------------------------- translation
class Fn:
    """Translates one function body to Python source."""
    def __init__(self, mod, f):
        self.mod, self.f = mod, f
        self.names = {}
        self.consts = {}
        self.ntmp = 0
        self.has_alloca = False

    def v(self, name):
        n = self.names.get(name)
        if n is None:
            n = "v%d" % len(self.names)
            self.names[name] = n
        return n

    def val(self, ty, p):
        """Expression for an operand."""
        p.skip_attrs()
        t = p.peek()
        if t[0] == "%":
            p.next()
            return self.v(t)
        c = self.mod.const(ty, p)
        if isinstance(c, float):
            if c != c or c in (float("inf"), float("-inf")):
                return "float('%r')" % c
            return "(%r)" % c if c < 0 else repr(c)
        return repr(c)

    def tval(self, p):
        ty = p.type()
        return ty, self.val(ty, p)

    def tmp(self):
        self.ntmp += 1
        return "t%d" % self.ntmp

    def build(self):
        header, body = self.f.text
        toks = tokenize(header)
        p = P(self.mod, toks)
        # locate the parameter list: the '(' after the function name
        while not (p.peek()[0] == "@" and unq(p.peek()) == self.f.name):
            p.next()
        p.next(); p.need("(")
        params, varargs = [], False
        unn = 0
        while not p.eat(")"):
            if p.eat("..."):
                varargs = True
            else:
                ty = p.type()
                p.skip_attrs()
                if p.peek()[0] == "%":
                    nm = p.next()
                else:
                    nm = "%%%d" % unn
                unn += 1
                params.append((ty, nm))
            p.eat(",")
        self.f.nparams = len(params)
        self.f.argtypes = [t for t, _ in params]
        self.f.varargs = varargs
        blocks = self.split_blocks(body, len(params))
        order = {b[0]: i for i, b in enumerate(blocks)}
        self.order = order
        # phi collection
        parsed = []
        phis = {}
        for bi, (lab, ins) in enumerate(blocks):
            rest = []
            for line in ins:
                toks = tokenize(line)
                if len(toks) > 2 and toks[1] == "=" and toks[2] == "phi":
                    q = P(self.mod, toks)
                    dst = self.v(q.next()); q.next(); q.next()
                    while q.peek() in ("fast", "nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc"):
                        q.next()
                    ty = q.type()
                    while True:
                        q.need("[")
                        e = self.val(ty, q)
                        q.need(",")
                        pl = q.next()[1:].strip('"')
                        q.need("]")
                        phis.setdefault((pl, lab), []).append((dst, e))
                        if not q.eat(","):
                            break
                else:
                    rest.append(toks)
            parsed.append((lab, rest))
        self.phis = phis
        codes = []
        for lab, ins in parsed:
            self.cur = lab
            self.out = []
            for toks in ins:
                self.ins(toks)
            codes.append(self.out)
        args = ", ".join(self.v(nm) for _, nm in params)
        if varargs:
            args += (", " if args else "") + "*va"
        src = ["def %s(%s):" % (self.f.pyname, args)]
        ind = " "
        if self.has_alloca:
            src.append(" sp0 = MEM.sp")
            src.append(" try:")
            ind = "  "
        if len(codes) == 1:
            body = codes[0]
            if body and body[-1] == "continue":
                body = ["while True:"] + [" " + x for x in body]
            src += [ind + l for l in body]
        else:
            src.append(ind + "b = 0")
            src.append(ind + "while True:")
            self.emit_tree(src, codes, 0, len(codes), ind + " ")
        if self.has_alloca:
            src.append(" finally:")
            src.append("  if MEM.sp > sp0:")
            src.append("   SH[sp0:MEM.sp] = bytes(MEM.sp-sp0)")
            src.append("   MEM.sp = sp0")
        return "\n".join(src) + "\n"

    def emit_tree(self, src, codes, lo, hi, ind):
        if hi - lo == 1:
            src += [ind + l for l in (codes[lo] or ["pass"])]
            return
        mid = (lo + hi) // 2
        src.append(ind + "if b < %d:" % mid)
        self.emit_tree(src, codes, lo, mid, ind + " ")
        src.append(ind + "else:")
        self.emit_tree(src, codes, mid, hi, ind + " ")

    LAB = re.compile(r'^("(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+):')

    def split_blocks(self, body, nparams):
        blocks = []
        cur = None
        pend = None
        depth = 0
        for l in body.split("\n"):
            if not l.strip() or l.lstrip().startswith(";"):
                continue
            if l[0] != " ":
                m = self.LAB.match(l)
                if m:
                    cur = []
                    blocks.append((m.group(1).strip('"'), cur))
                    continue
            s = l.strip()
            if cur is None:
                cur = []
                blocks.append(("entry" if False else str(nparams), cur))
            # multi-line: switch [ ... ], landingpad clauses, invoke ... to label
            if pend is not None:
                cur[-1] += " " + s
                if pend == "[":
                    if s.startswith("]"):
                        pend = None
                elif pend == "to":
                    if s.startswith("to label"):
                        pend = None
                continue
            if s.startswith(("catch ", "cleanup", "filter ")) and cur and "landingpad" in cur[-1]:
                cur[-1] += " " + s
                continue
            cur.append(s)
            if s.startswith("switch ") and s.endswith("["):
                pend = "["
            elif ("invoke " in s) and (s.startswith("invoke ") or " = invoke " in s) and " to label " not in s:
                pend = "to"
        return blocks

    # ---- edges
    def goto(self, label):
        label = label[1:].strip('"')
        ph = self.phis.get((self.cur, label))
        tgt = self.order.get(label)
        r = []
        if ph:
            ph = [x for x in ph if x[0] != x[1]]
            seen = {}
            for d, e in ph:
                seen[d] = e
            if seen:
                r.append("%s = %s" % (", ".join(seen), ", ".join(seen.values())))
        r.append("b = %d" % tgt)
        r.append("continue")
        return r

    def w(self, s):
        self.out.append(s)

    # ---- memory access
    def load_expr(self, ty, a):
        if not a.isidentifier() and not a.isdigit():
            t = self.tmp()
            self.w("%s = %s" % (t, a))
            a = t
        if ty.k == "int" and ty.w == 1:
            return "(LD(%s,1,'i') & 1 != 0)" % a
        if ty.k == "ptr" or ty.k == "int":
            n = ty.size
            if n not in (1, 2, 4, 8):
                raise Unsupported("load of i%d" % ty.w)
            return "(U%d(M,%s)[0] if SH[%s:%s+%d] == ONE%d else LD(%s,%d,'i'))" % (n, a, a, a, n, n, a, n)
        if ty.k == "double":
            return "(UD(M,%s)[0] if SH[%s:%s+8] == ONE8 else LD(%s,8,'d'))" % (a, a, a, a)
        if ty.k == "float":
            return "LD(%s,4,'f')" % a
        if ty.k == "struct":
            return "(%s,)" % ", ".join(self.load_expr(e, "(%s+%d)" % (a, o)) for e, o in zip(ty.el, ty.offs))
        if ty.k in ("array", "vector"):
            return "(%s,)" % ", ".join(self.load_expr(ty.el, "(%s+%d)" % (a, i * ty.el.size)) for i in range(ty.n))
        raise Unsupported("load of " + ty.k)

    def store(self, ty, v, a):
        if not a.isidentifier() and not a.isdigit():
            t = self.tmp()
            self.w("%s = %s" % (t, a))
            a = t
        if ty.k in ("ptr", "int"):
            if ty.k == "int" and ty.w == 1:
                self.w("SD(%s,1,%s,'i')" % (a, "B2I(%s)" % v))
                return
            n = ty.size
            if n not in (1, 2, 4, 8):
                raise Unsupported("store of i%d" % ty.w)
            if not v.isidentifier() and not v.isdigit():
                t = self.tmp(); self.w("%s = %s" % (t, v)); v = t
            self.w("if SH[%s:%s+%d] == ONE%d and %s.__class__ is int: P%d(M,%s,%s)" % (a, a, n, n, v if v.isidentifier() else "(%s)" % v, n, a, v))
            self.w("else: SD(%s,%d,%s,'i')" % (a, n, v))
        elif ty.k == "double":
            if not v.isidentifier():
                t = self.tmp(); self.w("%s = %s" % (t, v)); v = t
            self.w("if SH[%s:%s+8] == ONE8 and %s.__class__ is float: PD(M,%s,%s)" % (a, a, v, a, v))
            self.w("else: SD(%s,8,%s,'d')" % (a, v))
        elif ty.k == "float":
            self.w("SD(%s,4,%s,'f')" % (a, v))
        elif ty.k == "struct":
            t = self.tmp(); self.w("%s = %s" % (t, v))
            for i, (e, o) in enumerate(zip(ty.el, ty.offs)):
                self.store(e, "%s[%d]" % (t, i), "(%s+%d)" % (a, o))
        elif ty.k in ("array", "vector"):
            t = self.tmp(); self.w("%s = %s" % (t, v))
            for i in range(ty.n):
                self.store(ty.el, "%s[%d]" % (t, i), "(%s+%d)" % (a, i * ty.el.size))
        else:
            raise Unsupported("store of " + ty.k)

    # ---- instructions
    FLAGS = {"nuw", "nsw", "exact", "disjoint", "nneg", "samesign", "fast", "nnan", "ninf", "nsz", "arcp", "contract", "afn",
             "reassoc", "inbounds", "nusw", "volatile", "atomic"}

    def ins(self, toks):
        p = P(self.mod, toks)
        dst = None
        if len(toks) > 1 and toks[1] == "=":
            dst = self.v(p.next())
            p.next()
        op = p.next()
        if op in ("tail", "musttail", "notail"):
            op = p.next()
        m = getattr(self, "i_" + op, None)
        if m is None:
            self.w("raise Unsupported(%r)" % ("instruction " + op))
            return
        m(dst, p, op)

    def flags(self, p):
        fl = set()
        while p.peek() in self.FLAGS:
            fl.add(p.next())
        return fl

    def i_ret(self, d, p, op):
        ty = p.type()
        if ty is VOID:
            self.w("return None")
        else:
            self.w("return %s" % self.val(ty, p))

    def i_br(self, d, p, op):
        if p.peek() == "label":
            p.next()
            self.out += self.goto(p.next())
            return
        ty, c = self.tval(p)
        p.need(","); p.need("label"); a = p.next()
        p.need(","); p.need("label"); b = p.next()
        self.w("if %s:" % c)
        self.out += [" " + x for x in self.goto(a)]
        self.out += self.goto(b)

    def i_switch(self, d, p, op):
        ty, v = self.tval(p)
        p.need(","); p.need("label"); dflt = p.next()
        p.need("[")
        while not p.eat("]"):
            t2 = p.type()
            c = self.mod.const(t2, p)
            p.need(","); p.need("label")
            l = p.next()
            self.w("if %s == %r:" % (v, c))
            self.out += [" " + x for x in self.goto(l)]
        self.out += self.goto(dflt)

    def i_unreachable(self, d, p, op):
        self.w("raise Crash('reached unreachable code')")

    def i_alloca(self, d, p, op):
        self.has_alloca = True
        p.eat("inalloca")
        ty = p.type()
        n, al = "1", 16
        while p.eat(","):
            if p.eat("align"):
                al = max(16, int(p.next()))
            else:
                t2, n = self.tval(p)
        self.w("%s = ALLOCA(%d*%s, %d)" % (d, ty.size, n if n == "1" else "CONC(%s)" % n, al))

    def i_load(self, d, p, op):
        self.flags(p)
        ty = p.type(); p.need(",")
        pt, a = self.tval(p)
        self.w("%s = %s" % (d, self.load_expr(ty, a)))

    def i_store(self, d, p, op):
        self.flags(p)
        ty, v = self.tval(p); p.need(",")
        pt, a = self.tval(p)
        self.store(ty, v, a)

    def i_getelementptr(self, d, p, op):
        self.flags(p)
        base = p.type(); p.need(",")
        pt, a = self.tval(p)
        idx = []
        while p.eat(","):
            if p.peek() and p.peek()[0] == "!":
                break
            it = p.type()
            p.skip_attrs()
            idx.append((it, self.val(it, p)))
        off, terms, cur, first = 0, [], base, True
        for it, e in idx:
            if first:
                sz, first = base.size, False
            elif cur.k == "struct":
                k = int(e)
                off += cur.offs[k]; cur = cur.el[k]
                continue
            else:
                sz = cur.el.size
                cur = cur.el
            if e.lstrip("-").isdigit():
                x = int(e)
                if x >= 1 << (it.w - 1):
                    x -= 1 << it.w
                off += x * sz
            else:
                terms.append("SIDX%d(%s)*%d" % (it.w, e, sz))
        if not terms:
            if off == 0:
                self.w("%s = %s" % (d, a))
            elif off > 0:
                self.w("%s = %s+%d" % (d, a, off))
            else:
                self.w("%s = (%s-%d)&%d" % (d, a, -off, M64))
        else:
            self.w("%s = (%s+%s%s)&%d" % (d, a, "+".join(terms), "+%d" % off if off else "", M64))

    def _arith(self, d, p, fmt, mask=True):
        self.flags(p)
        ty = p.type(); a = self.val(ty, p); p.need(","); b = self.val(ty, p)
        if ty.k != "int":
            raise Unsupported("vector arithmetic")
        if ty.w == 1:
            return ty, a, b
        self.w("%s = %s" % (d, fmt.format(a=a, b=b, m=(1 << ty.w) - 1, w=ty.w)))
        return None

    def i_add(self, d, p, op):
        r = self._arith(d, p, "({a}+{b})&{m}")
        if r:
            self.w("%s = XOR1(%s,%s)" % (d, r[1], r[2]))
    i_sub_fmt = "({a}-{b})&{m}"

    def i_sub(self, d, p, op):
        r = self._arith(d, p, self.i_sub_fmt)
        if r:
            self.w("%s = XOR1(%s,%s)" % (d, r[1], r[2]))

    def i_mul(self, d, p, op):
        r = self._arith(d, p, "({a}*{b})&{m}")
        if r:
            self.w("%s = AND1(%s,%s)" % (d, r[1], r[2]))

    def i_and(self, d, p, op):
        r = self._arith(d, p, "{a}&{b}")
        if r:
            self.w("%s = AND1(%s,%s)" % (d, r[1], r[2]))

    def i_or(self, d, p, op):
        r = self._arith(d, p, "{a}|{b}")
        if r:
            self.w("%s = OR1(%s,%s)" % (d, r[1], r[2]))

    def i_xor(self, d, p, op):
        r = self._arith(d, p, "{a}^{b}")
        if r:
            self.w("%s = XOR1(%s,%s)" % (d, r[1], r[2]))

    def i_shl(self, d, p, op):
        self._arith(d, p, "({a}<<CONC({b}))&{m}")

    def i_lshr(self, d, p, op):
        self._arith(d, p, "{a}>>CONC({b})")

    def i_ashr(self, d, p, op):
        self._arith(d, p, "ASHR({a},{b},{w})")

    def i_udiv(self, d, p, op):
        self._arith(d, p, "UDIV({a},{b},{w})")

    def i_sdiv(self, d, p, op):
        self._arith(d, p, "SDIV({a},{b},{w})")

    def i_urem(self, d, p, op):
        self._arith(d, p, "UREM({a},{b},{w})")

    def i_srem(self, d, p, op):
        self._arith(d, p, "SREM({a},{b},{w})")

    def i_icmp(self, d, p, op):
        self.flags(p)
        pred = p.next()
        self.flags(p)
        ty = p.type(); a = self.val(ty, p); p.need(","); b = self.val(ty, p)
        if ty.k == "int" and ty.w == 1:
            a, b = "B2I(%s)" % a, "B2I(%s)" % b
        if pred == "eq":
            e = "%s == %s" % (a, b)
        elif pred == "ne":
            e = "%s != %s" % (a, b)
        elif pred[0] == "u":
            e = "%s %s %s" % (a, {"ult": "<", "ule": "<=", "ugt": ">", "uge": ">="}[pred], b)
        else:
            w = 64 if ty.k == "ptr" else ty.w
            e = "%s(%s,%s,%d)" % (pred.upper(), a, b, w)
        self.w("%s = %s" % (d, e))

    def i_fcmp(self, d, p, op):
        self.flags(p)
        pred = p.next()
        ty = p.type(); a = self.val(ty, p); p.need(","); b = self.val(ty, p)
        e = {"oeq": "{a} == {b}", "olt": "{a} < {b}", "ole": "{a} <= {b}", "ogt": "{a} > {b}", "oge": "{a} >= {b}",
             "une": "{a} != {b}", "one": "AND1({a} == {a} and {b} == {b}, {a} != {b})",
             "ult": "NOT1({a} >= {b})", "ule": "NOT1({a} > {b})", "ugt": "NOT1({a} <= {b})", "uge": "NOT1({a} < {b})",
             "ueq": "OR1(not ({a} == {a} and {b} == {b}), {a} == {b})",
             "ord": "({a} == {a} and {b} == {b})", "uno": "(not ({a} == {a} and {b} == {b}))",
             "true": "True", "false": "False"}[pred].format(a=a, b=b)
        self.w("%s = %s" % (d, e))

    def _fbin(self, d, p, sym):
        self.flags(p)
        ty = p.type(); a = self.val(ty, p); p.need(","); b = self.val(ty, p)
        self.w("%s = %s" % (d, sym.format(a=a, b=b)))

    def i_fadd(self, d, p, op):
        self._fbin(d, p, "{a} + {b}")

    def i_fsub(self, d, p, op):
        self._fbin(d, p, "{a} - {b}")

    def i_fmul(self, d, p, op):
        self._fbin(d, p, "FMUL({a},{b})")

    def i_fdiv(self, d, p, op):
        self._fbin(d, p, "FDIV({a},{b})")

    def i_frem(self, d, p, op):
        self._fbin(d, p, "FREM({a},{b})")

    def i_fneg(self, d, p, op):
        self.flags(p)
        ty, a = self.tval(p)
        self.w("%s = -%s" % (d, a))

    def i_select(self, d, p, op):
        self.flags(p)
        tc, c = self.tval(p); p.need(",")
        ta, a = self.tval(p); p.need(",")
        tb, b = self.tval(p)
        if ta.k == "int" and ta.w == 1:
            self.w("%s = (%s if %s else %s) if %s.__class__ is bool else SEL1(%s,%s,%s)" % (d, a, c, b, c if c.isidentifier() else "(%s)" % c, c, a, b))
        else:
            self.w("%s = (%s if %s else %s) if %s.__class__ is bool else SEL(%s,%s,%s,%d)" % (d, a, c, b, c if c.isidentifier() else "(%s)" % c, c, a, b, ta.w or 64))

    def _conv(self, p):
        self.flags(p)
        st = p.type(); a = self.val(st, p); p.need("to"); dt = p.type()
        return st, a, dt

    def i_trunc(self, d, p, op):
        st, a, dt = self._conv(p)
        if dt.w == 1:
            self.w("%s = TRUNC1(%s)" % (d, a))
        else:
            self.w("%s = %s&%d if %s.__class__ is int else VTRUNC(%s,%d)" % (d, a, (1 << dt.w) - 1, a, a, dt.w))

    def i_zext(self, d, p, op):
        st, a, dt = self._conv(p)
        if st.w == 1:
            self.w("%s = (1 if %s else 0) if %s.__class__ is bool else BITE(%s,%d,False)" % (d, a, a, a, dt.w))
        else:
            self.w("%s = %s if %s.__class__ is int else VZEXT(%s,%d)" % (d, a, a, a, dt.w))

    def i_sext(self, d, p, op):
        st, a, dt = self._conv(p)
        if st.w == 1:
            self.w("%s = (%d if %s else 0) if %s.__class__ is bool else BITE(%s,%d,True)" % (d, (1 << dt.w) - 1, a, a, a, dt.w))
        else:
            self.w("%s = SEXT(%s,%d,%d)" % (d, a, st.w, dt.w))

    def i_ptrtoint(self, d, p, op):
        st, a, dt = self._conv(p)
        self.w("%s = %s&%d" % (d, a, (1 << dt.w) - 1) if dt.w < 64 else "%s = %s" % (d, a))

    def i_inttoptr(self, d, p, op):
        st, a, dt = self._conv(p)
        self.w("%s = CONC(%s)" % (d, a))

    def i_bitcast(self, d, p, op):
        st, a, dt = self._conv(p)
        if st.k == dt.k:
            self.w("%s = %s" % (d, a))
        elif st.k == "int" and dt.k == "double":
            self.w("%s = I2D(%s)" % (d, a))
        elif st.k == "double" and dt.k == "int":
            self.w("%s = D2I(%s)" % (d, a))
        else:
            raise Unsupported("bitcast")
    i_addrspacecast = i_bitcast

    def i_freeze(self, d, p, op):
        ty, a = self.tval(p)
        self.w("%s = %s" % (d, a))

    def i_fptosi(self, d, p, op):
        st, a, dt = self._conv(p)
        self.w("%s = FPTOSI(%s,%d)" % (d, a, dt.w))

    def i_fptoui(self, d, p, op):
        st, a, dt = self._conv(p)
        self.w("%s = FPTOUI(%s,%d)" % (d, a, dt.w))

    def i_sitofp(self, d, p, op):
        st, a, dt = self._conv(p)
        self.w("%s = SITOFP(%s,%d)" % (d, a, st.w) if st.w > 1 else "%s = -1.0 if %s else 0.0" % (d, a))

    def i_uitofp(self, d, p, op):
        st, a, dt = self._conv(p)
        self.w("%s = UITOFP(%s,%d)" % (d, a, st.w) if st.w > 1 else "%s = 1.0 if %s else 0.0" % (d, a))

    def i_fpext(self, d, p, op):
        st, a, dt = self._conv(p)
        self.w("%s = %s" % (d, a))

    def i_fptrunc(self, d, p, op):
        st, a, dt = self._conv(p)
        self.w("%s = FPTRUNC(%s)" % (d, a))

    def i_extractvalue(self, d, p, op):
        ty, a = self.tval(p)
        ix = ""
        while p.eat(","):
            ix += "[%s]" % p.next()
        self.w("%s = %s%s" % (d, a, ix))

    def i_insertvalue(self, d, p, op):
        ty, a = self.tval(p); p.need(",")
        t2, b = self.tval(p)
        ix = []
        while p.eat(","):
            ix.append(int(p.next()))
        self.w("%s = INSV(%s, %s, %r)" % (d, a, b, ix))

    def i_resume(self, d, p, op):
        ty, a = self.tval(p)
        self.w("RESUME(%s)" % a)

    def i_landingpad(self, d, p, op):
        ty = p.type()
        clauses = []
        cleanup = False
        while p.peek() is not None:
            t = p.next()
            if t == "cleanup":
                cleanup = True
            elif t == "catch":
                ct = p.type()
                clauses.append(self.mod.const(ct, p))
            elif t == "filter":
                raise Unsupported("filter clause")
            else:
                break
        self.w("%s = LPAD(exc, %r, %r)" % (d, tuple(clauses), cleanup))

    def i_fence(self, d, p, op):
        self.w("pass")

    def i_atomicrmw(self, d, p, op):
        self.flags(p)
        kind = p.next()
        pt, a = self.tval(p); p.need(",")
        ty, v = self.tval(p)
        if kind not in ("add", "sub", "xchg"):
            raise Unsupported("atomicrmw " + kind)
        self.w("%s = %s" % (d, self.load_expr(ty, a)))
        e = {"add": "({a}+{b})&{m}", "sub": "({a}-{b})&{m}", "xchg": "{b}"}[kind].format(a=d, b=v, m=(1 << ty.w) - 1)
        self.store(ty, e, a)

    def _call(self, p):
        while True:
            t = p.peek()
            if t in ("ccc", "fastcc", "coldcc", "cc") or t in self.FLAGS:
                p.next()
                continue
            break
        p.skip_attrs_ret()
        rt = p.type()
        if rt.k == "fn":
            rt = rt.el
        callee = p.next()
        p.need("(")
        args = []
        while not p.eat(")"):
            ty = p.type()
            if ty is META:
                while p.peek() not in (",", ")"):
                    p.next()
                args.append(None)
            else:
                byval = "byval" in p.t[p.i:p.i + 3]
                p.skip_attrs()
                args.append(self.val(ty, p))
                if byval:
                    args[-1] = "BYVAL(%s)" % args[-1]
            p.eat(",")
        if callee[0] == "@":
            name = unq(callee)
            if name.startswith("llvm."):
                r = self.intrinsic(name, args)
                return rt, r
            fn = self.mod.prog.callee(self.mod, name)
            return rt, "%s(%s)" % (fn, ", ".join(args))
        return rt, "ICALL(%s%s)" % (self.v(callee), "".join(", " + a for a in args))

    def i_call(self, d, p, op):
        rt, e = self._call(p)
        if e is None:
            return
        if rt.k == "int" and rt.w == 1 and "ICALL" not in e and not e.startswith("("):
            pass
        self.w("%s = %s" % (d, e) if d and rt is not VOID else e)

    def i_invoke(self, d, p, op):
        rt, e = self._call(p)
        while p.peek() != "to":
            p.next()
        p.need("to"); p.need("label"); ok = p.next()
        p.need("unwind"); p.need("label"); bad = p.next()
        if e is not None:
            self.w("try: %s" % ("%s = %s" % (d, e) if d and rt is not VOID else e))
            self.w("except CxxThrow as ex_:")
            self.w(" exc = ex_")
            self.out += [" " + x for x in self.goto(bad)]
        self.out += self.goto(ok)

    def intrinsic(self, name, args):
        n = name[5:]
        if n.startswith(("lifetime", "assume", "experimental.noalias", "dbg", "invariant", "prefetch", "donothing", "stackrestore", "var.annotation")):
            return None
        if n.startswith("stacksave"):
            return "0"
        if n.startswith(("memcpy", "memmove")):
            return "MEMCPY(%s)" % ",".join(args[:3])
        if n.startswith("memset"):
            return "MEMSET(%s)" % ",".join(args[:3])
        w = n.split(".")[-1]
        wi = int(w[1:]) if w[0] == "i" and w[1:].isdigit() else 0
        k = n.split(".")[0]
        if k in ("smax", "smin", "umax", "umin"):
            return "%s(%s,%s,%d)" % (k.upper(), args[0], args[1], wi)
        if k == "abs":
            return "IABS(%s,%d)" % (args[0], wi)
        if k == "expect":
            return args[0]
        if k == "trap":
            return "TRAP()"
        if n.startswith("eh.typeid.for"):
            return args[0]
        if k in ("fabs", "sqrt", "floor", "ceil", "pow", "exp", "log", "sin", "cos", "trunc", "rint", "nearbyint", "round", "copysign", "minnum", "maxnum", "powi", "log10", "exp2", "log2"):
            return "FM_%s(%s)" % (k, ",".join(args))
        if k in ("fmuladd", "fma"):
            return "(FMUL(%s,%s) + %s)" % tuple(args)
        if n.startswith(("uadd.with.overflow", "umul.with.overflow", "sadd.with.overflow", "ssub.with.overflow", "smul.with.overflow", "usub.with.overflow")):
            return "OVF(%r,%s,%s,%d)" % (n[:4], args[0], args[1], wi)
        if n.startswith(("usub.sat", "uadd.sat")):
            return "SAT(%r,%s,%s,%d)" % (n[:4], args[0], args[1], wi)
        if k in ("ctlz", "cttz", "ctpop", "bswap"):
            return "BITS(%r,%s,%d)" % (k, args[0], wi)
        if n.startswith("is.constant"):
            return "False"
        if n.startswith("objectsize"):
            return repr(M64)
        return "UNSUP(%r)" % name


def _skip_attrs_ret(self):
    # return attributes precede the type in calls: words that are not types
    while True:
        t = self.peek()
        if t in ("noundef", "nonnull", "zeroext", "signext", "inreg", "noalias", "noext"):
            self.next()
        elif t == "align":
            self.next(); self.next()
        elif t in ("dereferenceable", "dereferenceable_or_null", "range", "nofpclass"):
            self.next(); self.skip_parens()
        else:
            return


P.skip_attrs_ret = _skip_attrs_ret
