"""Engine B: symbolic execution of the LLVM IR that numba generates for the compiled mode.

The module text that numba hands to its JIT (`dispatcher.inspect_llvm()`) is parsed and interpreted
over terms.  Memory is a set of disjoint byte-addressed regions.  Branches whose two sides meet again
without a loop are executed on both sides and merged with if-then-else; all others fork through CTX."""
import re
import struct

from . import terms as T
from .ctx import CTX, MergeAbort, Unsupported

# --------------------------------------------------------------------------- lexing and types
_TOK = re.compile(r'''\s*(?:
 (?P<loc>%"[^"]*"|%[-\w.$]+)|(?P<glob>@"[^"]*"|@[-\w.$]+)|(?P<cstr>c"[^"]*")|(?P<str>"[^"]*")|
 (?P<meta>![-\w."]*)|(?P<attr>\#\d+)|(?P<hex>0x[KLMH]?[0-9A-Fa-f]+)|(?P<flt>-?\d+\.\d+(?:e[-+]?\d+)?)|
 (?P<num>-?\d+)|(?P<word>[\w.]+)|(?P<dots>\.\.\.)|(?P<p>[()\[\]{}<>,*=|])
)''', re.X)


def lex(s):
    out = []
    i = 0
    n = len(s)
    while i < n:
        m = _TOK.match(s, i)
        if not m:
            if s[i:].strip() == "" or s[i:].lstrip().startswith(";"):
                break
            raise Unsupported(f"LLVM token at {s[i:i + 40]!r}")
        k = m.lastgroup
        v = m.group(k)
        i = m.end()
        if v.startswith(";"):
            break
        out.append((k, v))
    return out


class P:
    """token cursor"""

    def __init__(self, toks, mod):
        self.t, self.i, self.mod = toks, 0, mod

    def peek(self):
        return self.t[self.i][1] if self.i < len(self.t) else None

    def kind(self):
        return self.t[self.i][0] if self.i < len(self.t) else None

    def next(self):
        v = self.t[self.i][1]
        self.i += 1
        return v

    def accept(self, v):
        if self.peek() == v:
            self.i += 1
            return True
        return False

    def expect(self, v):
        if not self.accept(v):
            raise Unsupported(f"LLVM syntax: expected {v!r} near {[x[1] for x in self.t[max(0, self.i - 5):self.i + 5]]}")

    # ---- types
    def type(self):
        v = self.next()
        if re.fullmatch(r"i\d+", v):
            t = ("i", int(v[1:]))
        elif v == "float":
            t = ("f", 32)
        elif v == "double":
            t = ("f", 64)
        elif v == "void":
            t = ("void",)
        elif v == "metadata":
            t = ("meta",)
        elif v == "label":
            t = ("label",)
        elif v == "[":
            n = int(self.next())
            self.expect("x")
            e = self.type()
            self.expect("]")
            t = ("a", n, e)
        elif v == "<":
            if self.accept("{"):
                t = ("s", self._fields("}"), True)
                self.expect(">")
            else:
                n = int(self.next())
                self.expect("x")
                e = self.type()
                self.expect(">")
                t = ("v", n, e)
        elif v == "{":
            t = ("s", self._fields("}"), False)
        elif v.startswith("%"):
            t = self.mod.types.get(v, ("opaque", v))
        else:
            raise Unsupported(f"LLVM type {v!r}")
        while True:
            if self.accept("*"):
                t = ("p", t)
            elif self.peek() == "(" and self._fnsig():
                self.next()
                args = []
                while not self.accept(")"):
                    if self.accept("..."):
                        continue
                    if self.accept(","):
                        continue
                    args.append(self.type())
                t = ("fn", t, tuple(args))
            else:
                return t

    def _fnsig(self):
        # `T (` opens a function type when a type (or `)`/`...`) follows
        k = self.i + 1
        if k >= len(self.t):
            return False
        kind, v = self.t[k]
        return v in (")", "...", "[", "{", "<", "void", "float", "double", "metadata") or bool(re.fullmatch(r"i\d+", v)) \
            or kind == "loc" and v in self.mod.types

    def _fields(self, end):
        f = []
        while not self.accept(end):
            f.append(self.type())
            self.accept(",")
        return tuple(f)

    def attrs(self):
        """skip parameter attributes"""
        while True:
            v = self.peek()
            if v in ("noalias", "nocapture", "nonnull", "readonly", "readnone", "writeonly", "noundef", "immarg",
                     "signext", "zeroext", "inreg", "returned", "nofree", "dso_local", "local_unnamed_addr",
                     "unnamed_addr", "swiftself", "nest"):
                self.i += 1
            elif v in ("align",):
                self.i += 1
                if self.peek() == "(":
                    self.i += 3
                else:
                    self.i += 1
            elif v in ("dereferenceable", "dereferenceable_or_null", "byval", "sret"):
                self.i += 1
                self.expect("(")
                d = 1
                while d:
                    x = self.next()
                    d += (x == "(") - (x == ")")
            else:
                return

    # ---- operands: (kind, ...) tuples resolved at run time
    def value(self, ty):
        k, v = self.t[self.i]
        self.i += 1
        if k == "loc":
            return ("l", v)
        if k == "glob":
            return ("c", self.mod.global_ptr(v))
        if k == "num":
            if ty[0] == "f":
                return ("c", T.f2b(float(v), ty[1]))
            return ("c", T.const(int(v), self.mod.bits(ty)))
        if k == "hex":
            x = int(v[2:], 16)
            if ty[0] == "f" and ty[1] == 32:
                d = struct.unpack("<d", struct.pack("<Q", x))[0]
                return ("c", T.const(struct.unpack("<I", struct.pack("<f", d))[0], 32))
            return ("c", T.const(x, 64))
        if k == "flt":
            x = float(v)
            return ("c", T.const(struct.unpack("<I", struct.pack("<f", x))[0], 32) if ty[1] == 32 else
                    T.const(struct.unpack("<Q", struct.pack("<d", x))[0], 64))
        if k == "cstr":
            b = _cbytes(v[2:-1])
            return ("c", [T.const(x, 8) for x in b])
        if v in ("true", "false"):
            return ("c", T.const(v == "true", 1))
        if v == "null":
            return ("c", NULL)
        if v in ("undef", "poison"):
            return ("c", self.mod.undef(ty))
        if v == "zeroinitializer":
            return ("c", self.mod.zero(ty))
        if v in ("[", "{", "<"):
            packed = v == "<" and self.accept("{")
            end = {"[": "]", "{": "}", "<": "}" if packed else ">"}[v]
            xs = []
            while not self.accept(end):
                et = self.type()
                xs.append(self.value(et))
                self.accept(",")
            if packed:
                self.expect(">")
            if not all(x[0] == "c" for x in xs):
                raise Unsupported("non-constant aggregate")
            return ("c", [x[1] for x in xs])
        if v in ("getelementptr", "bitcast", "inttoptr", "ptrtoint", "addrspacecast", "trunc", "zext", "sext", "add", "sub"):
            return ("c", self.constexpr(v))
        raise Unsupported(f"LLVM operand {v!r}")

    def constexpr(self, op):
        if op == "getelementptr":
            self.accept("inbounds")
            self.expect("(")
            base_t = self.type()
            self.expect(",")
            pt, pv = self.tv()
            idx = []
            while self.accept(","):
                self.accept("inrange")
                it, iv = self.tv()
                idx.append(iv[1])
            self.expect(")")
            return self.mod.gep(base_t, pv[1], idx)
        if op in ("add", "sub"):
            while self.peek() in ("nuw", "nsw"):
                self.next()
            self.expect("(")
            _, a = self.tv()
            self.expect(",")
            _, b = self.tv()
            self.expect(")")
            return _padd(a[1], b[1] if op == "add" else T.neg(b[1]))
        self.expect("(")
        _, v = self.tv()
        self.expect("to")
        t = self.type()
        self.expect(")")
        if op in ("bitcast", "inttoptr", "ptrtoint", "addrspacecast"):
            return v[1]
        w = self.mod.bits(t)
        return {"trunc": T.trunc, "zext": T.zext, "sext": T.sext}[op](v[1], w)

    def tv(self):
        t = self.type()
        self.attrs()
        return t, self.value(t)


def _cbytes(s):
    out = bytearray()
    i = 0
    b = s.encode("latin-1", "surrogateescape")
    while i < len(b):
        if b[i] == 0x5C:
            if b[i + 1] == 0x5C:
                out.append(0x5C)
                i += 2
            else:
                out.append(int(b[i + 1:i + 3], 16))
                i += 3
        else:
            out.append(b[i])
            i += 1
    return bytes(out)


# --------------------------------------------------------------------------- memory
class Region:
    __slots__ = ("name", "size", "cells", "const", "id", "unset")
    _n = 0

    def __init__(self, name, size, const=False):
        Region._n += 1
        self.id = Region._n
        self.name, self.size, self.cells, self.const = name, size, {}, const
        self.unset = None  # byte value of cells never written (None = undefined)


class Ptr:
    __slots__ = ("r", "off")

    def __init__(self, r, off):
        self.r, self.off = r, off  # off: 64-bit term

    def __repr__(self):
        return f"&{self.r.name if self.r else 'null'}+{T.show(self.off, 2)}"


NULL = Ptr(None, T.const(0, 64))


def _padd(p, t):
    if isinstance(p, Ptr):
        if isinstance(t, Ptr):
            if t.r is None:
                return Ptr(p.r, T.add(p.off, t.off))
            if p.r is None:
                return Ptr(t.r, T.add(p.off, t.off))
            raise Unsupported("sum of pointers")
        return Ptr(p.r, T.add(p.off, T.resize(t, 64, True)))
    if isinstance(t, Ptr):
        return Ptr(t.r, T.add(t.off, p))
    return T.add(p, t)


class OutOfBounds(Exception):
    """the compiled code would access memory outside an object"""


class NativeError(Exception):
    """the compiled function reports an exception"""


class MJournal:
    def __init__(self):
        self.old = {}

    def take(self):
        new = {}
        for (rid, off), (r, old) in self.old.items():
            new[(rid, off)] = r.cells.get(off)
            if old is None:
                r.cells.pop(off, None)
            else:
                r.cells[off] = old
        return new


def _log(r, off):
    if CTX.journals:
        j = CTX.journals[-1]
        k = (r.id, off)
        if k not in j.old:
            j.old[k] = (r, r.cells.get(off))


def _put(r, off, v):
    _log(r, off)
    r.cells[off] = v


def _del(r, off):
    _log(r, off)
    del r.cells[off]


_MAXCELL = 16


def _vbytes(v):
    return 8 if isinstance(v, Ptr) else v.w // 8


def mem_store(r, off, v):
    n = _vbytes(v)
    if off < 0 or off + n > r.size:
        raise OutOfBounds(f"store of {n} bytes at {off} of {r.name} ({r.size} bytes)")
    if r.const:
        raise Unsupported("store to constant")
    c = r.cells.get(off)
    if c is not None and _vbytes(c) == n:
        _put(r, off, v)
        return
    # split or drop overlapping cells
    for o in range(max(0, off - _MAXCELL + 1), off + n):
        c = r.cells.get(o)
        if c is None:
            continue
        m = _vbytes(c)
        if o + m <= off:
            continue
        if o >= off and o + m <= off + n:
            _del(r, o)
            continue
        _del(r, o)
        if isinstance(c, Ptr):  # the bytes that stay are an address, of which nothing is known
            for k in range(m):
                if not off <= o + k < off + n:
                    _put(r, o + k, T.var(f"address!{r.id}.{o + k}", 8))
            continue
        for k in range(m):
            if not off <= o + k < off + n:
                _put(r, o + k, T.extract(c, 8 * k + 7, 8 * k))
    _put(r, off, v)


def mem_load(r, off, n, ptr):
    if off < 0 or off + n > r.size:
        raise OutOfBounds(f"load of {n} bytes at {off} of {r.name} ({r.size} bytes)")
    c = r.cells.get(off)
    if c is not None and _vbytes(c) == n:
        return c
    if isinstance(c, Ptr):
        raise Unsupported("partial read of a pointer")
    parts = []
    k = 0
    while k < n:
        b = None
        for o in range(off + k, off + k - _MAXCELL, -1):
            c = r.cells.get(o)
            if c is not None:
                m = _vbytes(c)
                if o + m > off + k:
                    if isinstance(c, Ptr):
                        raise Unsupported("partial read of a pointer")
                    lo = off + k - o
                    take = min(m - lo, n - k)
                    b = T.extract(c, 8 * (lo + take) - 1, 8 * lo)
                break
        if b is None:
            if r.unset is not None:
                b = T.const(r.unset, 8)
            else:
                b = T.var(f"uninit!{r.name}!{off + k}", 8)
        parts.append(b)
        k += b.w // 8
    v = T.concat(*reversed(parts))
    if ptr:
        if T.is_const(v):
            return Ptr(None, v)
        raise Unsupported("integer bytes used as a pointer")
    return v


# --------------------------------------------------------------------------- module
class Block:
    __slots__ = ("name", "phis", "ins", "term", "succ", "ret_err")


class Func:
    __slots__ = ("name", "params", "blocks", "entry", "ret", "ipdom", "reach", "lines")


class Module:
    def __init__(self, text):
        self.types = {}
        self.gtext = {}
        self.gptr = {}
        self.ftext = {}
        self.funcs = {}
        self.order = []
        self._split(text)

    def _split(self, text):
        lines = text.split("\n")
        i = 0
        while i < len(lines):
            ln = lines[i]
            if ln.startswith("define "):
                m = re.search(r'@("[^"]*"|[-\w.$]+)\(', ln)
                name = "@" + m.group(1)
                j = i + 1
                while lines[j] != "}":
                    j += 1
                self.ftext[name] = lines[i:j]
                self.order.append(name)
                i = j
            elif ln.startswith("@"):
                m = re.match(r'(@"[^"]*"|@[-\w.$]+) = (.*)$', ln)
                self.gtext[m.group(1)] = m.group(2)
            elif ln.startswith("%") and " = type " in ln:
                n, d = ln.split(" = type ", 1)
                self.types[n] = ("opaque", n)
                if d.strip() != "opaque":
                    self.types[n] = P(lex(d), self).type()
            i += 1

    # ---- layout
    def bits(self, t):
        if t[0] in ("i", "f"):
            return t[1]
        if t[0] == "p":
            return 64
        raise Unsupported(f"bits of {t}")

    def size(self, t):
        k = t[0]
        if k == "i":
            n = (t[1] + 7) // 8
            p = 1
            while p < n:
                p *= 2
            return p
        if k == "f":
            return t[1] // 8
        if k == "p":
            return 8
        if k == "a":
            return t[1] * self.size(t[2])
        if k == "v":
            return t[1] * self.size(t[2])
        if k == "s":
            o = 0
            for f in t[1]:
                if not t[2]:
                    a = self.align(f)
                    o = (o + a - 1) // a * a
                o += self.size(f)
            if not t[2]:
                a = self.align(t)
                o = (o + a - 1) // a * a
            return o
        raise Unsupported(f"size of {t}")

    def align(self, t):
        k = t[0]
        if k in ("i", "f", "p"):
            return min(self.size(t), 16) if not (k == "i" and t[1] == 128) else 8
        if k in ("a",):
            return self.align(t[2])
        if k == "v":
            return self.size(t)
        return 1 if t[2] or not t[1] else max(self.align(f) for f in t[1])

    def foff(self, t, i):
        o = 0
        for k, f in enumerate(t[1]):
            if not t[2]:
                a = self.align(f)
                o = (o + a - 1) // a * a
            if k == i:
                return o
            o += self.size(f)
        raise Unsupported("field index")

    def zero(self, t):
        k = t[0]
        if k in ("i", "f"):
            return T.const(0, t[1])
        if k == "p":
            return NULL
        if k in ("a", "v"):
            return [self.zero(t[2]) for _ in range(t[1])]
        if k == "s":
            return [self.zero(f) for f in t[1]]
        raise Unsupported(f"zero of {t}")

    def undef(self, t):
        # a fixed value refines undef; the code must not depend on it
        return self.zero(t)

    def gep(self, base_t, ptr, idx):
        """address arithmetic on terms"""
        if not isinstance(ptr, Ptr):
            ptr = Ptr(None, ptr)
        off = ptr.off
        t = base_t
        for k, ix in enumerate(idx):
            if isinstance(ix, Ptr):
                raise Unsupported("pointer index")
            if k == 0:
                off = T.add(off, T.mul(T.resize(ix, 64, True), T.const(self.size(t), 64)))
            elif t[0] == "s":
                o = self.foff(t, ix.p)
                off = T.add(off, T.const(o, 64))
                t = t[1][ix.p]
            else:
                t = t[2]
                off = T.add(off, T.mul(T.resize(ix, 64, True), T.const(self.size(t), 64)))
        return Ptr(ptr.r, off)

    def global_ptr(self, name):
        p = self.gptr.get(name)
        if p is None:
            r = Region(name, 8, const=True)
            p = self.gptr[name] = Ptr(r, T.const(0, 64))
            d = self.gtext.get(name)
            if d is not None and " constant " in " " + d and "external" not in d.split(" constant ")[0]:
                toks = lex(d)
                i = next(k for k, x in enumerate(toks) if x[1] == "constant")
                c = P(toks[i + 1:], self)
                t = c.type()
                r.size = max(1, self.size(t))
                v = c.value(t)
                r.const = False
                self.store_typed(r, 0, t, v[1], direct=True)
                r.const = True
            elif d is not None and "external" not in d:
                # `common global i8* null`: numba's environment pointer
                r.size = 8
                r.unset = 0
                r.const = False
            elif name.startswith("@PyExc") or d is not None or name in self.ftext:
                pass
        return p

    def store_typed(self, r, off, t, v, direct=False):
        k = t[0]
        if k in ("i", "f", "p"):
            if not isinstance(v, Ptr) and v.w % 8:
                v = T.zext(v, (v.w + 7) // 8 * 8)
            if direct:
                r.cells[off] = v
            else:
                mem_store(r, off, v)
        elif k in ("a", "v"):
            n = self.size(t[2])
            for i, x in enumerate(v):
                self.store_typed(r, off + i * n, t[2], x, direct)
        elif k == "s":
            for i, x in enumerate(v):
                self.store_typed(r, off + self.foff(t, i), t[1][i], x, direct)
        else:
            raise Unsupported(f"store of {t}")

    def load_typed(self, r, off, t):
        k = t[0]
        if k in ("i", "f"):
            w = t[1]
            v = mem_load(r, off, (w + 7) // 8, False)
            if isinstance(v, Ptr):
                return v
            return v if v.w == w else T.extract(v, w - 1, 0)
        if k == "p":
            v = mem_load(r, off, 8, True)
            return v if isinstance(v, Ptr) else self._as_ptr(v)
        if k in ("a", "v"):
            n = self.size(t[2])
            return [self.load_typed(r, off + i * n, t[2]) for i in range(t[1])]
        if k == "s":
            return [self.load_typed(r, off + self.foff(t, i), f) for i, f in enumerate(t[1])]
        raise Unsupported(f"load of {t}")

    @staticmethod
    def _as_ptr(v):
        if T.is_const(v):
            return Ptr(None, v)
        raise Unsupported("pointer made from data")

    # ---- functions
    def func(self, name):
        f = self.funcs.get(name)
        if f is None:
            if name not in self.ftext:
                return None
            f = self.funcs[name] = self._parse(name, self.ftext[name])
        return f

    def _parse(self, name, lines):
        f = Func()
        f.name = name
        f.lines = len(lines)
        head = lex(lines[0])
        c = P(head, self)
        while c.kind() != "glob":
            c.i += 1
        # return type precedes the name; only its voidness matters
        c.next()
        c.expect("(")
        f.params = []
        while not c.accept(")"):
            if c.accept("..."):
                continue
            t = c.type()
            c.attrs()
            f.params.append((c.next(), t))
            c.accept(",")
        f.blocks = {}
        cur = None
        i = 1
        while i < len(lines):
            ln = lines[i]
            i += 1
            s = ln.strip()
            if not s or s.startswith(";"):
                continue
            if not ln.startswith(" "):
                m = re.match(r'("[^"]*"|[-\w.$]+):', ln)
                cur = Block()
                cur.name = "%" + m.group(1)
                cur.phis, cur.ins, cur.term = [], [], None
                f.blocks[cur.name] = cur
                if len(f.blocks) == 1:
                    f.entry = cur
                continue
            if cur is None:
                raise Unsupported("unnamed entry block")
            if s.startswith("switch") and s.endswith("["):
                while not lines[i].strip().startswith("]"):
                    s += " " + lines[i].strip()
                    i += 1
                s += " ]"
                i += 1
            self._instr(s, cur)
        for b in f.blocks.values():
            b.succ = self._succ(b)
        self._cfg(f)
        return f

    @staticmethod
    def _succ(b):
        t = b.term
        if t[0] == "br":
            return [t[1]]
        if t[0] == "cbr":
            return [t[2], t[3]]
        if t[0] == "switch":
            return [t[2]] + [x for _, x in t[3]]
        return []

    def _cfg(self, f):
        """immediate postdominators over the part of the graph that can leave normally"""
        names = list(f.blocks)
        # edges into a return block that deliver a non-zero status are error edges
        err_edges = set()
        rets = []
        for b in f.blocks.values():
            if b.term[0] == "ret":
                rets.append(b.name)
                v = b.term[2]
                if v is not None and v[0] == "l":
                    for d, t, inc in b.phis:
                        if d == v[1]:
                            for val, pred in inc:
                                if not (val[0] == "c" and not isinstance(val[1], Ptr) and not isinstance(val[1], list)
                                        and T.is_const(val[1]) and val[1].p in (0, T.mask(32) - 1)):
                                    err_edges.add((pred, b.name))
                elif v is not None and v[0] == "c" and b.term[1] == ("i", 32) and v[1].p not in (0, T.mask(32) - 1):
                    err_edges.add((None, b.name))
        dead = {n for (p, n) in err_edges if p is None}
        succ = {n: [s for s in f.blocks[n].succ if (n, s) not in err_edges and s not in dead] for n in names}
        if all(not any((p, n) in err_edges for p in names) or any(n in succ[p] for p in names) for n in rets):
            pass
        else:
            # every way out is an error edge (status passed through): keep the graph as it is
            succ = {n: list(f.blocks[n].succ) for n in names}
            dead = set()
        # blocks that reach a return
        ok = {n for n in rets if n not in dead}
        ch = True
        while ch:
            ch = False
            for n in names:
                if n not in ok and any(s in ok for s in succ[n]):
                    ok.add(n)
                    ch = True
        idx = {n: i for i, n in enumerate(names)}
        full = (1 << len(names)) - 1
        pd = {n: full for n in ok}
        exits = [n for n in rets if n in ok]
        for n in exits:
            pd[n] = 1 << idx[n]
        rev = list(reversed([n for n in names if n in ok]))
        ch = True
        while ch:
            ch = False
            for n in rev:
                if n in exits:
                    continue
                m = full
                for s in succ[n]:
                    if s in ok:
                        m &= pd[s]
                m |= 1 << idx[n]
                if m != pd[n]:
                    pd[n] = m
                    ch = True
        f.ipdom = {}
        for n in ok:
            cands = [x for x in ok if x != n and pd[n] >> idx[x] & 1]
            # the nearest: the one that all other candidates postdominate
            best = None
            for x in cands:
                if all(pd[x] >> idx[y] & 1 for y in cands):
                    best = x
                    break
            f.ipdom[n] = best
        f.reach = {}

    def loops(self, f, b, stop):
        """can b be reached again from its successors without passing stop?"""
        k = (b.name, stop)
        r = f.reach.get(k)
        if r is None:
            seen = set()
            st = [s for s in b.succ if s != stop]
            r = False
            while st:
                n = st.pop()
                if n == b.name:
                    r = True
                    break
                if n in seen:
                    continue
                seen.add(n)
                st.extend(s for s in f.blocks[n].succ if s != stop)
            f.reach[k] = r
        return r

    # ---- instruction parsing
    def _instr(self, s, blk):
        toks = lex(s)
        # drop trailing metadata: `, !name !0`
        for k, (kind, v) in enumerate(toks):
            if kind == "meta" and k and toks[k - 1][1] == ",":
                toks = toks[:k - 1]
                break
        c = P(toks, self)
        dest = None
        if c.kind() == "loc" and c.t[1][1] == "=":
            dest = c.next()
            c.next()
        op = c.next()
        while op in ("tail", "musttail", "notail"):
            op = c.next()
        if op == "phi":
            while c.peek() in ("fast", "nnan", "ninf", "nsz"):
                c.next()
            t = c.type()
            inc = []
            while c.accept("["):
                v = c.value(t)
                c.expect(",")
                p = c.next()
                c.expect("]")
                inc.append((v, p))
                c.accept(",")
            blk.phis.append((dest, t, inc))
            return
        if op == "ret":
            if c.peek() == "void":
                blk.term = ("ret", ("void",), None)
            else:
                t, v = c.tv()
                blk.term = ("ret", t, v)
            return
        if op == "br":
            if c.accept("label"):
                blk.term = ("br", c.next())
            else:
                c.expect("i1")
                v = c.value(("i", 1))
                c.expect(",")
                c.expect("label")
                a = c.next()
                c.expect(",")
                c.expect("label")
                blk.term = ("cbr", v, a, c.next())
            return
        if op == "switch":
            t, v = c.tv()
            c.expect(",")
            c.expect("label")
            d = c.next()
            c.expect("[")
            cases = []
            while not c.accept("]"):
                ct, cv = c.tv()
                c.expect(",")
                c.expect("label")
                cases.append((cv[1], c.next()))
            blk.term = ("switch", v, d, cases)
            return
        if op == "unreachable":
            blk.term = ("unreachable",)
            return
        if op in _BINOPS or op in _FBIN:
            flags = set()
            while c.kind() == "word" and c.peek() in _FLAGS:
                flags.add(c.next())
            t, a = c.tv()
            c.expect(",")
            b = c.value(t)
            blk.ins.append((_x_bin, dest, (op, t, a, b, frozenset(flags))))
        elif op == "fneg":
            while c.peek() in _FLAGS:
                c.next()
            t, a = c.tv()
            blk.ins.append((_x_fneg, dest, (t, a)))
        elif op in ("icmp", "fcmp"):
            while c.peek() in _FLAGS:
                c.next()
            pred = c.next()
            t, a = c.tv()
            c.expect(",")
            b = c.value(t)
            blk.ins.append((_x_cmp, dest, (op, pred, t, a, b)))
        elif op in _CASTS:
            t, a = c.tv()
            c.expect("to")
            t2 = c.type()
            blk.ins.append((_x_cast, dest, (op, t, a, t2)))
        elif op == "select":
            while c.peek() in _FLAGS:
                c.next()
            ct, cv = c.tv()
            c.expect(",")
            t, a = c.tv()
            c.expect(",")
            _, b = c.tv()
            blk.ins.append((_x_select, dest, (ct, cv, t, a, b)))
        elif op == "load":
            while c.peek() in ("volatile", "atomic"):
                c.next()
            t = c.type()
            c.expect(",")
            _, p = c.tv()
            blk.ins.append((_x_load, dest, (t, p)))
        elif op == "store":
            while c.peek() in ("volatile", "atomic"):
                c.next()
            t, v = c.tv()
            c.expect(",")
            _, p = c.tv()
            blk.ins.append((_x_store, None, (t, v, p)))
        elif op == "getelementptr":
            c.accept("inbounds")
            bt = c.type()
            c.expect(",")
            _, p = c.tv()
            idx = []
            while c.accept(","):
                it, iv = c.tv()
                idx.append(iv)
            blk.ins.append((_x_gep, dest, (bt, p, idx)))
        elif op == "alloca":
            t = c.type()
            n = 1
            if c.accept(",") and c.peek() != "align":
                _, nv = c.tv()
                n = nv[1].p
            blk.ins.append((_x_alloca, dest, (t, n)))
        elif op == "extractvalue":
            t, a = c.tv()
            idx = []
            while c.accept(","):
                idx.append(int(c.next()))
            blk.ins.append((_x_extractvalue, dest, (a, idx)))
        elif op == "insertvalue":
            t, a = c.tv()
            c.expect(",")
            _, v = c.tv()
            idx = []
            while c.accept(","):
                idx.append(int(c.next()))
            blk.ins.append((_x_insertvalue, dest, (a, v, idx)))
        elif op == "extractelement":
            _, a = c.tv()
            c.expect(",")
            _, ix = c.tv()
            blk.ins.append((_x_extractelement, dest, (a, ix)))
        elif op == "insertelement":
            _, a = c.tv()
            c.expect(",")
            _, v = c.tv()
            c.expect(",")
            _, ix = c.tv()
            blk.ins.append((_x_insertelement, dest, (a, v, ix)))
        elif op == "shufflevector":
            _, a = c.tv()
            c.expect(",")
            _, b = c.tv()
            c.expect(",")
            mt, m = c.tv()
            blk.ins.append((_x_shuffle, dest, (a, b, mt, m)))
        elif op == "freeze":
            t, a = c.tv()
            blk.ins.append((_x_freeze, dest, (a,)))
        elif op == "fence":
            pass
        elif op == "call":
            while c.peek() in _FLAGS or c.peek() in ("fastcc", "coldcc", "ccc"):
                c.next()
            c.attrs()
            t = c.type()
            if t[0] == "p" and t[1][0] == "fn":
                t = t[1][1]
            if t[0] == "fn":
                t = t[1]
            callee = c.next()
            if callee == "bitcast":
                c.expect("(")
                c.type()
                callee = c.next()
                c.expect("to")
                c.type()
                c.expect(")")
            c.expect("(")
            args = []
            while not c.accept(")"):
                at = c.type()
                if at[0] == "meta":
                    d = 0
                    while c.peek() not in (",", ")") or d:
                        x = c.next()
                        d += (x == "(") - (x == ")")
                    c.accept(",")
                    continue
                c.attrs()
                args.append((at, c.value(at)))
                c.accept(",")
            blk.ins.append((_x_call, dest, (t, callee, args)))
        elif op in ("atomicrmw", "cmpxchg", "invoke", "landingpad", "resume"):
            blk.ins.append((_x_unsupported, dest, (op,)))
            if op in ("invoke", "resume"):
                blk.term = ("unreachable",)
        else:
            blk.ins.append((_x_unsupported, dest, (op,)))


_FLAGS = {"nuw", "nsw", "exact", "fast", "nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc"}
_BINOPS = {"add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "and", "or", "xor", "shl", "lshr", "ashr"}
_FBIN = {"fadd", "fsub", "fmul", "fdiv", "frem"}
_CASTS = {"trunc", "zext", "sext", "bitcast", "ptrtoint", "inttoptr", "uitofp", "sitofp", "fptoui", "fptosi", "fpext",
          "fptrunc", "addrspacecast"}


# --------------------------------------------------------------------------- execution
class Interp:
    MAXBLOCKS = 400000

    def __init__(self, mod):
        self.m = mod
        self.encoded = set()
        self.blocks = 0
        self.nalloc = 0

    def val(self, env, v):
        if v[0] == "c":
            return v[1]
        return env[v[1]]

    def call(self, name, args):
        f = self.m.func(name)
        if f is None:
            raise Unsupported(f"undefined function {name[:80]}")
        self.encoded.add(name)
        env = {p: a for (p, _), a in zip(f.params, args)}
        r = self.run(f, env, f.entry, None, None)
        return r[1]

    def run(self, f, env, blk, prev, stop):
        """executes from blk (entered from prev) to a return or to the entry of stop;
        ('ret', value) or ('stop', {phi dest: value}, ...)"""
        m = self.m
        pend = None  # phi values already known for blk (after a merge)
        while True:
            self.blocks += 1
            if self.blocks > self.MAXBLOCKS:
                raise Unsupported("too many blocks executed")
            if pend is not None:
                env.update(pend)
                pend = None
            elif blk.phis:
                env.update(self.phis(env, blk, prev))
            for fn, dest, d in blk.ins:
                r = fn(self, env, d)
                if dest is not None:
                    env[dest] = r
            t = blk.term
            k = t[0]
            if k == "ret":
                if stop is not None:
                    raise MergeAbort("return in arm")
                return ("ret", None if t[2] is None else self.val(env, t[2]))
            if k == "unreachable":
                raise Unsupported("unreachable executed")
            if k == "br":
                nxt = t[1]
            elif k == "cbr":
                c = self.val(env, t[1])
                if T.is_const(c):
                    nxt = t[2] if c.p else t[3]
                elif t[2] == t[3]:
                    nxt = t[2]
                else:
                    r = self.two(f, env, blk, [(c, t[2]), (T.not_(c), t[3])], stop)
                    if r[0] == "go":
                        nxt = r[1]
                    else:
                        if r[1] == stop:
                            return ("stop", r[2])
                        prev, blk, pend = None, f.blocks[r[1]], r[2]
                        continue
            elif k == "switch":
                c = self.val(env, t[1])
                nxt = None
                if T.is_const(c):
                    nxt = t[2]
                    for cv, tgt in t[3]:
                        if cv.p == c.p:
                            nxt = tgt
                            break
                else:
                    arms = {}
                    for cv, tgt in t[3]:
                        arms.setdefault(tgt, []).append(T.eq(c, cv))
                    lst = [(T.or_(*cs), tgt) for tgt, cs in arms.items() if tgt != t[2]]
                    d = T.and_(*[T.not_(T.eq(c, cv)) for cv, tgt in t[3] if tgt != t[2]])
                    r = self.two(f, env, blk, lst + [(d, t[2])], stop)
                    if r[0] == "go":
                        nxt = r[1]
                    else:
                        if r[1] == stop:
                            return ("stop", r[2])
                        prev, blk, pend = None, f.blocks[r[1]], r[2]
                        continue
            else:
                raise Unsupported(k)
            prev = blk.name
            if nxt == stop:
                return ("stop", self.phis(env, f.blocks[nxt], prev))
            blk = f.blocks[nxt]

    def phis(self, env, blk, prev):
        out = {}
        for d, t, inc in blk.phis:
            for v, p in inc:
                if p == prev:
                    out[d] = self.val(env, v)
                    break
            else:
                raise Unsupported("phi without the incoming edge")
        return out

    def two(self, f, env, blk, arms, stop):
        """arms: [(condition, target)], exclusive and complete"""
        arms = [(c, t) for c, t in arms if c is not T.FALSE]
        site = (f.name, blk.name)
        join = f.ipdom.get(blk.name)
        if CTX.merge and site not in CTX.blacklist and join is not None and not self.m.loops(f, blk, join):
            # drop arms that cannot be taken
            live = [(c, t) for c, t in arms if CTX.ps.feasible(CTX.conds() + [c])]
            if len(live) == 1:
                return ("go", live[0][1])
            depth = len(CTX.journals)
            arms_l = live
            results = []
            n0 = self.nalloc
            try:
                for c, tgt in arms_l:
                    j = MJournal()
                    CTX.journals.append(j)
                    CTX.arm_pc.append(c)
                    if tgt == join:
                        r = ("stop", self.phis(env, f.blocks[join], blk.name))
                    else:
                        r = self.run(f, dict(env), f.blocks[tgt], blk.name, join)
                    CTX.arm_pc.pop()
                    CTX.journals.pop()
                    results.append((c, r[1], j, j.take()))
                ph = results[-1][1]
                ph = dict(ph)
                for c, p, _, _ in reversed(results[:-1]):
                    ph = {d: merge(c, p[d], v, site) for d, v in ph.items()}
                keys = {}
                for _, _, j, _ in results:
                    keys.update(j.old)
                for key, (r, old) in keys.items():
                    vals = [new.get(key, old) if key in j.old else old for _, _, j, new in results]
                    if all(v is old for v in vals):
                        continue
                    v = vals[-1]
                    for (c, *_), x in zip(reversed(results[:-1]), reversed(vals[:-1])):
                        if x is v:
                            continue
                        if x is None or v is None:
                            if x is None and v is not None and r.unset is None:
                                # memory of one arm only (an allocation made there, or undefined before)
                                continue
                            if v is None and x is not None and r.unset is None:
                                v = x
                                continue
                            raise MergeAbort("cell written in one arm only")
                        v = merge(c, x, v, site)
                    _log(r, key[1])
                    r.cells[key[1]] = v
                return ("merged", join, ph)
            except MergeAbort as e:
                self._unwind(depth)
                if getattr(e, "site", None) is None:
                    e.site = site
                raise
            except (OutOfBounds, NativeError) as e:
                self._unwind(depth)
                x = MergeAbort(f"{type(e).__name__} in arm")
                x.site = site
                raise x
        for c, t in arms[:-1]:
            if CTX.branch(c):
                return ("go", t)
        return ("go", arms[-1][1])

    @staticmethod
    def _unwind(depth):
        del CTX.journals[depth:]
        del CTX.arm_pc[depth:]


def merge(c, x, y, site):
    if x is y:
        return x
    if isinstance(x, T.T) and isinstance(y, T.T) and x.w == y.w:
        return T.ite(c, x, y)
    if isinstance(x, list) and isinstance(y, list) and len(x) == len(y):
        return [merge(c, a, b, site) for a, b in zip(x, y)]
    if isinstance(x, Ptr) and isinstance(y, Ptr) and x.r is y.r:
        return Ptr(x.r, T.ite(c, x.off, y.off))
    e = MergeAbort("values of different kinds")
    e.site = site
    raise e


# ---- instruction semantics
def _lift(fn, *xs):
    if isinstance(xs[0], list):
        return [fn(*e) for e in zip(*xs)]
    return fn(*xs)


def _x_bin(self, env, d):
    op, t, a, b, flags = d
    x, y = self.val(env, a), self.val(env, b)
    if isinstance(x, Ptr) or isinstance(y, Ptr):
        if op == "add":
            return _padd(x, y)
        if op == "sub" and isinstance(x, Ptr):
            if isinstance(y, Ptr):
                if x.r is y.r:
                    return T.sub(x.off, y.off)
                raise Unsupported("difference of unrelated pointers")
            return Ptr(x.r, T.sub(x.off, y))
        if op == "and" and isinstance(x, Ptr) and T.is_const(x.off) and T.is_const(y) and x.r is not None:
            # alignment of a (suitably aligned) object
            if y.p < 64:
                return T.and_(x.off, y)
            return Ptr(x.r, T.and_(x.off, y))
        raise Unsupported(f"{op} on a pointer")
    if op in _FBIN:
        if op == "frem":
            raise Unsupported("frem")
        return _lift(lambda p, q: T.fop(op, p, q), x, y)
    return _lift(_BIN[op], x, y)


def _shift(fn):
    def g(x, y):
        return fn(x, y)
    return g


_BIN = {"add": T.add, "sub": T.sub, "mul": T.mul, "and": lambda a, b: T.and_(a, b), "or": lambda a, b: T.or_(a, b),
        "xor": lambda a, b: T.xor(a, b), "shl": T.shl, "lshr": T.lshr, "ashr": T.ashr, "udiv": T.udiv, "urem": T.urem,
        "sdiv": T.sdiv, "srem": T.srem}


def _x_fneg(self, env, d):
    t, a = d
    x = self.val(env, a)
    return _lift(lambda p: T.xor(p, T.const(1 << (p.w - 1), p.w)), x)


def _icmp(pred, x, y):
    if isinstance(x, Ptr) or isinstance(y, Ptr):
        if not isinstance(x, Ptr):
            x = Ptr(None, x)
        if not isinstance(y, Ptr):
            y = Ptr(None, y)
        if x.r is y.r:
            return _icmp(pred, x.off, y.off)
        if pred == "eq":
            return T.FALSE
        if pred == "ne":
            return T.TRUE
        if x.r is None or y.r is None:
            if x.r is None and not T.is_const(x.off) or y.r is None and not T.is_const(y.off):
                raise Unsupported("order of unrelated pointers")
        # separate objects lie apart, in the order they were created (one admissible layout)
        i, j = (x.r.id if x.r else 0), (y.r.id if y.r else 0)
        return T.TRUE if (pred[1:] in ("lt", "le")) == (i < j) else T.FALSE
    if pred == "eq":
        return T.eq(x, y)
    if pred == "ne":
        return T.ne(x, y)
    return {"ult": lambda: T.ult(x, y), "ule": lambda: T.ule(x, y), "ugt": lambda: T.ult(y, x),
            "uge": lambda: T.ule(y, x), "slt": lambda: T.slt(x, y), "sle": lambda: T.sle(x, y),
            "sgt": lambda: T.slt(y, x), "sge": lambda: T.sle(y, x)}[pred]()


def _isnan(x):
    return T.not_(T.fcmp("feq", x, x))


def _fcmp(pred, x, y):
    lt, le, eq = (lambda: T.fcmp("flt", x, y)), (lambda: T.fcmp("fle", x, y)), (lambda: T.fcmp("feq", x, y))
    gt, ge = (lambda: T.fcmp("flt", y, x)), (lambda: T.fcmp("fle", y, x))
    uno = lambda: T.or_(_isnan(x), _isnan(y))  # noqa: E731
    tab = {"oeq": eq, "olt": lt, "ole": le, "ogt": gt, "oge": ge, "uno": uno, "ord": lambda: T.not_(uno()),
           "one": lambda: T.or_(lt(), gt()), "ueq": lambda: T.or_(eq(), uno()), "une": lambda: T.not_(eq()),
           "ult": lambda: T.not_(ge()), "ule": lambda: T.not_(gt()), "ugt": lambda: T.not_(le()),
           "uge": lambda: T.not_(lt()), "true": lambda: T.TRUE, "false": lambda: T.FALSE}
    return tab[pred]()


def _x_cmp(self, env, d):
    op, pred, t, a, b = d
    x, y = self.val(env, a), self.val(env, b)
    return _lift((lambda p, q: _icmp(pred, p, q)) if op == "icmp" else (lambda p, q: _fcmp(pred, p, q)), x, y)


def _flat(v, t, m):
    """bits of a value, little endian, as one term"""
    if isinstance(v, list):
        return T.concat(*[_flat(x, None, m) for x in reversed(v)])
    if isinstance(v, Ptr):
        raise Unsupported("bits of a pointer")
    return v


def _unflat(term, t, m):
    if t[0] in ("i", "f"):
        return term
    n = t[1]
    w = m.bits(t[2])
    return [T.extract(term, w * i + w - 1, w * i) for i in range(n)]


def _x_cast(self, env, d):
    op, t, a, t2 = d
    x = self.val(env, a)
    m = self.m
    if op in ("bitcast", "addrspacecast", "inttoptr", "ptrtoint"):
        if t[0] == "p" or t2[0] == "p":
            if op == "inttoptr" and not isinstance(x, Ptr):
                return m._as_ptr(x)
            return x
        if t == t2:
            return x
        return _unflat(_flat(x, t, m), t2, m)
    e2 = t2[2] if t2[0] == "v" else t2
    w = e2[1]

    def one(v):
        if isinstance(v, Ptr):
            raise Unsupported(f"{op} of a pointer")
        if op == "trunc":
            return T.trunc(v, w)
        if op == "zext":
            return T.zext(v, w)
        if op == "sext":
            return T.sext(v, w)
        if op == "uitofp":
            return T.itof(v, w, False)
        if op == "sitofp":
            return T.itof(v, w, True)
        if op == "fptoui":
            return T.ftoi(v, w, False)
        if op == "fptosi":
            return T.ftoi(v, w, True)
        return T.ftof(v, w)

    return _lift(one, x)


def _x_select(self, env, d):
    ct, cv, t, a, b = d
    c, x, y = self.val(env, cv), self.val(env, a), self.val(env, b)
    if isinstance(c, list):
        return [T.ite(k, p, q) for k, p, q in zip(c, x, y)]
    if T.is_const(c):
        return x if c.p else y
    try:
        return merge(c, x, y, None)
    except MergeAbort:
        return x if CTX.branch(c) else y


def _resolve(self, p, n):
    """(region, concrete offset) or (region, None, [candidate offsets])"""
    if not isinstance(p, Ptr):
        p = Ptr(None, p)
    if p.r is None:
        raise Unsupported("access through an integer address")
    return p.r, p.off


def _cands(self, r, off, n):
    """offsets at which the symbolic offset may point, inside the region"""
    lo, hi = T.urange(off)
    z, o = T.known(off)
    step = 1
    while step < 64 and (z | o) & step:
        step *= 2
    first = lo
    base = o & (step - 1)
    first = lo + ((base - lo) % step)
    stride = _stride(off)
    inside = []
    x = first
    lim = min(hi, r.size - n)
    while x <= lim:
        inside.append(x)
        x += step
    if stride:
        b, s = stride
        inside = [x for x in inside if (x - b) % s == 0]
    if len(inside) > 4096:
        raise Unsupported("symbolic address over too many cells")
    oob = T.TRUE if not inside else T.ult(T.const(r.size - n, 64), off)
    if oob is not T.FALSE and CTX.branch(oob):
        raise OutOfBounds(f"access at a symbolic offset of {r.name}")
    return inside


def _stride(off):
    """off = b + s*k for constants b, s"""
    if off.op == "lin":
        c, coefs = off.p
        g = 0
        import math
        for k in coefs:
            k2 = k if k < (1 << 63) else (1 << 64) - k
            g = math.gcd(g, k2)
        if g > 1:
            return c % (1 << 64), g
    return None


def _x_load(self, env, d):
    t, p = d
    r, off = _resolve(self, self.val(env, p), 0)
    m = self.m
    if T.is_const(off):
        return m.load_typed(r, T.sval(off), t)
    n = m.size(t)
    cs = _cands(self, r, off, n)
    vals = []
    for o in cs:
        v = m.load_typed(r, o, t)
        if isinstance(v, Ptr):
            raise Unsupported("pointer at a symbolic address")
        vals.append(v)
    if not cs:
        raise OutOfBounds("no feasible address")
    return _select(off, cs, vals)


def _select(off, cs, vals):
    if isinstance(vals[0], list):
        return [_select(off, cs, [v[k] for v in vals]) for k in range(len(vals[0]))]
    if len(cs) > 2:
        st = cs[1] - cs[0]
        if st & (st - 1) == 0 and cs[0] == 0 and all(b - a == st for a, b in zip(cs, cs[1:])):
            sh = st.bit_length() - 1
            idx = T.extract(off, min(63, sh + (len(cs) - 1).bit_length() - 1), sh)
            return T.lookup(vals, idx, vals[0].w)
    r = vals[-1]
    for o, v in zip(reversed(cs[:-1]), reversed(vals[:-1])):
        r = T.ite(T.eq(off, T.const(o, 64)), v, r)
    return r


def _x_store(self, env, d):
    t, v, p = d
    val = self.val(env, v)
    r, off = _resolve(self, self.val(env, p), 0)
    m = self.m
    if T.is_const(off):
        m.store_typed(r, T.sval(off), t, val)
        return None
    if t[0] not in ("i", "f"):
        raise Unsupported("aggregate store at a symbolic address")
    n = m.size(t)
    for o in _cands(self, r, off, n):
        old = m.load_typed(r, o, t)
        mem_store(r, o, T.ite(T.eq(off, T.const(o, 64)), val, old))
    return None


def _x_gep(self, env, d):
    bt, p, idx = d
    return self.m.gep(bt, self.val(env, p), [self.val(env, i) for i in idx])


def _x_alloca(self, env, d):
    t, n = d
    self.nalloc += 1
    r = Region(f"stack{self.nalloc}", self.m.size(t) * n)
    return Ptr(r, T.const(0, 64))


def _x_extractvalue(self, env, d):
    a, idx = d
    v = self.val(env, a)
    for i in idx:
        v = v[i]
    return v


def _ins(v, idx, x):
    v = list(v)
    v[idx[0]] = x if len(idx) == 1 else _ins(v[idx[0]], idx[1:], x)
    return v


def _x_insertvalue(self, env, d):
    a, v, idx = d
    return _ins(self.val(env, a), idx, self.val(env, v))


def _x_extractelement(self, env, d):
    a, ix = d
    v, i = self.val(env, a), self.val(env, ix)
    if T.is_const(i):
        return v[i.p]
    return T.lookup(v, i, v[0].w)


def _x_insertelement(self, env, d):
    a, x, ix = d
    v, i = self.val(env, a), self.val(env, ix)
    if not T.is_const(i):
        raise Unsupported("insertelement at a symbolic index")
    return _ins(v, [i.p], self.val(env, x))


def _x_shuffle(self, env, d):
    a, b, mt, mk = d
    x, y, m = self.val(env, a), self.val(env, b), self.val(env, mk)
    both = list(x) + list(y)
    return [both[i.p] for i in m]


def _x_freeze(self, env, d):
    return self.val(env, d[0])


def _x_unsupported(self, env, d):
    raise Unsupported(f"LLVM instruction {d[0]}")


def _x_call(self, env, d):
    t, callee, args = d
    xs = [self.val(env, v) for _, v in args]
    name = callee.strip('@"')
    st = _stub(name)
    if st is not None:
        return st(self, name, xs, t)
    if callee.startswith("%"):
        raise Unsupported("indirect call")
    if callee in self.m.ftext:
        return self.call(callee, xs)
    raise Unsupported(f"call of external {name[:80]}")


# ---- runtime and intrinsics
def _c(x, what="size"):
    if isinstance(x, T.T) and T.is_const(x):
        return x.p
    if isinstance(x, T.T):
        return CTX.concretise(x)
    raise Unsupported(f"symbolic {what}")


def _nop(self, name, xs, t):
    return None


def _alloc(self, name, xs, t):
    n = _c(xs[0])
    self.nalloc += 1
    mi = Region(f"meminfo{self.nalloc}", 64)
    data = Region(f"heap{self.nalloc}", max(n, 1))
    mi.cells[0] = T.const(1, 64)
    mi.cells[24] = Ptr(data, T.const(0, 64))
    mi.cells[32] = T.const(n, 64)
    return Ptr(mi, T.const(0, 64))


def _rawalloc(self, name, xs, t):
    self.nalloc += 1
    return Ptr(Region(f"raw{self.nalloc}", max(1, _c(xs[0]))), T.const(0, 64))


def _memset(self, name, xs, t):
    p, b, n = xs[0], xs[1], _c(xs[2])
    o = _c(p.off)
    for i in range(n):
        mem_store(p.r, o + i, b)


def _memcpy(self, name, xs, t):
    d, s, n = xs[0], xs[1], _c(xs[2])
    do, so = _c(d.off), _c(s.off)
    if n == 0:
        return
    items = []
    i = 0
    while i < n:
        c = s.r.cells.get(so + i)
        if c is not None and _vbytes(c) <= n - i:
            items.append((i, c))
            i += _vbytes(c)
        else:
            items.append((i, mem_load(s.r, so + i, 1, False)))
            i += 1
    for i, v in items:
        mem_store(d.r, do + i, v)


def _memcmp(self, name, xs, t):
    a, b, n = xs[0], xs[1], _c(xs[2])
    ao, bo = _c(a.off), _c(b.off)
    r = T.const(0, 32)
    for i in reversed(range(n)):
        x, y = mem_load(a.r, ao + i, 1, False), mem_load(b.r, bo + i, 1, False)
        r = T.ite(T.eq(x, y), r, T.ite(T.ult(x, y), T.const(-1, 32), T.const(1, 32)))
    return r


def _minmax(self, name, xs, t):
    k = name.split(".")[1]

    def one(a, b):
        c = {"umin": T.ult, "smin": T.slt}.get(k)
        if c:
            return T.ite(c(a, b), a, b)
        c = {"umax": T.ult, "smax": T.slt}[k]
        return T.ite(c(a, b), b, a)

    return _lift(one, xs[0], xs[1])


def _absi(self, name, xs, t):
    return _lift(lambda a: T.ite(T.slt(a, T.const(0, a.w)), T.neg(a), a), xs[0])


def _fsh(self, name, xs, t):
    left = "fshl" in name

    def one(a, b, s):
        w = a.w
        s = T.urem(s, T.const(w, w))
        inv = T.sub(T.const(w, w), s)
        if left:
            return T.or_(T.shl(a, s), T.lshr(b, inv))
        return T.or_(T.lshr(b, s), T.shl(a, inv))

    return _lift(one, *xs)


def _bswap(self, name, xs, t):
    def one(a):
        return T.concat(*[T.extract(a, 8 * i + 7, 8 * i) for i in range(a.w // 8)])
    return _lift(one, xs[0])


def _ctpop(self, name, xs, t):
    def one(a):
        r = T.const(0, a.w)
        for i in range(a.w):
            r = T.add(r, T.zext(T.extract(a, i, i), a.w))
        return r
    return _lift(one, xs[0])


def _ctlz(self, name, xs, t):
    def one(a):
        w = a.w
        r = T.const(w, w)
        rng = range(w) if "ctlz" in name else reversed(range(w))
        for i in rng:
            r = T.ite(T.extract(a, i, i), T.const(w - 1 - i if "ctlz" in name else i, w), r)
        return r
    return _lift(one, xs[0])


def _overflow(self, name, xs, t):
    a, b = xs[0], xs[1]
    w = a.w
    k = name.split(".")[1]
    ext = T.zext if k[0] == "u" else T.sext
    op = {"add": T.add, "sub": T.sub, "mul": T.mul}[k[1:]]
    full = op(ext(a, 2 * w), ext(b, 2 * w))
    low = T.trunc(full, w)
    return [low, T.ne(ext(low, 2 * w), full)]


def _satur(self, name, xs, t):
    k = name.split(".")[1]
    a, b = xs
    if k == "usub":
        return _lift(lambda p, q: T.ite(T.ult(p, q), T.const(0, p.w), T.sub(p, q)), a, b)
    if k == "uadd":
        return _lift(lambda p, q: T.ite(T.ult(T.add(p, q), p), T.const(-1, p.w), T.add(p, q)), a, b)
    raise Unsupported(name)


def _fabs(self, name, xs, t):
    return _lift(lambda a: T.and_(a, T.const(T.mask(a.w - 1), a.w)), xs[0])


# ---- numba's typed list: the header of numba/cext/listobject.h, with room for LIST_CAP bytes of items
LIST_CAP = 1 << 16


def _lcell(lp, off):
    return mem_load(lp.r, _c(lp.off) + off, 8, False)


def _list_new(self, name, xs, t):
    self.nalloc += 1
    lp = Region(f"list{self.nalloc}", 72)
    z = T.const(0, 64)
    for off, v in ((0, z), (8, xs[1]), (16, xs[2]), (24, T.const(1, 32)), (64, Ptr(Region(f"items{self.nalloc}", LIST_CAP), z))):
        mem_store(lp, off, v)
    mem_store(xs[0].r, _c(xs[0].off), Ptr(lp, z))
    return T.const(0, 32)


def _list_len(self, name, xs, t):
    return _lcell(xs[0], 0)


def _list_addr(self, name, xs, t):
    return xs[0]


def _list_mutable(self, name, xs, t):
    return mem_load(xs[0].r, _c(xs[0].off) + 24, 4, False)


def _list_set_mutable(self, name, xs, t):
    mem_store(xs[0].r, _c(xs[0].off) + 24, xs[1])


def _list_base(self, name, xs, t):
    return mem_load(xs[0].r, _c(xs[0].off) + 64, 8, True)


def _list_copy(self, lp, i, item, put):
    n = _c(_lcell(lp, 8))
    if (i + 1) * n > LIST_CAP:
        raise Unsupported("long typed list")
    base = _list_base(self, None, [lp], None)
    p = Ptr(base.r, T.add(base.off, T.const(i * n, 64)))
    _memcpy(self, None, [p, item, T.const(n, 64)] if put else [item, p, T.const(n, 64)], None)


def _list_append(self, name, xs, t):
    n = _c(_lcell(xs[0], 0))
    _list_copy(self, xs[0], n, xs[1], True)
    mem_store(xs[0].r, _c(xs[0].off), T.const(n + 1, 64))
    return T.const(0, 32)


def _list_item(self, name, xs, t):
    i, n = _c(xs[1]), _c(_lcell(xs[0], 0))
    if i >= n:
        return T.const(-1, 32)
    _list_copy(self, xs[0], i, xs[2], name.endswith("setitem"))
    return T.const(0, 32)


_STUBS = {
    "numba_list_new": _list_new, "numba_list_set_method_table": _nop, "numba_list_free": _nop, "numba_list_length": _list_len,
    "numba_list_size_address": _list_addr, "numba_list_is_mutable": _list_mutable, "numba_list_set_is_mutable": _list_set_mutable,
    "numba_list_append": _list_append, "numba_list_base_ptr": _list_base, "numba_list_getitem": _list_item,
    "numba_list_setitem": _list_item,
    "NRT_incref": _nop, "NRT_decref": _nop, "NRT_MemInfo_call_dtor": _nop, "NRT_Free": _nop,
    "NRT_MemInfo_alloc_dtor": _alloc, "NRT_MemInfo_alloc_dtor_safe": _alloc, "NRT_MemInfo_alloc_safe": _alloc,
    "NRT_MemInfo_alloc": _alloc, "NRT_MemInfo_alloc_aligned": _alloc, "NRT_MemInfo_alloc_safe_aligned": _alloc,
    "NRT_Allocate": _rawalloc, "memcmp": _memcmp, "memcpy": _memcpy, "numba_gil_ensure": _nop, "numba_gil_release": _nop,
}
_PRE = [("llvm.memset.", _memset), ("llvm.memcpy.", _memcpy), ("llvm.memmove.", _memcpy), ("llvm.umin.", _minmax),
        ("llvm.umax.", _minmax), ("llvm.smin.", _minmax), ("llvm.smax.", _minmax), ("llvm.abs.", _absi),
        ("llvm.fshl.", _fsh), ("llvm.fshr.", _fsh), ("llvm.bswap.", _bswap), ("llvm.ctpop.", _ctpop),
        ("llvm.ctlz.", _ctlz), ("llvm.cttz.", _ctlz), ("llvm.lifetime", _nop), ("llvm.assume", _nop),
        ("llvm.experimental.noalias", _nop), ("llvm.dbg", _nop), ("llvm.usub.sat", _satur), ("llvm.uadd.sat", _satur),
        ("llvm.fabs.", _fabs)]


def _stub(name):
    s = _STUBS.get(name)
    if s is not None:
        return s
    if name.startswith("llvm."):
        if ".with.overflow." in name:
            return _overflow
        for p, f in _PRE:
            if name.startswith(p):
                return f
        raise Unsupported(f"intrinsic {name}")
    return None


# --------------------------------------------------------------------------- entry
def run_array_harness(mod, entry, inp_terms, nout):
    """calls the native `void h(uint64[::1], uint64[::1])`; returns the out cells (64-bit terms)"""
    it = Interp(mod)

    def arr(name, n):
        r = Region(name, 8 * n)
        return r

    ri, ro = arr("inp", len(inp_terms)), arr("out", nout)
    for i, t in enumerate(inp_terms):
        ri.cells[8 * i] = t
    for i in range(nout):
        ro.cells[8 * i] = T.const(0, 64)
    rr, re_ = Region("retptr", 8), Region("excinfo", 8)
    z = T.const(0, 64)

    def flat(r, n):
        mi = Region(r.name + ".meminfo", 64)
        mi.cells[24] = Ptr(r, z)
        return [Ptr(mi, z), NULL, T.const(n, 64), T.const(8, 64), Ptr(r, z), T.const(n, 64), T.const(8, 64)]

    args = [Ptr(rr, z), Ptr(re_, z)] + flat(ri, len(inp_terms)) + flat(ro, nout)
    st = it.call(entry, args)
    if not T.is_const(st):
        st = T.const(CTX.concretise(st), 32)
    run_array_harness.encoded = it.encoded
    if st.p not in (0, T.mask(32) - 1):
        raise NativeError(_excname(mod, re_))
    return [mod.load_typed(ro, 8 * i, ("i", 64)) for i in range(nout)]


def _excname(mod, r):
    """class name of the raised exception, read from the pickled constant"""
    try:
        p = r.cells.get(0)
        while isinstance(p, Ptr):
            q = p.r.cells.get(0)
            if isinstance(q, Ptr):
                p = q
                continue
            n = p.r.size
            b = bytes(p.r.cells[i].p for i in range(n))
            m = re.search(rb"([A-Z]\w*(?:Error|Exception|Interrupt|Iteration))", b)
            return m.group(1).decode() if m else "unknown"
    except Exception:  # noqa: BLE001
        pass
    return "unknown"
