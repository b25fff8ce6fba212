"""A FlatBuffer encoder written from the format's description, and a buffer of symbolic bytes the flatbuffers library
can read from.

Layout of a table: a signed 32-bit distance back to its vtable, then the fields; the vtable holds its own size, the
size of the table and one 16-bit offset per field, 0 where the field is absent.  Vectors are a 32-bit length and the
elements; tables, vectors and strings are referred to by unsigned 32-bit distances.

A field is (slot, kind, value[, present]); kinds u8..u64, i8..i64 (value: bits), f32, f64 (value: bits), tab (value: list
of fields), vec (value: list of such lists, third element of the pair: length), str (value: list of bytes).
Values, presence flags and lengths are numpy integers and may be symbolic; the places of things are concrete."""
import struct

import flatbuffers
from flatbuffers import encode, table

SIZE = {"8": 1, "16": 2, "32": 4, "64": 8}
_get, _tget = encode.Get, table.Table.Get


class Vec:
    def __init__(self, elements, length=None):
        self.elements, self.length = elements, length


class Enc:
    def __init__(self, np, shared=False, backwards=False, cut=None):
        # shared: vtables behind the tables (their distance is negative); backwards: fields stored in reverse order
        # cut: number of fields of the root's vtable (trailing fields are absent because the vtable is shorter)
        self.np, self.shared, self.backwards, self.cut = np, shared, backwards, cut
        self.b = []

    def alloc(self, n, align=4):
        while len(self.b) % align:
            self.b.append(0xAA)          # padding is no data
        p = len(self.b)
        self.b.extend([0xAA] * n)
        return p

    def put(self, p, n, v):
        np = self.np
        if isinstance(v, int):
            v &= (1 << 8 * n) - 1
            for k in range(n):
                self.b[p + k] = v >> 8 * k & 255
            return
        v = np.uint64(v)
        for k in range(n):
            self.b[p + k] = (v >> np.uint64(8 * k)) & np.uint64(255)

    def table(self, fields, cut=None):
        nslots = max([f[0] for f in fields], default=-1) + 1
        vt = None if self.shared else self.alloc(4 + 2 * nslots, 2)
        place, off = {}, 4
        for f in (reversed(fields) if self.backwards else fields):
            n = SIZE[f[1][1:]] if f[1][1:] in SIZE else 4
            off += -off % n
            place[f[0]] = off
            off += n
        pos = self.alloc(off, 8)
        if vt is None:
            vt = self.alloc(4 + 2 * nslots, 2)
        self.put(pos, 4, pos - vt)
        size = 4 + 2 * nslots
        self.put(vt, 2, size if cut is None else self.np.uint64(4) + self.np.uint64(2) * self.np.uint64(cut))
        self.put(vt + 2, 2, off)
        for i in range(nslots):
            self.put(vt + 4 + 2 * i, 2, 0)
        for f in fields:
            slot, kind, val = f[:3]
            o = place[slot]
            present = f[3] if len(f) > 3 else None
            self.put(vt + 4 + 2 * slot, 2, o if present is None else self.np.uint64(present) * self.np.uint64(o))
            if kind[1:] in SIZE:
                self.put(pos + o, SIZE[kind[1:]], val)
                continue
            if kind == "tab":
                t = self.table(val)
            elif kind == "vec":
                t = self.alloc(4 + 4 * len(val.elements))
                self.put(t, 4, len(val.elements) if val.length is None else val.length)
                for k, e in enumerate(val.elements):
                    p = self.table(e)
                    self.put(t + 4 + 4 * k, 4, p - (t + 4 + 4 * k))
            elif kind == "str":
                t = self.alloc(4 + len(val.elements) + 1)
                self.put(t, 4, len(val.elements) if val.length is None else val.length)
                for k, e in enumerate(val.elements):
                    self.put(t + 4 + k, 1, e)
                self.put(t + 4 + len(val.elements), 1, 0)
            else:
                raise ValueError(kind)
            self.put(pos + o, 4, t - (pos + o))
        return pos

    def root(self, fields):
        p = self.alloc(4)
        pos = self.table(fields, self.cut)
        self.put(p, 4, pos - p)
        return self.finish(), pos

    def finish(self):
        from checks import fsmodel
        if fsmodel.symbolic(self.np):
            return Buf(self.b)
        return bytearray(int(x) for x in self.b)


class Buf:
    """bytes some of which are symbolic"""

    def __init__(self, b):
        from vlib import symnp as S, terms as T
        self.t = [T.const(x, 8) if isinstance(x, int) else T.trunc(S.as_scalar(x)[1], 8) for x in b]

    def __len__(self):
        return len(self.t)

    def __getitem__(self, i):
        from vlib import symnp as S, terms as T
        if isinstance(i, slice):
            r = object.__new__(type(self))
            lo, hi, st = [None if x is None else x.__index__() for x in (i.start, i.stop, i.step)]
            r.t = self.t[lo:hi:st]
            return r
        return S.mkint(T.zext(self.t[i.__index__()], 9))

    def __iter__(self):
        return iter([self[i] for i in range(len(self))])

    def decode(self, encoding="utf-8", errors="strict"):
        from vlib import symnp as S, terms as T
        from vlib.ctx import CTX, Unsupported
        enc = str(encoding).lower().replace("-", "").replace("_", "")
        if enc not in ("utf8", "ascii", "latin1") or errors != "strict":
            raise Unsupported("decode " + enc)
        out, i = [], 0
        while i < len(self.t):
            a = self.t[i]
            if enc == "latin1" or CTX.branch(T.ult(a, T.const(0x80, 8))):
                out.append(S.SymChar(T.zext(a, 21)))
                i += 1
                continue
            if enc == "ascii":
                raise UnicodeDecodeError("ascii", b"", i, i + 1, "ordinal not in range")
            if not CTX.branch(T.and_(T.ule(T.const(0xC2, 8), a), T.ult(a, T.const(0xE0, 8)))):
                raise Unsupported("more than two bytes per character")
            if i + 1 == len(self.t) or not CTX.branch(T.eq(T.extract(self.t[i + 1], 7, 6), T.const(2, 2))):
                raise UnicodeDecodeError("utf-8", b"", i, i + 1, "invalid continuation byte")
            out.append(S.SymChar(T.zext(T.concat(T.extract(a, 4, 0), T.extract(self.t[i + 1], 5, 0)), 21)))
            i += 2
        return S.SymStr(out)

    def __bytes__(self):
        from vlib.ctx import Unsupported
        raise Unsupported("bytes of a symbolic buffer")


def model_get(packer, buf, head):
    if not isinstance(buf, Buf):
        return _get(packer, buf, head)
    from vlib import symnp as S, terms as T
    head = head.__index__()
    n, c = packer.size, packer.format[-1]
    if head < 0 or head + n > len(buf.t):
        raise struct.error("buffer too small")
    t = T.concat(*reversed(buf.t[head:head + n])) if n > 1 else buf.t[head]
    if c in "fd":
        return S.py_value(S.mk("float64", T.ftof(t, 64)))
    if c == "?":
        return S.mkbool(T.ne(t, T.const(0, t.w)))
    return S.mkint(t if c in "bhiq" else T.zext(t, t.w + 1))


def _model_table_get(self, flags, off):
    if not isinstance(self.Bytes, Buf):
        return _tget(self, flags, off)
    flatbuffers.number_types.enforce_number(off, flatbuffers.number_types.UOffsetTFlags)
    return model_get(flags.packer_type, self.Bytes, off)


encode.Get = model_get
table.Table.Get = _model_table_get


def bits(np, x, w):
    """the bits of a float that was stored with w bits"""
    from checks import fsmodel
    if fsmodel.symbolic(np):
        from vlib import symnp as S, terms as T
        n, t = S.as_scalar(x)
        if not n.startswith("float"):
            return np.uint64(0xDEADBEEF)
        return S.mk("uint64", T.zext(T.ftof(t, w), 64))
    if isinstance(x, bool) or not isinstance(x, (float, np.floating)):
        return np.uint64(0xDEADBEEF)
    return np.uint64(struct.unpack("<I" if w == 32 else "<Q", struct.pack("<f" if w == 32 else "<d", x))[0])


def word(x):
    """a field as two words: 0 absent, 1 integer, 2 truth value"""
    if x is None:
        return [0, 0]
    if isinstance(x, bool) or type(x).__name__ in ("bool", "bool_"):
        return [2, x]
    return [1, x & 0xFFFFFFFFFFFFFFFF]
