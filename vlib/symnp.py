"""A stand-in for numpy whose scalars and arrays hold terms.

Scalar promotion is asked of the real numpy (np.result_type on dtypes), so the rules are those of
the numpy the repository runs with.  Anything not modelled falls through to real numpy with
concrete arguments."""
import types

import numpy as rnp

from . import terms as T
from .ctx import CTX, Unsupported, MergeAbort

_ORDER = ("bool", "uint8", "uint16", "uint32", "uint64", "int8", "int16", "int32", "int64", "float32", "float64")
_W = {"bool": 1, "uint8": 8, "uint16": 16, "uint32": 32, "uint64": 64, "int8": 8, "int16": 16, "int32": 32,
      "int64": 64, "float32": 32, "float64": 64}
_promo = {}


def promote(a, b):
    r = _promo.get((a, b))
    if r is None:
        r = rnp.promote_types(rnp.dtype(a), rnp.dtype(b)).name
        _promo[(a, b)] = r
    return r


def kind(n):
    return "b" if n == "bool" else ("u" if n[0] == "u" else ("i" if n[0] == "i" else "f"))


def cast_term(t, src, dst):
    """numpy 'unsafe' cast between scalar kinds"""
    if src == dst:
        return t
    ks, kd = kind(src), kind(dst)
    w = _W[dst]
    if kd == "b":
        if ks == "f":
            return T.not_(T.fcmp("feq", t, T.f2b(0.0, t.w)))
        return T.ne(t, T.const(0, t.w))
    if ks == "f":
        if kd == "f":
            return T.ftof(t, w)
        if dst == "uint64":
            return T.ftoi(t, 64, False)
        return T.trunc(T.ftoi(t, 64, True), w)
    if kd == "f":
        return T.itof(t, w, ks == "i")
    return T.resize(t, w, ks == "i")


# ----------------------------------------------------------------- python ints
class SymPyInt:
    """an exact (unbounded) python int: signed bit-vector wide enough for its value"""

    __slots__ = ("t",)
    __array_priority__ = 1000

    def __init__(self, t):
        self.t = t

    @staticmethod
    def unsigned(t):
        return mkint(T.zext(t, t.w + 1))

    def __bool__(self):
        return CTX.branch(T.ne(self.t, T.const(0, self.t.w)))

    def __index__(self):
        return CTX.concretise(self.t, signed=True)

    __int__ = __index__

    def __hash__(self):
        return hash(self.__index__())

    def __repr__(self):
        return f"SymPyInt({T.show(self.t, 2)})"

    def __str__(self):
        return str(self.__index__())

    def __format__(self, spec):
        return format(self.__index__(), spec)

    def __neg__(self):
        return mkint(T.neg(T.sext(self.t, self.t.w + 1)))

    def __invert__(self):
        return mkint(T.not_(self.t))

    def __pos__(self):
        return self

    def bit_length(self):
        return int(self.__index__()).bit_length()

    def __abs__(self):
        return mkint(T.ite(T.slt(self.t, T.const(0, self.t.w)), (-self).tw(self.t.w + 1), T.sext(self.t, self.t.w + 1)))

    def tw(self, w):
        return T.sext(self.t, w) if w >= self.t.w else T.trunc(self.t, w)


def mkint(t):
    """signed term -> python int (concrete when constant)"""
    if T.is_const(t):
        return T.sval(t)
    z, _ = T.known(t)
    n = T.lzero(t)
    if n > 1:
        t = T.extract(t, t.w - n, 0)
    elif t.op == "sext":
        t = t.args[0]
    return SymPyInt(t)


def _int_term(v):
    """signed term for a python int or SymPyInt"""
    if isinstance(v, SymPyInt):
        return v.t
    v = int(v)
    return T.const(v, v.bit_length() + 1)


def _int_bin(op, a, b):
    x, y = _int_term(a), _int_term(b)
    w = max(x.w, y.w)
    if op in ("add", "sub"):
        w += 1
        x, y = T.sext(x, w), T.sext(y, w)
        return mkint(T.add(x, y) if op == "add" else T.sub(x, y))
    if op == "mul":
        w = x.w + y.w
        return mkint(T.mul(T.sext(x, w), T.sext(y, w)))
    if op in ("and", "or", "xor"):
        x, y = T.sext(x, w), T.sext(y, w)
        return mkint({"and": T.and_, "or": T.or_, "xor": T.xor}[op](x, y))
    if op in ("floordiv", "mod"):
        if CTX.branch(T.eq(y, T.const(0, y.w))):
            raise ZeroDivisionError("integer division or modulo by zero")
        w += 1
        x, y = T.sext(x, w), T.sext(y, w)
        return mkint(T.floordiv_s(x, y) if op == "floordiv" else T.floormod_s(x, y))
    if op in ("lshift", "rshift"):
        if CTX.branch(T.slt(y, T.const(0, y.w))):
            raise ValueError("negative shift count")
        if not T.is_const(y):
            hi = T.urange(y)[1]
            if op == "lshift":
                if hi > 128:
                    raise Unsupported("symbolic python shift")
                w = x.w + hi
                return mkint(T.shl(T.sext(x, w), T.resize(y, w)))
            w = max(x.w, y.w)
            return mkint(T.ashr(T.sext(x, w), T.resize(y, w)))
        n = y.p
        if op == "lshift":
            return mkint(T.shl_c(T.sext(x, x.w + n), n))
        return mkint(T.ashr_c(x, n))
    if op in ("eq", "ne", "lt", "le", "gt", "ge"):
        x, y = T.sext(x, w), T.sext(y, w)
        return mkbool({"eq": lambda: T.eq(x, y), "ne": lambda: T.ne(x, y), "lt": lambda: T.slt(x, y),
                       "le": lambda: T.sle(x, y), "gt": lambda: T.slt(y, x), "ge": lambda: T.sle(y, x)}[op]())
    if op == "truediv":
        return _bin("truediv", float64(a), float64(b))
    raise Unsupported("int " + op)


# ----------------------------------------------------------------- numpy scalars
class _Meta(type):
    def __instancecheck__(cls, obj):
        if type.__instancecheck__(cls, obj):
            return True
        r = getattr(cls, "real", None)
        return r is not None and isinstance(obj, r)


class generic(metaclass=_Meta):
    real = rnp.generic
    name = None

    def __init__(self):
        raise TypeError

    # value access -------------------------------------------------------
    @property
    def dtype(self):
        return rnp.dtype(self.name)

    @property
    def itemsize(self):
        return self.dtype.itemsize

    def item(self):
        return py_value(self)

    def __bool__(self):
        return CTX.branch(truth(self))

    def __index__(self):
        k = kind(self.name)
        if k == "f":
            raise TypeError("'%s' object cannot be interpreted as an integer" % self.name)
        return CTX.concretise(self.t, signed=(k == "i"))

    def __int__(self):
        if kind(self.name) == "f":
            if T.is_const(self.t):
                return int(T.b2f(self.t.p, self.t.w))
            raise Unsupported("int() of symbolic float")
        return self.__index__()

    def __float__(self):
        if T.is_const(self.t):
            return float(real_value(self))
        raise Unsupported("float() of a symbolic value")

    def __hash__(self):
        if kind(self.name) == "f":
            return hash(float(self))
        return hash(self.__index__())

    def __repr__(self):
        return f"{self.name}({T.show(self.t, 3)})"

    def __str__(self):
        return str(real_value(self)) if T.is_const(self.t) else str(self.__index__())

    def __format__(self, spec):
        return format(real_value(self) if T.is_const(self.t) else self.__index__(), spec)

    def astype(self, dt):
        return SCALARS[rnp.dtype(_dt(dt)).name](self)

    def __neg__(self):
        if kind(self.name) == "f":
            return mk(self.name, T.fop("fneg", self.t))
        if self.name == "bool":
            raise TypeError("The numpy boolean negative, the `-` operator, is not supported")
        return mk(self.name, T.neg(self.t))

    def __pos__(self):
        return self

    def __abs__(self):
        if kind(self.name) == "u" or self.name == "bool":
            return self
        if kind(self.name) == "i":
            return mk(self.name, T.ite(T.slt(self.t, T.const(0, self.t.w)), T.neg(self.t), self.t))
        w = self.t.w
        return mk(self.name, T.and_(self.t, T.const(T.mask(w - 1), w)))

    def __invert__(self):
        if kind(self.name) == "f":
            raise TypeError("ufunc 'invert' not supported for the input types")
        return mk(self.name, T.not_(self.t))


def mk(name, t):
    o = object.__new__(SCALARS[name])
    o.t = t
    return o


def mkbool(t):
    if T.is_const(t):
        return bool(t.p)
    return mk("bool", t)


def truth(v):
    """width-1 term: truth of any scalar (None when it is not a symbolic scalar)"""
    if isinstance(v, bool):
        return T.TRUE if v else T.FALSE
    if type(v) is SymPyInt:
        return T.ne(v.t, T.const(0, v.t.w))
    if type.__instancecheck__(generic, v):
        if v.name == "bool":
            return v.t
        if kind(v.name) == "f":
            return T.not_(T.fcmp("feq", v.t, T.f2b(0.0, v.t.w)))
        return T.ne(v.t, T.const(0, v.t.w))
    return None


def is_sym(v):
    """symbolic and not constant"""
    return (type(v) is SymPyInt or type.__instancecheck__(generic, v)) and not T.is_const(v.t)


def real_value(v):
    """real numpy scalar of a constant"""
    if not T.is_const(v.t):
        raise Unsupported("concrete value of a symbolic scalar needed")
    if v.name == "bool":
        return rnp.bool_(v.t.p)
    k = kind(v.name)
    if k == "f":
        return T.b2f(v.t.p, v.t.w)
    dt = rnp.dtype(v.name).type
    return dt(T.sval(v.t) if k == "i" else v.t.p)


def py_value(v):
    if v.name == "bool":
        return mkbool(v.t)
    k = kind(v.name)
    if k == "f":
        return v if not T.is_const(v.t) else float(real_value(v))
    return mkint(v.t if k == "i" else T.zext(v.t, v.t.w + 1))


def as_scalar(v):
    """(dtype name, term) of a scalar operand or None"""
    if type.__instancecheck__(generic, v):
        return v.name, v.t
    if isinstance(v, bool):
        return "bool", T.const(int(v), 1)
    if isinstance(v, int):
        v = int(v)
        if -(1 << 63) <= v < (1 << 63):
            return "int64", T.const(v, 64)
        if v < (1 << 64) and v > 0:
            return "uint64", T.const(v, 64)
        return None
    if type(v) is SymPyInt:
        if v.t.w <= 64:
            return "int64", T.sext(v.t, 64)
        if T.known(v.t)[0] >> (v.t.w - 1) & 1 and v.t.w == 65:
            raise Unsupported("python int that may exceed int64 mixed with numpy scalar")
        raise Unsupported("wide python int mixed with numpy scalar")
    if isinstance(v, float):
        return "float64", T.f2b(v, 64)
    if isinstance(v, rnp.generic) and v.dtype.names is None and v.dtype.kind in "buif":
        if v.dtype.kind == "b":
            return "bool", T.const(int(v), 1)
        if v.dtype.kind == "f":
            return v.dtype.name, T.const(int(v.view("u%d" % v.dtype.itemsize)), v.dtype.itemsize * 8)
        return v.dtype.name, T.const(int(v), v.dtype.itemsize * 8)
    if isinstance(v, rnp.ndarray) and v.ndim == 0:
        return as_scalar(v[()])
    return None


def apply_op(op, dt, x, y):
    """op on terms already cast to dtype dt; returns (dtype, term)"""
    k = kind(dt)
    w = _W[dt]
    if op in ("eq", "ne", "lt", "le", "gt", "ge"):
        if k == "f":
            r = {"eq": lambda: T.fcmp("feq", x, y), "ne": lambda: T.not_(T.fcmp("feq", x, y)),
                 "lt": lambda: T.fcmp("flt", x, y), "le": lambda: T.fcmp("fle", x, y),
                 "gt": lambda: T.fcmp("flt", y, x), "ge": lambda: T.fcmp("fle", y, x)}[op]()
        else:
            lt, le = (T.slt, T.sle) if k == "i" else (T.ult, T.ule)
            r = {"eq": lambda: T.eq(x, y), "ne": lambda: T.ne(x, y), "lt": lambda: lt(x, y), "le": lambda: le(x, y),
                 "gt": lambda: lt(y, x), "ge": lambda: le(y, x)}[op]()
        return "bool", r
    if k == "f":
        f = {"add": "fadd", "sub": "fsub", "mul": "fmul", "truediv": "fdiv"}.get(op)
        if f:
            return dt, T.fop(f, x, y)
        if op in ("and", "or", "xor", "lshift", "rshift"):
            raise TypeError(f"ufunc '{op}' not supported for the input types, and the inputs could not be safely "
                            "coerced to any supported types according to the casting rule ''safe''")
        if T.is_const(x) and T.is_const(y):
            a, b = T.b2f(x.p, w), T.b2f(y.p, w)
            with rnp.errstate(all="ignore"):
                r = {"floordiv": lambda: a // b, "mod": lambda: a % b, "pow": lambda: a ** b}[op]()
            return dt, T.f2b(r, w)
        raise Unsupported("float " + op)
    if dt == "bool":
        if op in ("and", "mul"):
            return dt, T.and_(x, y)
        if op in ("or", "add"):
            return dt, T.or_(x, y)
        if op == "xor":
            return dt, T.xor(x, y)
        if op == "sub":
            raise TypeError("numpy boolean subtract, the `-` operator, is not supported")
        # others go through int8
        return apply_op(op, "int8", T.zext(x, 8), T.zext(y, 8))
    if op == "add":
        return dt, T.add(x, y)
    if op == "sub":
        return dt, T.sub(x, y)
    if op == "mul":
        return dt, T.mul(x, y)
    if op == "and":
        return dt, T.and_(x, y)
    if op == "or":
        return dt, T.or_(x, y)
    if op == "xor":
        return dt, T.xor(x, y)
    if op in ("floordiv", "mod"):
        z = T.eq(y, T.const(0, w))
        if k == "u":
            r = T.udiv(x, y) if op == "floordiv" else T.urem(x, y)
        else:
            r = T.floordiv_s(x, y) if op == "floordiv" else T.floormod_s(x, y)
        return dt, T.ite(z, T.const(0, w), r)
    if op == "truediv":
        return apply_op("truediv", "float64", cast_term(x, dt, "float64"), cast_term(y, dt, "float64"))
    if op == "lshift":
        return dt, T.shl(x, y)
    if op == "rshift":
        if k == "u":
            return dt, T.lshr(x, y)
        return dt, T.ashr(x, y)
    if op == "pow":
        if T.is_const(y):
            n = T.sval(y) if k == "i" else y.p
            if n < 0:
                raise ValueError("Integers to negative integer powers are not allowed.")
            r = T.const(1, w)
            for _ in range(min(n, 64)):
                r = T.mul(r, x)
            if n <= 64:
                return dt, r
        raise Unsupported("symbolic power")
    raise Unsupported(op)


_RNPOP = {"add": rnp.add, "sub": rnp.subtract, "mul": rnp.multiply, "and": rnp.bitwise_and, "or": rnp.bitwise_or,
          "xor": rnp.bitwise_xor, "floordiv": rnp.floor_divide, "mod": rnp.remainder, "truediv": rnp.true_divide,
          "lshift": rnp.left_shift, "rshift": rnp.right_shift}


def _cmp_mixed(op, da, x, db, y):
    """exact comparison of mixed signed/unsigned 64-bit"""
    w = 66
    xx = T.resize(x, w, kind(da) == "i")
    yy = T.resize(y, w, kind(db) == "i")
    return mkbool_np({"eq": lambda: T.eq(xx, yy), "ne": lambda: T.ne(xx, yy), "lt": lambda: T.slt(xx, yy),
                      "le": lambda: T.sle(xx, yy), "gt": lambda: T.slt(yy, xx), "ge": lambda: T.sle(yy, xx)}[op]())


def mkbool_np(t):
    return mk("bool", t)


def _bin(op, a, b):
    """binary operator with at least one modelled scalar"""
    sa, sb = as_scalar(a), as_scalar(b)
    if sa is None or sb is None:
        # python int beyond 64 bits: comparisons are exact, arithmetic becomes object arithmetic
        if isinstance(a, (int, SymPyInt)) or isinstance(b, (int, SymPyInt)):
            pa = py_value(a) if type.__instancecheck__(generic, a) else a
            pb = py_value(b) if type.__instancecheck__(generic, b) else b
            if isinstance(pa, (int, SymPyInt)) and isinstance(pb, (int, SymPyInt)):
                return _pyop(op, pa, pb)
        return NotImplemented
    (da, x), (db, y) = sa, sb
    if op in ("eq", "ne", "lt", "le", "gt", "ge") and kind(da) in "ui" and kind(db) in "ui" and kind(da) != kind(db):
        return _cmp_mixed(op, da, x, db, y)
    dt = promote(da, db)
    if op == "truediv" and kind(dt) != "f":
        dt = "float64"
    if op in ("lshift", "rshift") and dt == "bool":
        dt = "int8"
    if op in ("and", "or", "xor", "lshift", "rshift") and kind(dt) == "f":
        apply_op(op, dt, None, None)
    r, t = apply_op(op, dt, cast_term(x, da, dt), cast_term(y, db, dt))
    return mk(r, t)


def _pyop(op, a, b):
    if isinstance(a, int) and isinstance(b, int):
        import operator as o

        return {"add": o.add, "sub": o.sub, "mul": o.mul, "and": o.and_, "or": o.or_, "xor": o.xor,
                "floordiv": o.floordiv, "mod": o.mod, "lshift": o.lshift, "rshift": o.rshift, "eq": o.eq, "ne": o.ne,
                "lt": o.lt, "le": o.le, "gt": o.gt, "ge": o.ge, "truediv": o.truediv}[op](a, b)
    return _int_bin(op, a, b)


_OPS = {"add": "add", "sub": "sub", "mul": "mul", "and": "and", "or": "or", "xor": "xor", "floordiv": "floordiv",
        "mod": "mod", "truediv": "truediv", "lshift": "lshift", "rshift": "rshift", "pow": "pow"}
_CMPS = {"eq": "eq", "ne": "ne", "lt": "gt", "le": "ge", "gt": "lt", "ge": "le"}


def _install(cls, fn):
    for n in _OPS:
        def f(self, other, n=n):
            return fn(n, self, other)

        def r(self, other, n=n):
            return fn(n, other, self)
        setattr(cls, f"__{n}__", f)
        setattr(cls, f"__r{n}__", r)
    for n in _CMPS:
        def c(self, other, n=n):
            res = fn(n, self, other)
            if res is NotImplemented and n in ("eq", "ne"):
                return n == "ne"
            return res
        setattr(cls, f"__{n}__", c)


def _scalar_op(op, a, b):
    if isinstance(a, ndarray) or isinstance(b, ndarray) or isinstance(a, rnp.ndarray) or isinstance(b, rnp.ndarray):
        if (isinstance(a, (ndarray,)) or isinstance(b, (ndarray,)) or
                (isinstance(a, rnp.ndarray) and a.ndim) or (isinstance(b, rnp.ndarray) and b.ndim)):
            return array_op(op, a, b)
    return _bin(op, a, b)


def _pyint_op(op, a, b):
    if isinstance(a, (int, SymPyInt)) and isinstance(b, (int, SymPyInt)):
        return _int_bin(op, a, b)
    if isinstance(a, float) or isinstance(b, float) or type.__instancecheck__(generic, a) or \
            type.__instancecheck__(generic, b) or isinstance(a, rnp.generic) or isinstance(b, rnp.generic):
        return _scalar_op(op, a, b)
    return NotImplemented


_install(generic, _scalar_op)
_install(SymPyInt, _pyint_op)

SCALARS = {}


def _make_scalar(name):
    real = rnp.dtype(name).type

    def __new__(cls, v=0, *rest):
        if isinstance(v, ndarray):
            return v.astype(cls) if v.ndim else cls(v[()])
        if isinstance(v, str):
            return real(v)
        if isinstance(v, SymChar):
            raise TypeError("invalid literal")
        if type(v) is SymPyInt:
            k = kind(name)
            if k == "f":
                return mk(name, T.itof(v.t, _W[name], True))
            if k == "b":
                return mk(name, T.ne(v.t, T.const(0, v.t.w)))
            return mk(name, v.tw(_W[name]))
        if isinstance(v, int) and not isinstance(v, bool):
            k = kind(name)
            if k in "ui":
                iv = int(v)
                if name.endswith("64") and not (-(1 << 63) <= iv < (1 << 64)):
                    raise OverflowError("Python int too large to convert to C long")
                return mk(name, T.const(iv, _W[name]))
            if k == "f":
                return mk(name, T.f2b(real(int(v)), _W[name]))
        s = as_scalar(v)
        if s is None:
            if isinstance(v, rnp.ndarray):
                return wrap_real(v.astype(real))
            if isinstance(v, (list, tuple)):
                return array(v, dtype=cls)
            return as_wrapped(real(v))
        return mk(name, cast_term(s[1], s[0], name))

    cls = _Meta(name, (generic,), {"__new__": __new__, "__init__": lambda self, *a: None, "real": real, "name": name,
                                   "__slots__": ("t",)})
    SCALARS[name] = cls
    return cls


class SymChar:
    """one character of a symbolic string"""

    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t  # unsigned code point

    def __eq__(self, o):
        if isinstance(o, SymChar):
            return mkbool(T.eq(self.t, o.t))
        if isinstance(o, str) and len(o) == 1:
            return mkbool(T.eq(self.t, T.const(ord(o), self.t.w)) if ord(o) >> self.t.w == 0 else T.FALSE)
        return False

    def __hash__(self):
        raise Unsupported("hash of a symbolic character")


class SymStr:
    def __init__(self, chars):
        self.chars = list(chars)

    def __iter__(self):
        return iter(self.chars)

    def __len__(self):
        return len(self.chars)

    def __getitem__(self, i):
        if isinstance(i, slice):
            return SymStr(self.chars[i])
        return self.chars[i]

    def encode(self, enc="utf-8", *a):
        if any(T.urange(c.t)[1] > 127 for c in self.chars):
            raise Unsupported("encode of non-ascii symbolic string")
        return [mkint(T.zext(c.t, c.t.w + 1)) for c in self.chars]

    def __add__(self, o):
        return SymStr(self.chars + (o.chars if isinstance(o, SymStr) else [SymChar(T.const(ord(c), 21)) for c in o]))

    def __radd__(self, o):
        return SymStr([SymChar(T.const(ord(c), 21)) for c in o] + self.chars)


class StrArray(rnp.ndarray):
    """constant array of strings; a symbolic index selects the characters"""

    def __getitem__(self, i):
        s = as_scalar(i) if not isinstance(i, (int, slice)) else None
        if s is not None and not T.is_const(s[1]) and T.urange(s[1])[1] < len(self):
            n = T.urange(s[1])[1] + 1
            vals = [str(x) for x in self.view(rnp.ndarray)[:n]]
            k = len(vals[0])
            if all(len(x) == k for x in vals):
                return SymStr([SymChar(T.lookup([T.const(ord(x[j]), 21) for x in vals], s[1], 21)) for j in range(k)])
        if s is not None:
            i = i.__index__()
        return super().__getitem__(i)


bool_ = _make_scalar("bool")
uint8 = _make_scalar("uint8")
uint16 = _make_scalar("uint16")
uint32 = _make_scalar("uint32")
uint64 = _make_scalar("uint64")
int8 = _make_scalar("int8")
int16 = _make_scalar("int16")
int32 = _make_scalar("int32")
int64 = _make_scalar("int64")
float32 = _make_scalar("float32")
float64 = _make_scalar("float64")


def _dt(d):
    """whatever the code passes as a dtype -> real dtype"""
    if isinstance(d, type) and d in _REV:
        return rnp.dtype(_REV[d])
    if isinstance(d, rnp.dtype):
        return d
    if d is None:
        return rnp.dtype("float64")
    if d is generic or isinstance(d, type) and issubclass(d, generic):
        return rnp.dtype(d.name)
    if isinstance(d, list):
        out = []
        for e in d:
            e = list(e)
            e[1] = _dt(e[1])
            out.append(tuple(e))
        return rnp.dtype(out)
    if hasattr(d, "dtype") and isinstance(d.dtype, rnp.dtype):
        return d.dtype
    return rnp.dtype(d)


_REV = {v: k for k, v in SCALARS.items()}


class _DtypeMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, rnp.dtype)

    def __call__(cls, *a, **k):
        return rnp.dtype(*( (_dt(a[0]),) + a[1:]), **k)


class dtype(metaclass=_DtypeMeta):
    pass


# ----------------------------------------------------------------- arrays
_layout = {}


def layout(dt):
    """(number of leaf cells, {field: (offset, dtype, shape)}, leaf dtype name or None)"""
    key = dt
    r = _layout.get(key)
    if r is None:
        if dt.subdtype is not None:
            base, shape = dt.subdtype
            n = 1
            for s in shape:
                n *= s
            r = (layout(base)[0] * n, None, None)
        elif dt.names:
            off = 0
            fields = {}
            for n in dt.names:
                fdt = dt.fields[n][0]
                base, shape = (fdt.subdtype if fdt.subdtype is not None else (fdt, ()))
                fields[n] = (off, base, tuple(shape))
                off += layout(fdt)[0]
            r = (off, fields, None)
        else:
            r = (1, None, dt.newbyteorder("=").name if dt.kind in "buif" else dt.str)
        _layout[key] = r
    return r


class Store:
    __slots__ = ("cells", "kinds")

    def __init__(self, cells):
        self.cells = cells

    def get(self, i):
        return self.cells[i]

    def set(self, i, v):
        if CTX.journals:
            CTX.journals[-1].cell(self, i)
        self.cells[i] = v


class SymBase:
    """offset selected by a symbolic index"""

    __slots__ = ("idx", "bases")

    def __init__(self, idx, bases):
        self.idx, self.bases = idx, bases


def read(store, base, off):
    if isinstance(base, int):
        return store.get(base + off)
    return T.lookup([read(store, b, off) for b in base.bases], base.idx, None)


def write(store, base, off, v, cond=T.TRUE):
    if isinstance(base, int):
        i = base + off
        store.set(i, v if cond is T.TRUE else T.ite(cond, v, store.get(i)))
        return
    for k, b in enumerate(base.bases):
        c = T.and_(cond, T.eq(base.idx, T.const(k, base.idx.w)))
        if c is not T.FALSE:
            write(store, b, off, v, c)


def shift(base, off):
    if isinstance(base, int):
        return base + off
    return SymBase(base.idx, [shift(b, off) for b in base.bases])


def dt_name(dt):
    return layout(dt)[2]


def leaf_dtypes(dt, out=None):
    out = [] if out is None else out
    if dt.subdtype is not None:
        base, shape = dt.subdtype
        n = 1
        for s in shape:
            n *= s
        for _ in range(n):
            leaf_dtypes(base, out)
    elif dt.names:
        for n in dt.names:
            leaf_dtypes(dt.fields[n][0], out)
    else:
        out.append(dt_name(dt))
    return out


def _prod(s):
    n = 1
    for x in s:
        n *= x
    return n


class _ArrMeta(type):
    def __instancecheck__(cls, o):
        return type.__instancecheck__(cls, o)

    def __getitem__(cls, k):
        return cls


class Record:
    """np.void / np.record element view"""

    __slots__ = ("_s", "_b", "dtype", "_rec")

    def __init__(self, store, base, dt, rec):
        object.__setattr__(self, "_s", store)
        object.__setattr__(self, "_b", base)
        object.__setattr__(self, "dtype", dt)
        object.__setattr__(self, "_rec", rec)

    def _field(self, n):
        off, dt, shape = layout(self.dtype)[1][n]
        if shape:
            return ndarray(self._s, shift(self._b, off), dt, shape, rec=False, rec_elem=self._rec)
        if dt.names:
            return Record(self._s, shift(self._b, off), dt, self._rec)
        return mk(dt_name(dt), read(self._s, self._b, off))

    def _setfield(self, n, v):
        off, dt, shape = layout(self.dtype)[1][n]
        if shape:
            ndarray(self._s, shift(self._b, off), dt, shape)[...] = v
        elif dt.names:
            _assign(self._s, shift(self._b, off), dt, v)
        else:
            write(self._s, self._b, off, to_cell(v, dt_name(dt)))

    def __getattr__(self, n):
        if n.startswith("__") or not self._rec or n not in self.dtype.names:
            raise AttributeError(f"'numpy.void' object has no attribute '{n}'")
        return self._field(n)

    def __setattr__(self, n, v):
        if not self._rec or n not in self.dtype.names:
            raise AttributeError(f"'numpy.void' object has no attribute '{n}'")
        self._setfield(n, v)

    def __getitem__(self, n):
        if isinstance(n, str):
            return self._field(n)
        return self._field(self.dtype.names[int(n)])

    def __setitem__(self, n, v):
        self._setfield(n if isinstance(n, str) else self.dtype.names[int(n)], v)

    def __len__(self):
        return len(self.dtype.names)

    def __iter__(self):
        return iter([self._field(n) for n in self.dtype.names])

    def item(self):
        return tuple(self._field(n) for n in self.dtype.names)

    def copy(self):
        n = layout(self.dtype)[0]
        return Record(Store([read(self._s, self._b, i) for i in range(n)]), 0, self.dtype, self._rec)

    def __eq__(self, o):
        if isinstance(o, Record) and o.dtype == self.dtype:
            n = layout(self.dtype)[0]
            return mkbool(T.and_(*[T.eq(read(self._s, self._b, i), read(o._s, o._b, i)) for i in range(n)]))
        return False

    __hash__ = None

    def __repr__(self):
        return "Record(" + ", ".join(f"{n}={self._field(n)!r}" for n in self.dtype.names[:6]) + ")"


def _assign(store, base, dt, v):
    """assign a scalar/record/sequence to one element"""
    if dt.names:
        if isinstance(v, Record):
            n = layout(dt)[0]
            src = [read(v._s, v._b, i) for i in range(n)]
            kinds, mine = leaf_dtypes(v.dtype), leaf_dtypes(dt)
            for i in range(n):
                write(store, base, i, cast_term(src[i], kinds[i], mine[i]))
            return
        if isinstance(v, (rnp.void,)):
            v = v.item()
        if isinstance(v, (tuple, list)):
            rec = Record(store, base, dt, True)
            for n, x in zip(dt.names, v):
                rec._setfield(n, x)
            return
        if isinstance(v, (int, float)) or as_scalar(v):
            rec = Record(store, base, dt, True)
            for n in dt.names:
                rec._setfield(n, v)
            return
        raise Unsupported("record assignment")
    write(store, base, 0, to_cell(v, dt_name(dt)))


def to_cell(v, name):
    if name not in _W:
        raise Unsupported("array of " + str(name))
    if type(v) is SymPyInt:
        return SCALARS[name](v).t
    if isinstance(v, int) and not isinstance(v, bool):
        return SCALARS[name](v).t if kind(name) != "b" else T.const(int(bool(v)), 1)
    s = as_scalar(v)
    if s is None:
        if isinstance(v, ndarray) and v.size == 1:
            return to_cell(v.flat_scalars()[0], name)
        raise TypeError(f"cannot store {type(v)} in array of {name}")
    return cast_term(s[1], s[0], name)


class ndarray(metaclass=_ArrMeta):
    """view of a store; strides are in cells"""

    __array_priority__ = 1000

    def __init__(self, store, base, dt, shape, strides=None, rec=False, rec_elem=None):
        self._s, self._b = store, base
        self.dtype = dt
        self.shape = tuple(shape)
        if strides is None:
            n = layout(dt)[0]
            strides = []
            for d in reversed(self.shape):
                strides.append(n)
                n *= d
            strides = tuple(reversed(strides))
        self.strides_ = tuple(strides)
        self._rec = rec
        self._rec_elem = rec if rec_elem is None else rec_elem

    def __class_getitem__(cls, k):
        return cls

    ndim = property(lambda self: len(self.shape))
    size = property(lambda self: _prod(self.shape))
    T = property(lambda self: ndarray(self._s, self._b, self.dtype, self.shape[::-1], self.strides_[::-1]))
    itemsize = property(lambda self: self.dtype.itemsize)
    nbytes = property(lambda self: self.dtype.itemsize * self.size)

    def __len__(self):
        if not self.shape:
            raise TypeError("len() of unsized object")
        return self.shape[0]

    def __iter__(self):
        for i in range(len(self)):
            yield self[i]

    def __bool__(self):
        if self.size == 1:
            return bool(self.flat_scalars()[0])
        raise ValueError("The truth value of an array with more than one element is ambiguous. Use a.any() or a.all()")

    def __hash__(self):
        raise TypeError("unhashable type: 'numpy.ndarray'")

    def _elem(self, base):
        if self.dtype.names:
            return Record(self._s, base, self.dtype, self._rec_elem)
        return mk(dt_name(self.dtype), read(self._s, base, 0))

    def _bases(self):
        """bases of all elements in C order"""
        out = [self._b]
        for d, st in zip(self.shape, self.strides_):
            out = [shift(b, i * st) for b in out for i in range(d)]
        return out

    def flat_scalars(self):
        return [self._elem(b) for b in self._bases()]

    def terms(self):
        return [x.t for x in self.flat_scalars()]

    def _index(self, i, n):
        """int index -> concrete int or ('sym', term) with bounds check"""
        if isinstance(i, bool):
            raise Unsupported("boolean index")
        if isinstance(i, ndarray) and i.ndim == 0:
            i = i[()]
        if is_sym(i):
            if type.__instancecheck__(generic, i) and kind(i.name) == "f":
                raise IndexError("only integers, slices (`:`), ellipsis (`...`), numpy.newaxis (`None`) and integer or "
                                 "boolean arrays are valid indices")
            t = i.t
            signed = type(i) is SymPyInt or kind(i.name) == "i"
            if signed and not T._nonneg(t):
                if CTX.branch(T.slt(t, T.const(0, t.w))):
                    w = max(t.w, 64)
                    t = T.add(T.resize(t, w, True), T.const(n, w))
                    if CTX.branch(T.slt(t, T.const(0, w))):
                        raise IndexError("index out of bounds")
            if n.bit_length() <= t.w and CTX.branch(T.not_(T.ult(t, T.const(n, t.w)))):
                raise IndexError(f"index is out of bounds for axis 0 with size {n}")
            b = max(1, (n - 1).bit_length())
            return ("sym", T.extract(t, min(b, t.w) - 1, 0))
        if type.__instancecheck__(generic, i) and kind(i.name) == "f" or isinstance(i, float):
            raise IndexError("only integers, slices (`:`), ellipsis (`...`), numpy.newaxis (`None`) and integer or "
                             "boolean arrays are valid indices")
        i = i.__index__()
        if not -n <= i < n:
            raise IndexError(f"index {i} is out of bounds for axis 0 with size {n}")
        return i + n if i < 0 else i

    def _view(self, key):
        """basic indexing: (base, shape, strides)"""
        if not isinstance(key, tuple):
            key = (key,)
        if any(k is Ellipsis for k in key):
            p = [k is Ellipsis for k in key].index(True)
            key = key[:p] + (slice(None),) * (self.ndim - (len(key) - 1)) + key[p + 1:]
        if len(key) > self.ndim:
            raise IndexError("too many indices for array")
        base, shape, strides = self._b, [], []
        for d, k in enumerate(key):
            n, st = self.shape[d], self.strides_[d]
            if isinstance(k, slice):
                parts = [x.__index__() if x is not None else None for x in (k.start, k.stop, k.step)]
                a, b, c = slice(*parts).indices(n)
                cnt = len(range(a, b, c))
                base = shift(base, a * st)
                shape.append(cnt)
                strides.append(st * c)
            elif k is None:
                raise Unsupported("newaxis")
            elif isinstance(k, (list, ndarray, rnp.ndarray)) and not (isinstance(k, ndarray) and k.ndim == 0):
                return None
            else:
                i = self._index(k, n)
                if isinstance(i, tuple):
                    base = SymBase(i[1], [shift(base, j * st) for j in range(n)])
                else:
                    base = shift(base, i * st)
        return base, tuple(shape) + self.shape[len(key):], tuple(strides) + self.strides_[len(key):]

    def __getitem__(self, key):
        if isinstance(key, str):
            return self._field(key)
        if isinstance(key, tuple) and key == ():
            return self._elem(self._b) if not self.shape else self
        v = self._view(key)
        if v is None:
            idx = key if not isinstance(key, tuple) else None
            if idx is None or self.ndim != 1:
                raise Unsupported("fancy indexing")
            items = list(idx)
            if items and (isinstance(items[0], bool) or getattr(items[0], "name", "") == "bool"):
                if len(items) != self.shape[0]:
                    raise IndexError("boolean index did not match indexed array along dimension 0")
                items = [i for i, b in enumerate(items) if b]
            elif isinstance(idx, ndarray) and idx.dtype.name == "bool":
                items = []
            n, cells = layout(self.dtype)[0], []
            for i in items:
                b = self._view(i)[0]
                cells += [read(self._s, b, j) for j in range(n)]
            return ndarray(Store(cells), 0, self.dtype, (len(items),), None, self._rec, self._rec_elem)
        base, shape, strides = v
        if not shape:
            return self._elem(base)
        return ndarray(self._s, base, self.dtype, shape, strides, self._rec, self._rec_elem)

    def __setitem__(self, key, val):
        if isinstance(key, str):
            self._field(key)[...] = val
            return
        v = self._view(key)
        if v is None:
            raise Unsupported("fancy assignment")
        base, shape, strides = v
        if not shape:
            _assign(self._s, base, self.dtype, val)
            return
        dst = ndarray(self._s, base, self.dtype, shape, strides)
        if isinstance(val, rnp.ndarray):
            val = wrap_real(val)
        if isinstance(val, (list, tuple)) and not self.dtype.names:
            val = array(val)
        if isinstance(val, (list, tuple)):
            vals = list(val)
            if len(vals) != shape[0]:
                raise ValueError("could not broadcast")
            for b, x in zip(dst._bases(), vals):
                _assign(self._s, b, self.dtype, x)
            return
        if isinstance(val, ndarray):
            src = broadcast(val, shape)
            name = dt_name(self.dtype) if not self.dtype.names else None
            items = [x.copy() if isinstance(x, Record) else x for x in src]
            for b, x in zip(dst._bases(), items):
                if name:
                    write(self._s, b, 0, to_cell(x, name))
                else:
                    _assign(self._s, b, self.dtype, x)
            return
        for b in dst._bases():
            _assign(self._s, b, self.dtype, val)

    def _field(self, n):
        off, dt, shape = layout(self.dtype)[1][n]
        sub = layout(dt)[0]
        st = []
        k = sub
        for d in reversed(shape):
            st.append(k)
            k *= d
        return ndarray(self._s, shift(self._b, off), dt, self.shape + shape, self.strides_ + tuple(reversed(st)),
                       rec=self._rec and bool(dt.names), rec_elem=self._rec_elem)

    def __getattr__(self, n):
        d = self.__dict__
        if not n.startswith("_") and d.get("_rec") and n in (d["dtype"].names or ()):
            return self._field(n)
        raise AttributeError(f"'numpy.ndarray' object has no attribute '{n}'")

    def view(self, *a, **k):
        tp = a[0] if a else k.get("type", k.get("dtype"))
        if tp is recarray or tp is rnp.recarray:
            return ndarray(self._s, self._b, self.dtype, self.shape, self.strides_, rec=True)
        if tp is ndarray or tp is rnp.ndarray:
            return ndarray(self._s, self._b, self.dtype, self.shape, self.strides_, rec=False, rec_elem=self._rec_elem)
        dt = _dt(tp)
        if not self.dtype.names and not dt.names and dt.itemsize == self.dtype.itemsize:
            if "bool" not in (dt_name(dt), dt_name(self.dtype)):
                return ndarray(self._s, self._b, dt, self.shape, self.strides_)
        raise Unsupported(f"view({tp})")

    def copy(self, *a):
        bases = self._bases()
        n = layout(self.dtype)[0]
        cells = [read(self._s, b, i) for b in bases for i in range(n)]
        return ndarray(Store(cells), 0, self.dtype, self.shape, None, self._rec, self._rec_elem)

    def astype(self, dt, copy=True, **k):
        dt = _dt(dt)
        name, mine = dt_name(dt), dt_name(self.dtype)
        return _new([cast_term(x.t, mine, name) for x in self.flat_scalars()], dt, self.shape)

    def tolist(self):
        if self.ndim == 1:
            return [x.item() for x in self]
        return [x.tolist() for x in self]

    def item(self, *a):
        return (self.flat_scalars()[a[0] if a else 0]).item()

    def reshape(self, *s):
        if len(s) == 1 and isinstance(s[0], (tuple, list)):
            s = tuple(s[0])
        s = list(s)
        if -1 in s:
            s[s.index(-1)] = self.size // -_prod(s)
        c = self.copy()
        n = layout(self.dtype)[0]
        if self.strides_ == ndarray(None, 0, self.dtype, self.shape).strides_:
            return ndarray(self._s, self._b, self.dtype, s, None, self._rec, self._rec_elem)
        return ndarray(c._s, 0, self.dtype, s, None, self._rec, self._rec_elem)

    def flatten(self):
        return self.copy().reshape(self.size)

    ravel = flatten

    def fill(self, v):
        self[...] = v

    def sum(self, axis=None, dtype=None, **k):
        return sum_(self, axis=axis, dtype=dtype)

    def any(self):
        return mk("bool", T.or_(T.FALSE, *[truth(x) for x in self.flat_scalars()]))

    def all(self):
        return mk("bool", T.and_(T.TRUE, *[truth(x) for x in self.flat_scalars()]))

    def cumsum(self):
        out, acc = [], None
        name = dt_name(self.dtype)
        if kind(name) in "ub":
            name = "uint64" if kind(name) == "u" else "int64"
        elif kind(name) == "i":
            name = "int64"
        for x in self.flat_scalars():
            v = mk(name, cast_term(x.t, x.name, name))
            acc = v if acc is None else acc + v
            out.append(acc.t)
        return _new(out, rnp.dtype(name), (len(out),))

    def __invert__(self):
        return _new([(~x).t for x in self.flat_scalars()], self.dtype, self.shape)

    def __neg__(self):
        return _new([(-x).t for x in self.flat_scalars()], self.dtype, self.shape)

    def __repr__(self):
        return f"symarray({self.shape}, {self.dtype})"

    def tobytes(self):
        out = bytearray()
        for x in self.flat_scalars():
            out += real_value(x).tobytes()
        return bytes(out)

    def __reduce__(self):
        return (wrap_real, (to_real(self),))


def _iop(op):
    def f(self, other):
        r = array_op(op, self, other)
        self[...] = r
        return self
    return f


for _n in _OPS:
    setattr(ndarray, f"__i{_n}__", _iop(_n))
_install(ndarray, lambda op, a, b: array_op(op, a, b))


class recarray(ndarray):
    pass


def _new(cells, dt, shape):
    return ndarray(Store(list(cells)), 0, rnp.dtype(dt), shape)


def wrap_real(a):
    """real ndarray -> modelled array of constants"""
    a = rnp.asarray(a) if not isinstance(a, rnp.ndarray) else a
    if a.dtype.kind in "US" or a.dtype.kind == "O":
        return a
    rec = isinstance(a, rnp.recarray)
    cells = []

    def leaves(dt, v):
        if dt.names:
            for n in dt.names:
                leaves(dt.fields[n][0], v[n])
        elif dt.subdtype is not None:
            base, _ = dt.subdtype
            for x in v.reshape(-1):
                leaves(base, x)
        else:
            name = dt_name(dt)
            if name[0] == "f":
                cells.append(T.f2b(v, _W[name]))
            else:
                cells.append(T.const(int(v), _W[name]))
    plain = rnp.asarray(a).view(rnp.ndarray)
    for v in plain.reshape(-1):
        leaves(a.dtype, v)
    return ndarray(Store(cells), 0, a.dtype if not rec else rnp.dtype((rnp.void, a.dtype)) if False else _plain(a.dtype),
                   a.shape, None, rec)


def _plain(dt):
    if dt.names and dt.type is not rnp.void:
        return rnp.dtype([(n, dt.fields[n][0]) for n in dt.names])
    return dt


def as_wrapped(v):
    if isinstance(v, rnp.ndarray):
        return wrap_real(v)
    if isinstance(v, rnp.generic):
        s = as_scalar(v)
        if s:
            return mk(*s)
    return v


def to_real(a):
    """modelled array of constants -> real ndarray"""
    out = rnp.zeros(a.shape, a.dtype)
    flat = out.reshape(-1)

    def put(rec, dt, dst, key):
        v = rec
        if isinstance(v, Record):
            d = dst[key]
            for n in v.dtype.names:
                put(v._field(n), v.dtype.fields[n][0], d, n)
        elif isinstance(v, ndarray):
            d = dst[key].reshape(-1)
            for i, x in enumerate(v.flat_scalars()):
                put(x, v.dtype, d, i)
        else:
            dst[key] = real_value(v)
    for i, x in enumerate(a.flat_scalars()):
        put(x, a.dtype, flat, i)
    return out.view(rnp.recarray) if a._rec else out


def broadcast(a, shape):
    """flat element list of a broadcast to shape"""
    if isinstance(a, rnp.ndarray):
        a = wrap_real(a)
    if not isinstance(a, ndarray):
        return [a] * _prod(shape)
    if a.shape == tuple(shape):
        return a.flat_scalars()
    idx = rnp.broadcast_to(rnp.arange(a.size).reshape(a.shape), shape).reshape(-1)
    fl = a.flat_scalars()
    return [fl[i] for i in idx]


def _res_dtype(op, a, b):
    """result dtype of an array operation under numpy's value-based rules"""
    def proxy(x):
        if isinstance(x, ndarray):
            return rnp.ones((1,) * max(1, x.ndim) if x.ndim else (), x.dtype)
        if isinstance(x, rnp.ndarray):
            return x[:1] if x.ndim else x
        if type.__instancecheck__(generic, x):
            if T.is_const(x.t):
                return real_value(x)
            return rnp.dtype(x.name).type(1) if kind(x.name) != "b" else rnp.bool_(True)
        if type(x) is SymPyInt:
            return 1
        return x
    return proxy(a), proxy(b)


def array_op(op, a, b):
    for x in (a, b):
        if isinstance(x, (ndarray, rnp.ndarray)):
            if x.dtype.names:
                raise Unsupported("record arithmetic")
        elif isinstance(x, (list, tuple)):
            pass
        elif as_scalar(x) is None:
            return NotImplemented
    if isinstance(a, (list, tuple)):
        a = array(a)
    if isinstance(b, (list, tuple)):
        b = array(b)
    sa = a.shape if hasattr(a, "shape") and isinstance(a, (ndarray, rnp.ndarray)) else ()
    sb = b.shape if hasattr(b, "shape") and isinstance(b, (ndarray, rnp.ndarray)) else ()
    shape = rnp.broadcast_shapes(sa, sb)
    pa, pb = _res_dtype(op, a, b)
    cmp_ = op in ("eq", "ne", "lt", "le", "gt", "ge")
    dt = rnp.result_type(pa, pb).name
    if op == "truediv" and kind(dt) != "f":
        dt = "float64"
    if op in ("and", "or", "xor", "lshift", "rshift") and kind(dt) == "f":
        apply_op(op, dt, None, None)
    out = []
    name = None
    for x, y in zip(broadcast(a, shape), broadcast(b, shape)):
        (da, tx), (db, ty) = as_scalar(x), as_scalar(y)
        if cmp_ and kind(da) in "ui" and kind(db) in "ui" and kind(da) != kind(db):
            r = _cmp_mixed(op, da, tx, db, ty)
            name, t = "bool", r.t
        else:
            name, t = apply_op(op, dt, cast_term(tx, da, dt), cast_term(ty, db, dt))
        out.append(t)
    if name is None:
        name = "bool" if cmp_ else dt
    return _new(out, rnp.dtype(name), shape)


# ----------------------------------------------------------------- constructors and functions
def _shape(s):
    if isinstance(s, (tuple, list)):
        return tuple(int(x) for x in s)
    return (s.__index__(),)


def _filled(shape, dt, v):
    dt = _dt(dt)
    shape = _shape(shape)
    names = leaf_dtypes(dt)
    cells = []
    one = [T.f2b(v, _W[n]) if n[0] == "f" else T.const(v, _W[n]) for n in names]
    for _ in range(_prod(shape)):
        cells.extend(one)
    return ndarray(Store(cells), 0, dt, shape)


_uninit = [0]


def zeros(shape, dtype=float64, **k):
    return _filled(shape, dtype, 0)


def ones(shape, dtype=float64, **k):
    return _filled(shape, dtype, 1)


def full(shape, fill, dtype=None, **k):
    a = _filled(shape, dtype if dtype is not None else (fill.name if type.__instancecheck__(generic, fill) else
                                                       rnp.array(fill).dtype), 0)
    a[...] = fill
    return a


def empty(shape, dtype=float64, **k):
    """uninitialised memory is unconstrained: every cell is a fresh variable"""
    if not CTX.active:
        return _filled(shape, dtype, 0)
    dt = _dt(dtype)
    shape = _shape(shape)
    cells = []
    for _ in range(_prod(shape)):
        for n in leaf_dtypes(dt):
            CTX.fresh = getattr(CTX, "fresh", 0) + 1
            cells.append(T.var(f"uninit!{CTX.fresh}", _W[n]))
    return ndarray(Store(cells), 0, dt, shape)


def zeros_like(a, dtype=None, **k):
    return zeros(a.shape, dtype if dtype is not None else a.dtype)


def empty_like(a, dtype=None, **k):
    return zeros(a.shape, dtype if dtype is not None else a.dtype)


def _flat(seq):
    """(shape, flat list) of nested sequences"""
    if isinstance(seq, rnp.ndarray):
        seq = wrap_real(seq)
    if isinstance(seq, ndarray):
        return seq.shape, seq.flat_scalars()
    if isinstance(seq, (list, tuple)) or (hasattr(seq, "__iter__") and not isinstance(seq, (str, bytes, Record))):
        parts = [_flat(x) for x in seq]
        if not parts:
            return (0,), []
        return (len(parts),) + parts[0][0], [y for p in parts for y in p[1]]
    return (), [seq]


def array(obj, dtype=None, copy=True, **k):
    if isinstance(obj, ndarray) and dtype is None:
        return obj.copy()
    dt = _dt(dtype) if dtype is not None else None
    if dt is not None and dt.kind in "USO":
        r = rnp.array(obj, dtype=dt)
        return r.view(StrArray) if dt.kind == "U" and r.ndim == 1 else r
    if dt is not None and dt.names:
        items = list(obj)
        a = zeros(len(items), dt)
        for i, x in enumerate(items):
            _assign(a._s, i * layout(dt)[0], dt, x)
        return a
    shape, flat = _flat(obj)
    if dt is None:
        if any(isinstance(x, (str, bytes)) for x in flat):
            return rnp.array(obj)
        names = []
        for x in flat:
            s = as_scalar(x)
            if s is None:
                return rnp.array(obj)
            names.append(s[0])
        d = names[0] if names else "float64"
        for n in names[1:]:
            d = promote(d, n)
        dt = rnp.dtype(d)
    name = dt_name(dt)
    return _new([to_cell(x, name) for x in flat], dt, shape)


def asarray(obj, dtype=None, **k):
    if isinstance(obj, ndarray) and (dtype is None or _dt(dtype) == obj.dtype):
        return obj
    return array(obj, dtype)


ascontiguousarray = asarray


def arange(*a, dtype=None, **k):
    return wrap_real(rnp.arange(*[int(x) for x in a], dtype=_dt(dtype) if dtype is not None else None))


def where(cond, a=None, b=None):
    if a is None:
        raise Unsupported("where with one argument")
    sh = []
    cs = []
    for x in (cond, a, b):
        if isinstance(x, rnp.ndarray):
            x = wrap_real(x)
        if isinstance(x, (list, tuple)):
            x = array(x)
        cs.append(x)
        sh.append(x.shape if isinstance(x, ndarray) else ())
    shape = rnp.broadcast_shapes(*sh)
    pa, pb = _res_dtype("where", cs[1], cs[2])
    dt = rnp.result_type(pa, pb).name
    out = []
    for c, x, y in zip(*[broadcast(v, shape) for v in cs]):
        (da, tx), (db, ty) = as_scalar(x), as_scalar(y)
        ct = truth(c)
        if ct is None:
            ct = T.TRUE if c else T.FALSE
        out.append(T.ite(ct, cast_term(tx, da, dt), cast_term(ty, db, dt)))
    r = _new(out, rnp.dtype(dt), shape)
    return r if shape else r[()]


def sum_(a, axis=None, dtype=None, **k):
    if isinstance(a, (list, tuple)):
        a = array(a)
    if isinstance(a, rnp.ndarray):
        a = wrap_real(a)
    if axis is not None and a.ndim > 1:
        raise Unsupported("sum over an axis")
    name = dt_name(_dt(dtype)) if dtype is not None else dt_name(a.dtype)
    if dtype is None:
        if kind(name) in "u":
            name = "uint64"
        elif kind(name) in "bi":
            name = "int64"
    vals = a.flat_scalars()
    if kind(name) == "f" and len(vals) >= 8:
        raise Unsupported("float pairwise sum of 8 or more elements")
    acc = mk(name, T.f2b(0.0, _W[name]) if name[0] == "f" else T.const(0, _W[name]))
    first = True
    for x in vals:
        v = mk(name, cast_term(x.t, x.name, name))
        acc = v if first and name[0] == "f" else acc + v
        first = False
    return acc


def _minmax(op):
    def f(a, b, **k):
        c = (a < b) if op == "min" else (a > b)
        return where(c, a, b)
    return f


class errstate(rnp.errstate):
    pass


def fromfile(f, dtype=float64, **k):
    return wrap_real(rnp.fromfile(f, dtype=_dt(dtype), **k))


def frombuffer(b, dtype=float64, **k):
    return wrap_real(rnp.frombuffer(b, dtype=_dt(dtype), **k))


def result_type(*a):
    return rnp.result_type(*[_dt(x) if isinstance(x, type) else x for x in a])


def _unwrap(v):
    if type.__instancecheck__(generic, v):
        return real_value(v)
    if isinstance(v, ndarray):
        return to_real(v)
    if isinstance(v, type) and v in _REV:
        return rnp.dtype(_REV[v]).type
    if isinstance(v, (list, tuple)):
        return type(v)(_unwrap(x) for x in v)
    if type(v) is SymPyInt:
        raise Unsupported("symbolic int passed to unmodelled numpy function")
    return v


def _fallthrough(name):
    f = getattr(rnp, name)
    if isinstance(f, (types.FunctionType, types.BuiltinFunctionType, rnp.ufunc)) or callable(f) and not isinstance(f, type):
        def g(*a, **k):
            return as_wrapped(f(*[_unwrap(x) for x in a], **{n: _unwrap(x) for n, x in k.items()}))
        g.__name__ = name
        return g
    return f


def _bitwise(op):
    def f(a, b, **k):
        if isinstance(a, (ndarray, list, tuple, rnp.ndarray)) or isinstance(b, (ndarray, list, tuple, rnp.ndarray)):
            return array_op(op, a, b)
        r = _bin(op, a, b)
        return r
    return f


class _Module(types.ModuleType):
    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return _fallthrough(n)


def build_module():
    m = _Module("numpy")
    g = globals()
    for n in ("generic uint8 uint16 uint32 uint64 int8 int16 int32 int64 float32 float64 bool_ dtype ndarray recarray "
              "zeros ones full empty zeros_like empty_like array asarray ascontiguousarray arange where errstate "
              "fromfile frombuffer result_type").split():
        setattr(m, n, g[n])
    m.bool8 = bool_
    m.uint = m.uintp = uint64
    m.int_ = m.intp = int64
    m.uintc, m.intc = uint32, int32
    m.double = m.float_ = float64
    m.single = float32
    m.sum = sum_
    m.record = m.void = rnp.void
    m.minimum, m.maximum = _minmax("min"), _minmax("max")
    for n, o in (("add", "add"), ("subtract", "sub"), ("multiply", "mul"), ("bitwise_and", "and"),
                 ("bitwise_or", "or"), ("bitwise_xor", "xor"), ("left_shift", "lshift"), ("right_shift", "rshift"),
                 ("floor_divide", "floordiv"), ("remainder", "mod"), ("mod", "mod"), ("equal", "eq"),
                 ("not_equal", "ne"), ("less", "lt"), ("less_equal", "le"), ("greater", "gt"), ("greater_equal", "ge"),
                 ("true_divide", "truediv"), ("divide", "truediv")):
        setattr(m, n, _bitwise(o))
    m.invert = m.bitwise_not = lambda a: ~a
    m.integer = rnp.integer
    m.unsignedinteger = rnp.unsignedinteger
    m.seterr = rnp.seterr
    m.str_ = rnp.str_
    m.newaxis = None
    m.copy = lambda a: a.copy()
    m.cumsum = lambda a: asarray(a).cumsum()
    m.any = lambda a: asarray(a).any()
    m.all = lambda a: asarray(a).all()
    m.__file__ = rnp.__file__
    m.__version__ = rnp.__version__
    return m


MODULE = build_module()
