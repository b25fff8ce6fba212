"""Loads numba_pokemon_prngs (uncompiled mode) from /repo's current source onto symbolic values.

The source is parsed, every construct that would force a symbolic value to a concrete one is
routed through a small runtime (`__rt__`), and the module is executed with `numpy` bound to the
term-carrying stand-in.  `if` statements whose arms only assign are executed on both arms and
merged with if-then-else; everything else that depends on a symbolic value forks the path."""
import ast
import builtins
import importlib
import importlib.util
import operator
import os
import sys
import types

from . import symnp as S
from . import terms as T
from .ctx import CTX, Infeasible, MergeAbort, Unsupported

PKG = "numba_pokemon_prngs"
REPO = os.environ.get("VERIF_REPO", "/repo")


# --------------------------------------------------------------------------- runtime
class _Unbound:
    """value of a local that only the other arm of a merged `if` assigned"""

    __slots__ = ("site",)

    def __init__(self, site=None):
        self.site = site

    def _use(self, *a, **k):
        e = MergeAbort("value bound in only one arm is used")
        e.site = self.site
        raise e


for _n in ("add radd sub rsub mul rmul and rand or ror xor rxor lshift rlshift rshift rrshift floordiv rfloordiv mod "
           "rmod truediv rtruediv eq ne lt le gt ge bool index int float call getitem setitem iter len hash neg invert "
           "contains").split():
    setattr(_Unbound, f"__{_n}__", _Unbound._use)
_Unbound.__getattr__ = lambda self, n: self._use()

_MISSING = object()


class Journal:
    """writes made by one arm, so that they can be undone and merged"""

    def __init__(self):
        self.old = {}

    def cell(self, store, i):
        k = ("c", id(store), i)
        if k not in self.old:
            self.old[k] = (store, i, store.cells[i])

    def attr(self, obj, name):
        k = ("a", id(obj), name)
        if k not in self.old:
            self.old[k] = (obj, name, obj.__dict__.get(name, _MISSING))

    def item(self, lst, i):
        k = ("l", id(lst), i)
        if k not in self.old:
            self.old[k] = (lst, i, lst[i])

    def take(self):
        """{key: value after the arm}, and undo"""
        new = {}
        for k, (o, n, old) in self.old.items():
            if k[0] == "c":
                new[k] = o.cells[n]
                o.cells[n] = old
            elif k[0] == "a":
                new[k] = o.__dict__.get(n, _MISSING)
                if old is _MISSING:
                    o.__dict__.pop(n, None)
                else:
                    o.__dict__[n] = old
            else:
                new[k] = o[n]
                o[n] = old
        return new


def merge_values(c, x, y, site=None):
    """value that is x where c holds and y elsewhere"""
    if x is y:
        return x
    if isinstance(x, T.T) and isinstance(y, T.T):
        return T.ite(c, x, y)
    if isinstance(x, _Unbound) or isinstance(y, _Unbound):
        return _Unbound(site)
    gx, gy = type.__instancecheck__(S.generic, x), type.__instancecheck__(S.generic, y)
    if gx and gy and x.name == y.name:
        return S.mk(x.name, T.ite(c, x.t, y.t))
    ix = (isinstance(x, int) and not isinstance(x, bool)) or type(x) is S.SymPyInt
    iy = (isinstance(y, int) and not isinstance(y, bool)) or type(y) is S.SymPyInt
    if ix and iy:
        if isinstance(x, int) and isinstance(y, int) and int(x) == int(y) and type(x) is type(y):
            return x
        a, b = S._int_term(x), S._int_term(y)
        w = max(a.w, b.w)
        return S.mkint(T.ite(c, T.sext(a, w), T.sext(b, w)))
    bx = isinstance(x, bool) or gx and x.name == "bool"
    by = isinstance(y, bool) or gy and y.name == "bool"
    if bx and by:
        return S.mkbool(T.ite(c, S.truth(x), S.truth(y)))
    if isinstance(x, tuple) and isinstance(y, tuple) and len(x) == len(y):
        return tuple(merge_values(c, a, b, site) for a, b in zip(x, y))
    if isinstance(x, (str, float, type(None))) and type(x) is type(y) and x == y:
        return x
    if isinstance(x, S.ndarray) and isinstance(y, S.ndarray) and x._s is y._s and x._b == y._b and x.shape == y.shape \
            and x.strides_ == y.strides_ and x.dtype == y.dtype and isinstance(x._b, int) and isinstance(y._b, int):
        return x
    e = MergeAbort(f"cannot merge {type(x).__name__} with {type(y).__name__}")
    e.site = site
    raise e


class Arms:
    """both arms of one conditional"""

    def __init__(self, c, site):
        self.c, self.site = c, site
        self.depth = len(CTX.journals)

    def start(self, cond):
        CTX.journals.append(Journal())
        CTX.arm_pc.append(cond)

    def stop(self):
        CTX.arm_pc.pop()
        return CTX.journals.pop()

    def first(self):
        self.start(self.c)

    def second(self):
        j = self.stop()
        self.j1, self.new1 = j, j.take()
        self.start(T.not_(self.c))

    def end(self):
        j = self.stop()
        new2 = j.take()
        keys = {**self.j1.old, **j.old}
        for k, (o, n, old) in keys.items():
            a = self.new1.get(k, old) if k in self.new1 else old
            b = new2.get(k, old) if k in new2 else old
            if a is old and b is old:
                continue
            if a is _MISSING or b is _MISSING:
                self.abort("attribute set in one arm only")
            v = merge_values(self.c, a, b, self.site)
            if k[0] == "c":
                if CTX.journals:
                    CTX.journals[-1].cell(o, n)
                o.cells[n] = v
            elif k[0] == "a":
                RT.setattr(o, n, v)
            else:
                if CTX.journals:
                    CTX.journals[-1].item(o, n)
                o[n] = v

    def abort(self, msg):
        e = MergeAbort(msg)
        e.site = self.site
        raise e

    def failed(self, exc):
        """an arm did not run to its end"""
        del CTX.journals[self.depth:]
        del CTX.arm_pc[self.depth:]
        if isinstance(exc, MergeAbort) and getattr(exc, "site", None) is not None:
            raise exc
        self.abort(f"{type(exc).__name__} in arm: {exc}")


def _term(v):
    """width-1 term of a symbolic truth value, None when it is concrete"""
    if type.__instancecheck__(S.generic, v) or type(v) is S.SymPyInt:
        t = S.truth(v)
        return None if T.is_const(t) else t
    return None


def _isbool(v):
    return type(v) is bool or type.__instancecheck__(S.generic, v) and v.name == "bool"


_BIN = {"Add": operator.add, "Sub": operator.sub, "Mult": operator.mul, "Div": operator.truediv,
        "FloorDiv": operator.floordiv, "Mod": operator.mod, "Pow": operator.pow, "LShift": operator.lshift,
        "RShift": operator.rshift, "BitOr": operator.or_, "BitXor": operator.xor, "BitAnd": operator.and_}
_IBIN = {"Add": operator.iadd, "Sub": operator.isub, "Mult": operator.imul, "Div": operator.itruediv,
         "FloorDiv": operator.ifloordiv, "Mod": operator.imod, "Pow": operator.ipow, "LShift": operator.ilshift,
         "RShift": operator.irshift, "BitOr": operator.ior, "BitXor": operator.ixor, "BitAnd": operator.iand}
_CMP = {"Eq": operator.eq, "NotEq": operator.ne, "Lt": operator.lt, "LtE": operator.le, "Gt": operator.gt,
        "GtE": operator.ge, "Is": operator.is_, "IsNot": operator.is_not}
_MUT = {"append", "pop", "extend", "insert", "remove", "clear", "update", "add", "discard", "setdefault", "popitem",
        "sort", "reverse"}


class Runtime:
    Unbound = _Unbound

    def __init__(self):
        self.encoded = set()

    def enter(self, name):
        if CTX.active:
            self.encoded.add(name)

    # ---- conditionals
    def arms(self, cond, site):
        """Arms when both outcomes are possible and may be merged, else None"""
        t = _term(cond)
        if t is None or not CTX.merge or not CTX.active or site in CTX.blacklist:
            return None
        base = CTX.conds()
        if not CTX.ps.feasible(base + [t], True) or not CTX.ps.feasible(base + [T.not_(t)], True):
            return None
        return Arms(t, site)

    def _both(self, t, f, g, site):
        a = Arms(t, site)
        try:
            a.first()
            x = f()
            a.second()
            y = g()
            r = merge_values(t, x, y, site)
            a.end()
            return r
        except Infeasible:
            a.failed(MergeAbort("infeasible arm"))
        except (Exception, MergeAbort) as e:  # noqa: BLE001
            a.failed(e)

    def ifexp(self, c, f, g, site):
        if self.arms(c, site) is None:
            return f() if c else g()
        return self._both(_term(c), f, g, site)

    def boolop(self, is_and, first, rest, site, truth=True):
        """`truth`: only the truth of the result is used; otherwise operands are merged only if they are booleans"""
        v = first
        for k, f in enumerate(rest):
            s = (site, k)
            if not truth and not _isbool(v) or self.arms(v, s) is None:
                if bool(v) != is_and:
                    return v
                v = f()
                continue
            t = _term(v)
            get = f if truth else lambda f=f: self.boolean(f())
            if is_and:
                v = self._both(t, lambda: self.truthval(get()), lambda: False, s)
            else:
                v = self._both(t, lambda: True, lambda: self.truthval(get()), s)
        return v

    @staticmethod
    def boolean(v):
        if not _isbool(v):
            raise MergeAbort("and/or of other values than booleans")
        return v

    @staticmethod
    def truthval(v):
        t = _term(v)
        return bool(v) if t is None else S.mkbool(t)

    @staticmethod
    def not_(v):
        t = _term(v)
        return (not v) if t is None else S.mkbool(T.not_(t))

    def compare(self, left, ops, rest, site):
        """chained comparison"""
        def one(op, a, b):
            if op == "In":
                return self.contains(b, a)
            if op == "NotIn":
                return self.not_(self.contains(b, a))
            return _CMP[op](a, b)
        if len(ops) == 1:
            return one(ops[0], left, rest[0]())
        b = rest[0]()
        v = one(ops[0], left, b)
        if _term(v) is None:
            return v if not v else self.compare(b, ops[1:], rest[1:], (site, len(ops)))
        return self.boolop(True, v, [lambda: self.compare(b, ops[1:], rest[1:], (site, len(ops)))], site)

    @staticmethod
    def contains(c, v):
        sym = type.__instancecheck__(S.generic, v) or type(v) in (S.SymPyInt, S.SymChar)
        if isinstance(c, (tuple, list, set, frozenset, range)) and (sym or isinstance(c, (tuple, list)) and any(
                type.__instancecheck__(S.generic, x) or type(x) is S.SymPyInt for x in c)):
            acc = T.FALSE
            for x in c:
                r = v == x
                t = _term(r)
                if t is None:
                    if r:
                        return True
                else:
                    acc = T.or_(acc, t)
            return S.mkbool(acc)
        if isinstance(c, S.ndarray):
            acc = T.FALSE
            for x in c.flat_scalars():
                r = x == v
                t = _term(r)
                acc = T.or_(acc, (T.TRUE if r else T.FALSE) if t is None else t)
            return S.mkbool(acc)
        return v in c

    # ---- subscripts and attributes
    def getitem(self, o, i):
        if type(o) in (tuple, list) or isinstance(o, (tuple, list)):
            if S.is_sym(i) or type(i) is S.SymPyInt:
                return self._seq_lookup(o, i)
            if type.__instancecheck__(S.generic, i):
                i = i.__index__()
        return o[i]

    def _seq_lookup(self, o, i):
        t = i.t
        n = len(o)
        signed = type(i) is S.SymPyInt or S.kind(i.name) == "i"
        if signed and CTX.branch(T.slt(t, T.const(0, t.w))):
            return o[i.__index__()]
        if n.bit_length() <= t.w and CTX.branch(T.not_(T.ult(t, T.const(n, t.w)))):
            raise IndexError("list index out of range" if isinstance(o, list) else "tuple index out of range")
        if n == 0:
            raise IndexError("index out of range")
        try:
            return self._select(list(o), t)
        except MergeAbort:
            return o[i.__index__()]

    def _select(self, vals, t):
        """vals[t] by balanced selection"""
        if len(vals) == 1:
            return vals[0]
        b = (len(vals) - 1).bit_length() - 1
        lo, hi = vals[:1 << b], vals[1 << b:]
        if b >= t.w:
            return self._select(lo, t)
        c = T.extract(t, b, b)
        if T.is_const(c):
            return self._select(hi if c.p else lo, t)
        return merge_values(c, self._select(hi, t), self._select(lo, t))

    def setitem(self, o, i, v):
        if isinstance(o, list):
            if S.is_sym(i):
                i = i.__index__()
            if CTX.journals:
                if isinstance(i, slice):
                    raise MergeAbort("slice store")
                CTX.journals[-1].item(o, i.__index__())
        elif isinstance(o, dict) and CTX.journals:
            raise MergeAbort("dict store in arm")
        o[i] = v

    def delitem(self, o, i):
        if CTX.journals:
            raise MergeAbort("del in arm")
        del o[i]

    def setattr(self, o, n, v):
        if CTX.journals:
            if isinstance(o, S.Record) or isinstance(o, S.ndarray):
                pass
            elif not hasattr(o, "__dict__") or isinstance(o, type) or isinstance(
                    getattr(type(o), n, None), property):
                raise MergeAbort("attribute store")
            else:
                CTX.journals[-1].attr(o, n)
        setattr(o, n, v)

    def aug(self, op, a, b):
        if CTX.journals and isinstance(a, (list, dict, set)):
            raise MergeAbort("in-place update in arm")
        return _IBIN[op](a, b)

    def mut(self, o, n):
        if CTX.journals and isinstance(o, (list, dict, set, bytearray)):
            raise MergeAbort("container update in arm")
        return getattr(o, n)

    # ---- builtins
    @staticmethod
    def range(*a):
        if not any(S.is_sym(x) for x in a):
            return range(*[x.__index__() for x in a])
        start, stop, step = 0, None, 1
        if len(a) == 1:
            stop = a[0]
        else:
            start, stop = a[0], a[1]
            step = a[2] if len(a) > 2 else 1

        def pyint(x):
            return x.item() if type.__instancecheck__(S.generic, x) else x
        start, stop = pyint(start), pyint(stop)
        step = step.__index__()
        if step == 0:
            raise ValueError("range() arg 3 must not be zero")

        def gen():
            i = start
            while (i < stop) if step > 0 else (i > stop):
                yield i
                i = i + step
        return gen()

    @staticmethod
    def ord(c):
        if isinstance(c, S.SymChar):
            return S.mkint(T.zext(c.t, c.t.w + 1))
        return ord(c)

    @staticmethod
    def chr(c):
        if S.is_sym(c):
            t = S.as_scalar(c)[1]
            lo, hi = T.urange(t)
            if hi > 0x10FFFF and CTX.ps.feasible(CTX.conds() + [T.ult(T.const(0x10FFFF, t.w), t)]):
                raise Unsupported("chr() of an unbounded value")
            return S.SymStr([S.SymChar(T.extract(t, 20, 0))])
        return chr(c)

    @staticmethod
    def _minmax(less, a, k):
        if len(a) == 1:
            a = list(a[0])
        if k or not any(S.is_sym(x) for x in a):
            return (min if less else max)(a, **k)
        r = a[0]
        for x in a[1:]:
            c = (x < r) if less else (x > r)
            t = _term(c)
            if t is None:
                r = x if c else r
                continue
            try:
                r = merge_values(t, x, r)
            except MergeAbort:
                r = x if c else r
        return r

    @staticmethod
    def isinstance(o, c):
        if isinstance(c, tuple):
            return any(Runtime.isinstance(o, x) for x in c)
        if c is _Int:
            return type(o) is S.SymPyInt or isinstance(o, int)
        if c is _Bool:
            return isinstance(o, bool)
        if c is _Float:
            return isinstance(o, float)
        if c is str and isinstance(o, S.SymStr):
            return True
        return isinstance(o, c)

    @staticmethod
    def pow(*a):
        return pow(*[x.__index__() if type.__instancecheck__(S.generic, x) and S.kind(x.name) in "ui" else x
                     for x in a])


RT = Runtime()


class _TMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, cls.real) or (cls.real is int and type(o) is S.SymPyInt)

    def __subclasscheck__(cls, c):
        return issubclass(c, cls.real)

    def __getattr__(cls, n):
        return getattr(cls.real, n)

    def __eq__(cls, o):
        return o is cls or o is cls.real

    def __hash__(cls):
        return hash(cls.real)


class _Int(metaclass=_TMeta):
    real = int

    def __new__(cls, v=0, *a):
        if type(v) is S.SymPyInt:
            return v
        if type.__instancecheck__(S.generic, v):
            if v.name == "bool":
                return S.mkint(T.zext(v.t, 2))
            k = S.kind(v.name)
            if k == "u":
                return S.mkint(T.zext(v.t, v.t.w + 1))
            if k == "i":
                return S.mkint(v.t)
            if T.is_const(v.t):
                return int(T.b2f(v.t.p, v.t.w))
            # exact for |v| < 2**63, which is checked on the path
            lim = T.f2b(float(1 << 63), v.t.w)
            neg = T.f2b(-float(1 << 63), v.t.w)
            if not CTX.branch(T.and_(T.fcmp("flt", v.t, lim), T.fcmp("flt", neg, v.t))):
                raise Unsupported("int() of a large float")
            return S.mkint(T.ftoi(v.t, 64, True))
        return int(v, *a)


class _Bool(metaclass=_TMeta):
    real = bool

    def __new__(cls, v=False):
        return Runtime.truthval(v)


class _Float(metaclass=_TMeta):
    real = float

    def __new__(cls, v=0.0):
        if S.is_sym(v):
            return S.float64(v)
        return float(v)


# --------------------------------------------------------------------------- source rewriting
def _names_stored(nodes):
    out = []
    for n in nodes:
        for x in ast.walk(n):
            if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)) and x.id not in out:
                out.append(x.id)
    return out


def _mergeable(stmts):
    for s in stmts:
        if isinstance(s, (ast.Pass, ast.AugAssign, ast.Assign)):
            pass
        elif isinstance(s, ast.AnnAssign):
            if s.value is None:
                return False
        elif isinstance(s, ast.If):
            if not _mergeable(s.body) or not _mergeable(s.orelse):
                return False
        elif isinstance(s, ast.Expr):
            if not isinstance(s.value, (ast.Call, ast.Constant)):
                return False
        elif isinstance(s, ast.For):
            if s.orelse or not _mergeable(s.body):
                return False
        else:
            return False
        for x in ast.walk(s):
            if isinstance(x, (ast.Yield, ast.YieldFrom, ast.Await, ast.NamedExpr)):
                return False
    return True


def _call(name, *args):
    return ast.Call(ast.Attribute(ast.Name("__rt__", ast.Load()), name, ast.Load()), list(args), [])


def _lam(e):
    return ast.Lambda(ast.arguments([], [], None, [], [], None, []), e)


def _const(v):
    return ast.Constant(v)


class Rewriter(ast.NodeTransformer):
    def __init__(self, modname, filename):
        self.mod, self.file = modname, filename
        self.stack = []
        self.n = 0
        self.fn_depth = 0
        self.globals_ = [set()]

    def site(self, node):
        return _const(f"{self.file}:{node.lineno}:{node.col_offset}")

    def tmp(self, s):
        self.n += 1
        return f"__v_{s}{self.n}"

    # ---- scopes
    def visit_ClassDef(self, node):
        self.stack.append(node.name)
        node.body = self.body(node.body)
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        node.bases = [self.visit(d) for d in node.bases]
        self.stack.pop()
        return node

    def visit_FunctionDef(self, node):
        deco = [self.visit(d) for d in node.decorator_list]
        self.stack.append(node.name)
        self.fn_depth += 1
        self.globals_.append({n for x in ast.walk(node) if isinstance(x, (ast.Global, ast.Nonlocal)) for n in x.names})
        qual = f"{self.mod}.{'.'.join(self.stack)}"
        doc = []
        body = node.body
        if body and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant):
            doc, body = body[:1], body[1:]
        node.args.defaults = [self.visit(x) for x in node.args.defaults]
        node.args.kw_defaults = [self.visit(x) if x else x for x in node.args.kw_defaults]
        node.body = doc + [ast.Expr(_call("enter", _const(qual)))] + self.body(body)
        node.decorator_list = deco
        self.globals_.pop()
        self.fn_depth -= 1
        self.stack.pop()
        return node

    def visit_AnnAssign(self, node):
        if node.value is None:
            return node
        t = node.target
        if isinstance(t, ast.Name):
            node.value = self.visit(node.value)
            return node
        return self.visit(ast.copy_location(ast.Assign([t], node.value), node))

    def body(self, stmts):
        out = []
        for s in stmts:
            r = self.visit(s)
            if r is None:
                continue
            out.extend(r if isinstance(r, list) else [r])
        return out or [ast.Pass()]

    def visit_For(self, node):
        node.iter = self.visit(node.iter)
        pre = []
        if not isinstance(node.target, ast.Name):
            node.target, pre = self.target(node.target)
        node.body = pre + self.body(node.body)
        node.orelse = self.body(node.orelse) if node.orelse else []
        return node

    def visit_While(self, node):
        node.test = self.visit(node.test)
        node.body = self.body(node.body)
        node.orelse = self.body(node.orelse) if node.orelse else []
        return node

    def visit_With(self, node):
        for i in node.items:
            i.context_expr = self.visit(i.context_expr)
        node.body = self.body(node.body)
        return node

    def visit_Try(self, node):
        node.body = self.body(node.body)
        for h in node.handlers:
            h.body = self.body(h.body)
        node.orelse = self.body(node.orelse) if node.orelse else []
        node.finalbody = self.body(node.finalbody) if node.finalbody else []
        return node

    # ---- stores
    def target(self, t):
        """target without instrumented parts plus the statements that finish the store"""
        if isinstance(t, ast.Name):
            return t, []
        if isinstance(t, ast.Starred):
            a, b = self.target(t.value)
            return ast.Starred(a, ast.Store()), b
        if isinstance(t, (ast.Tuple, ast.List)):
            els, post = [], []
            for e in t.elts:
                a, b = self.target(e)
                els.append(a)
                post.extend(b)
            return ast.Tuple(els, ast.Store()), post
        n = self.tmp("s")
        return ast.Name(n, ast.Store()), [self.store(t, ast.Name(n, ast.Load()))]

    def store(self, t, value):
        if isinstance(t, ast.Attribute):
            return ast.Expr(_call("setattr", self.visit(t.value), _const(t.attr), value))
        return ast.Expr(_call("setitem", self.visit(t.value), self.visit(t.slice), value))

    def visit_Assign(self, node):
        value = self.visit(node.value)
        if len(node.targets) == 1 and isinstance(node.targets[0], (ast.Attribute, ast.Subscript)):
            return self.store(node.targets[0], value)
        out_targets, post = [], []
        for t in node.targets:
            a, b = self.target(t)
            out_targets.append(a)
            post.extend(b)
        return [ast.Assign(out_targets, value)] + post

    def visit_AugAssign(self, node):
        op = type(node.op).__name__
        value = self.visit(node.value)
        t = node.target
        if op not in _IBIN:
            node.value = value
            return node
        if isinstance(t, ast.Name):
            return ast.Assign([ast.Name(t.id, ast.Store())], _call("aug", _const(op), ast.Name(t.id, ast.Load()), value))
        o = self.tmp("o")
        pre = [ast.Assign([ast.Name(o, ast.Store())], self.visit(t.value))]
        on = ast.Name(o, ast.Load())
        if isinstance(t, ast.Attribute):
            cur = ast.Attribute(on, t.attr, ast.Load())
            return pre + [ast.Expr(_call("setattr", on, _const(t.attr), _call("aug", _const(op), cur, value)))]
        i = self.tmp("i")
        pre.append(ast.Assign([ast.Name(i, ast.Store())], self.visit(t.slice)))
        inn = ast.Name(i, ast.Load())
        return pre + [ast.Expr(_call("setitem", on, inn, _call("aug", _const(op), _call("getitem", on, inn), value)))]

    def visit_Delete(self, node):
        out = []
        for t in node.targets:
            if isinstance(t, ast.Subscript):
                out.append(ast.Expr(_call("delitem", self.visit(t.value), self.visit(t.slice))))
            else:
                out.append(ast.Delete([t]))
        return out

    # ---- conditionals
    def visit_If(self, node):
        test = self.visit(node.test)
        can = self.fn_depth > 0 and _mergeable(node.body) and _mergeable(node.orelse)
        names = _names_stored(node.body + node.orelse)
        if can and set(names) & self.globals_[-1]:
            can = False
        import copy

        if not can:
            return ast.copy_location(ast.If(test, self.body(node.body),
                                            self.body(node.orelse) if node.orelse else []), node)
        body1 = self.body(copy.deepcopy(node.body))
        else1 = self.body(copy.deepcopy(node.orelse)) if node.orelse else [ast.Pass()]
        body2 = self.body(copy.deepcopy(node.body))
        else2 = self.body(copy.deepcopy(node.orelse)) if node.orelse else []
        names = _names_stored(body1 + else1)
        c, a = self.tmp("c"), self.tmp("a")
        k = self.n
        ld = lambda n: ast.Name(n, ast.Load())
        st = lambda n: ast.Name(n, ast.Store())

        def save(pref):
            out = []
            for n in names:
                out.append(ast.Try([ast.Assign([st(f"{pref}{n}")], ld(n))],
                                   [ast.ExceptHandler(ld("NameError"), None,
                                                      [ast.Assign([st(f"{pref}{n}")],
                                                                  _call("Unbound", self.site(node)))])], [], []))
            return out
        p0, p1, p2 = f"__m{k}_0_", f"__m{k}_1_", f"__m{k}_2_"
        meth = lambda m, *x: ast.Expr(ast.Call(ast.Attribute(ld(a), m, ast.Load()), list(x), []))
        merged = (save(p0) + [meth("first")] + body1 + save(p1)
                  + [ast.Assign([st(n)], ld(p0 + n)) for n in names]
                  + [meth("second")] + else1 + save(p2)
                  + [ast.Assign([st(n)], ast.Call(ld("__merge__"), [ast.Attribute(ld(a), "c", ast.Load()),
                                                                   ld(p1 + n), ld(p2 + n), self.site(node)], []))
                     for n in names]
                  + [meth("end")])
        exc = self.tmp("e")
        guarded = ast.Try(merged, [ast.ExceptHandler(ld("__armerr__"), exc, [meth("failed", ld(exc))])], [], [])
        return [ast.Assign([st(c)], test),
                ast.Assign([st(a)], _call("arms", ld(c), self.site(node))),
                ast.If(ast.Compare(ld(a), [ast.IsNot()], [_const(None)]), [guarded],
                       [ast.If(ld(c), body2, else2)])]

    def visit_IfExp(self, node):
        if self.fn_depth == 0:
            return self.generic_visit(node)
        return _call("ifexp", self.visit(node.test), _lam(self.visit(node.body)), _lam(self.visit(node.orelse)),
                     self.site(node))

    def visit_BoolOp(self, node):
        if self.fn_depth == 0:
            return self.generic_visit(node)
        return _call("boolop", _const(isinstance(node.op, ast.And)), self.visit(node.values[0]),
                     ast.List([_lam(self.visit(v)) for v in node.values[1:]], ast.Load()), self.site(node),
                     _const(bool(getattr(node, "only_truth", False))))

    def visit(self, node):
        # whether the value of an and/or is used, or only its truth
        if isinstance(node, (ast.If, ast.While, ast.IfExp, ast.Assert)):
            node.test.only_truth = True
        elif isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.Not):
            node.operand.only_truth = True
        elif isinstance(node, ast.comprehension):
            for x in node.ifs:
                x.only_truth = True
        elif isinstance(node, ast.BoolOp) and getattr(node, "only_truth", False):
            for x in node.values:
                x.only_truth = True
        return super().visit(node)

    def visit_UnaryOp(self, node):
        node.operand = self.visit(node.operand)
        if isinstance(node.op, ast.Not):
            return _call("not_", node.operand)
        return node

    def visit_Compare(self, node):
        if self.fn_depth == 0:
            return self.generic_visit(node)
        ops = [type(o).__name__ for o in node.ops]
        if len(ops) == 1:
            l, r = self.visit(node.left), self.visit(node.comparators[0])
            if ops[0] == "In":
                return _call("contains", r, l)  # operand order only matters for side effects, which none have
            if ops[0] == "NotIn":
                return _call("not_", _call("contains", r, l))
            return ast.Compare(l, node.ops, [r])
        return _call("compare", self.visit(node.left), ast.List([_const(o) for o in ops], ast.Load()),
                     ast.List([_lam(self.visit(x)) for x in node.comparators], ast.Load()), self.site(node))

    # ---- loads
    def visit_Subscript(self, node):
        node.value = self.visit(node.value)
        node.slice = self.visit(node.slice)
        if self.fn_depth == 0 or not isinstance(node.ctx, ast.Load):
            return node
        return _call("getitem", node.value, self._slice(node.slice))

    def _slice(self, s):
        if isinstance(s, ast.Slice):
            none = _const(None)
            return ast.Call(ast.Name("slice", ast.Load()), [s.lower or none, s.upper or none, s.step or none], [])
        if isinstance(s, ast.Tuple):
            return ast.Tuple([self._slice(e) for e in s.elts], ast.Load())
        return s

    def visit_Call(self, node):
        if isinstance(node.func, ast.Attribute) and node.func.attr in _MUT:
            obj = self.visit(node.func.value)
            node.func = _call("mut", obj, _const(node.func.attr))
        else:
            node.func = self.visit(node.func)
        node.args = [self.visit(a) for a in node.args]
        for k in node.keywords:
            k.value = self.visit(k.value)
        return node


def rewrite(src, modname, filename):
    tree = ast.parse(src, filename)
    rw = Rewriter(modname, filename)
    # annotations stay as written
    tree.body = rw.body(tree.body)
    ast.fix_missing_locations(tree)
    return compile(tree, filename, "exec", dont_inherit=True)


# --------------------------------------------------------------------------- loading
class World:
    """one private copy of the package (and of harness code) over symbolic values"""

    def __init__(self, repo=None, stubs=None, env=None, bare=()):
        self.repo = repo or REPO
        self.bare = bare  # packages whose __init__ is not run
        self.modules = {}
        self.stubs = stubs or {}
        self.builtins = dict(vars(builtins))
        self.builtins.update({
            "__import__": self._import, "range": RT.range, "ord": RT.ord, "chr": RT.chr, "int": _Int, "bool": _Bool, "float": _Float,
            "isinstance": RT.isinstance, "pow": RT.pow,
            "min": lambda *a, **k: RT._minmax(True, a, k), "max": lambda *a, **k: RT._minmax(False, a, k),
        })
        self.env = env or {}

    def _namespace(self, name, path=None):
        m = types.ModuleType(name)
        m.__dict__.update({"__builtins__": self.builtins, "__rt__": RT, "__merge__": merge_values,
                           "__armerr__": (Exception, MergeAbort, Infeasible), "__file__": path})
        return m

    def _find(self, name):
        p = os.path.join(self.repo, *name.split("."))
        if os.path.isdir(p):
            f = os.path.join(p, "__init__.py")
            return f if os.path.exists(f) else None, True, p
        if os.path.exists(p + ".py"):
            return p + ".py", False, None
        return None, False, None

    def load(self, name):
        m = self.modules.get(name)
        if m is not None:
            return m
        if "." in name:
            parent = self.load(name.rsplit(".", 1)[0])
            m = self.modules.get(name)
            if m is not None:
                return m
        else:
            parent = None
        path, is_pkg, pdir = self._find(name)
        if path is None and not is_pkg:
            raise ModuleNotFoundError(f"No module named {name!r}", name=name)
        m = self._namespace(name, path)
        m.__package__ = name if is_pkg else name.rpartition(".")[0]
        if is_pkg:
            m.__path__ = [pdir]
        m.__spec__ = importlib.util.spec_from_file_location(name, path or os.path.join(pdir, "__init__.py"),
                                                            submodule_search_locations=[pdir] if is_pkg else None)
        self.modules[name] = m
        if path and name not in self.bare:
            with open(path, encoding="utf-8") as f:
                src = f.read()
            try:
                exec(rewrite(src, name, path), m.__dict__)
            except BaseException:
                self.modules.pop(name, None)
                raise
        if parent is not None:
            setattr(parent, name.rsplit(".", 1)[1], m)
        return m

    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            base = (globals or {}).get("__package__") or ""
            for _ in range(level - 1):
                base = base.rpartition(".")[0]
            full = f"{base}.{name}" if name else base
        else:
            full = name
        if full in self.stubs:
            m = self.stubs[full]
            return m
        if full == "numpy" or full.startswith("numpy."):
            return S.MODULE
        if full == PKG or full.startswith(PKG + "."):
            m = self.load(full)
            if not fromlist:
                return self.load(full.split(".")[0]) if not level else m
            for f in fromlist:
                if f != "*" and not hasattr(m, f) and getattr(m, "__path__", None):
                    try:
                        self.load(f"{full}.{f}")
                    except ModuleNotFoundError as e:
                        if e.name != f"{full}.{f}":
                            raise
            return m
        return builtins.__import__(name, None, None, fromlist, 0)

    def harness(self, src, name="harness"):
        m = self._namespace(name, f"<{name}>")
        m.__package__ = ""
        exec(rewrite(src, name, f"<{name}>"), m.__dict__)
        return m
