"""Hash-consed bit-vector / IEEE float terms with a local simplifier.

Every value the two symbolic engines manipulate is one of these terms.  Booleans are
bit-vectors of width 1.  Floats are carried as their IEEE bit patterns (width 32/64) and the
f* operators work on those patterns.  `evaluate` gives the concrete semantics, `to_z3` the
SMT semantics; the simplifier only ever rewrites to a term that is equal under both.
"""
import itertools
import math as _math
import struct

import numpy as _np

_table = {}
_ids = itertools.count(1)


class T:
    __slots__ = ("op", "args", "w", "p", "id", "_kb", "_rng", "_z", "_zb", "_zf", "_sz", "_ad", "_td")

    def __repr__(self):
        return show(self)

    def __hash__(self):
        return self.id

    def __eq__(self, other):
        return self is other


_ARITH = {"lin", "mul", "udiv", "urem", "sdiv", "srem"}


def _mk(op, args, w, p=None):
    key = (op, w, p, tuple(a.id for a in args))
    t = _table.get(key)
    if t is None:
        t = T()
        t.op, t.args, t.w, t.p = op, tuple(args), w, p
        t.id = next(_ids)
        t._kb = t._rng = t._z = t._zb = t._zf = t._sz = None
        ad = td = 0
        for a in t.args:
            if a._ad > ad:
                ad = a._ad
            if a._td > td:
                td = a._td
        t._ad = ad + (op in _ARITH)  # arithmetic nesting
        t._td = td + 1
        _table[key] = t
    return t


def mask(w):
    return (1 << w) - 1


def const(v, w):
    return _mk("const", (), w, int(v) & mask(w))


def var(name, w):
    return _mk("var", (), w, name)


TRUE = const(1, 1)
FALSE = const(0, 1)


def is_const(t):
    return t.op == "const"


def cval(t):
    return t.p


def sval(t):
    """signed value of a constant"""
    v = t.p
    return v - (1 << t.w) if v >> (t.w - 1) else v


# ----------------------------------------------------------------- known bits and ranges
def known(t):
    """(known-zero mask, known-one mask)"""
    r = t._kb
    if r is not None:
        return r
    m = mask(t.w)
    op, a = t.op, t.args
    z = o = 0
    if op == "const":
        z, o = m & ~t.p, t.p
    elif op == "concat":
        for x in a:
            xz, xo = known(x)
            z = (z << x.w) | xz
            o = (o << x.w) | xo
    elif op == "extract":
        hi, lo = t.p
        xz, xo = known(a[0])
        z, o = (xz >> lo) & m, (xo >> lo) & m
    elif op == "and":
        z, o = 0, m
        for x in a:
            xz, xo = known(x)
            z |= xz
            o &= xo
    elif op == "or":
        z, o = m, 0
        for x in a:
            xz, xo = known(x)
            z &= xz
            o |= xo
    elif op == "xor":
        z, o = m & ~t.p, t.p
        for x in a:
            xz, xo = known(x)
            z, o = (z & xz) | (o & xo), (z & xo) | (o & xz)
    elif op == "ite":
        z1, o1 = known(a[1])
        z2, o2 = known(a[2])
        z, o = z1 & z2, o1 & o2
    elif op == "sext":
        xz, xo = known(a[0])
        s = 1 << (a[0].w - 1)
        ext = m & ~mask(a[0].w)
        z = xz | (ext if xz & s else 0)
        o = xo | (ext if xo & s else 0)
    elif op in ("lshr",):
        # a known minimum shift keeps the top zero
        lo = urange(a[1])[0]
        if lo:
            z = m & ~(m >> min(lo, t.w))
    t._kb = (z, o)
    return t._kb


def urange(t):
    """unsigned interval"""
    r = t._rng
    if r is not None:
        return r
    op, a, m = t.op, t.args, mask(t.w)
    lo, hi = 0, m
    if op == "const":
        lo = hi = t.p
    elif op == "urem":
        alo, ahi = urange(a[0])
        blo, bhi = urange(a[1])
        if blo > 0:
            if ahi < blo:
                lo, hi = alo, ahi
            else:
                lo, hi = 0, min(ahi, bhi - 1)
        else:
            lo, hi = 0, ahi
    elif op == "udiv":
        alo, ahi = urange(a[0])
        blo, bhi = urange(a[1])
        if blo > 0:
            lo, hi = alo // bhi, ahi // blo
    elif op == "ite":
        l1, h1 = urange(a[1])
        l2, h2 = urange(a[2])
        lo, hi = min(l1, l2), max(h1, h2)
    elif op == "concat":
        lo = hi = 0
        for x in a:
            l1, h1 = urange(x)
            lo = (lo << x.w) | l1
            hi = (hi << x.w) | h1
    elif op == "lin":
        c, coefs = t.p
        lo = hi = c
        for k, x in zip(coefs, a):
            l1, h1 = urange(x)
            if k > m >> 1:
                # small negative multiplier
                k -= m + 1
                lo += k * h1
                hi += k * l1
            else:
                lo += k * l1
                hi += k * h1
        if lo < 0 or hi > m:
            if lo > m and (lo >> t.w) == (hi >> t.w):
                lo, hi = lo & m, hi & m
            else:
                lo, hi = 0, m
    elif op == "mul":
        l1, h1 = urange(a[0])
        l2, h2 = urange(a[1])
        if h1 * h2 <= m:
            lo, hi = l1 * l2, h1 * h2
    elif op == "extract":
        xl, xh = urange(a[0])
        h, l = t.p
        if xh <= mask(h + 1):
            lo, hi = xl >> l, xh >> l
    elif op == "lshr":
        l1, h1 = urange(a[0])
        l2, h2 = urange(a[1])
        lo, hi = (l1 >> h2 if h2 < 4096 else 0), (h1 >> min(l2, t.w))
    z, o = known(t)
    lo, hi = max(lo, o), min(hi, m & ~z)
    t._rng = (lo, hi)
    return t._rng


def lzero(t):
    """number of leading bits known to be zero"""
    z, _ = known(t)
    hi = urange(t)[1]
    n = t.w - hi.bit_length()
    return n


# ----------------------------------------------------------------- bitwise structure
def concat(*parts):
    flat = []
    for x in parts:
        if x is None or x.w == 0:
            continue
        if x.op == "concat":
            flat.extend(x.args)
        else:
            flat.append(x)
    out = []
    for x in flat:
        if out:
            y = out[-1]
            if y.op == "const" and x.op == "const":
                out[-1] = const((y.p << x.w) | x.p, y.w + x.w)
                continue
            if y.op == "extract" and x.op == "extract" and y.args[0] is x.args[0] and y.p[1] == x.p[0] + 1:
                out[-1] = extract(y.args[0], y.p[0], x.p[1])
                continue
            if y.op == "extract" and x.op != "const" and y.p[1] >= x.w:
                lo = y.p[1] - x.w
                if extract(y.args[0], y.p[1] - 1, lo) is x:
                    out[-1] = extract(y.args[0], y.p[0], lo)
                    continue
        out.append(x)
    if len(out) == 1:
        return out[0]
    return _mk("concat", out, sum(x.w for x in out))


def zext(t, w):
    if w == t.w:
        return t
    assert w > t.w, (w, t.w)
    return concat(const(0, w - t.w), t)


def sext(t, w):
    if w == t.w:
        return t
    assert w > t.w
    if t.op == "const":
        return const(sval(t), w)
    if _nonneg(t):
        return zext(t, w)
    if t.op == "sext":
        return sext(t.args[0], w)
    if t.op == "ite" and (t.args[1].op == "const" or t.args[2].op == "const"):
        return ite(t.args[0], sext(t.args[1], w), sext(t.args[2], w))
    return _mk("sext", (t,), w)


def trunc(t, w):
    return t if w == t.w else extract(t, w - 1, 0)


def resize(t, w, signed=False):
    if w == t.w:
        return t
    if w < t.w:
        return extract(t, w - 1, 0)
    return sext(t, w) if signed else zext(t, w)


_xmemo = {}


def extract(t, hi, lo):
    if lo == 0 and hi == t.w - 1:
        return t
    key = (t.id, hi, lo)
    r = _xmemo.get(key)
    if r is None:
        r = _extract(t, hi, lo)
        _xmemo[key] = r
    return r


def _extract(t, hi, lo):
    assert 0 <= lo <= hi < t.w, (lo, hi, t.w)
    w = hi - lo + 1
    op, a = t.op, t.args
    if op == "const":
        return const(t.p >> lo, w)
    if op == "extract":
        return extract(a[0], hi + t.p[1], lo + t.p[1])
    if op == "concat":
        out = []
        pos = t.w
        for x in a:
            top = pos - 1
            bot = pos - x.w
            pos = bot
            if bot > hi or top < lo:
                continue
            out.append(extract(x, min(hi, top) - bot, max(lo, bot) - bot))
        return concat(*out)
    if op == "sext":
        x = a[0]
        if hi < x.w:
            return extract(x, hi, lo)
        if lo < x.w:
            return sext(extract(x, x.w - 1, lo), w)
        return sext(extract(x, x.w - 1, x.w - 1), w) if w > 1 else extract(x, x.w - 1, x.w - 1)
    if op == "xor" and t.p:
        return xor(const(t.p >> lo, w), extract(xor(*a), hi, lo))
    if t._td < 3 or lo == 0 or (w == 1 and t._td < 200):
        if op == "and":
            return and_(*[extract(x, hi, lo) for x in a])
        if op == "or":
            return or_(*[extract(x, hi, lo) for x in a])
        if op == "xor":
            return xor(const(t.p >> lo, w), *[extract(x, hi, lo) for x in a])
        if op == "ite":
            return ite(a[0], extract(a[1], hi, lo), extract(a[2], hi, lo))
    if op == "lin" and lo == 0:
        c, coefs = t.p
        return lin(const(c, w), [(k, extract(x, hi, 0)) for k, x in zip(coefs, a)])
    if op == "mul" and lo == 0:
        return mul(extract(a[0], hi, 0), extract(a[1], hi, 0))
    if lo and hi < t.w - 1 and op in ("lin", "mul", "xor", "and", "or", "ite"):
        return extract(extract(t, hi, 0), hi, lo)
    z, o = known(t)
    m = mask(w)
    if (z >> lo) & m == m:
        return const(0, w)
    if urange(t)[1] >> lo == 0:
        return const(0, w)
    return _mk("extract", (t,), w, (hi, lo))


def _segments(t):
    """[(term, width)] from msb to lsb"""
    return list(t.args) if t.op == "concat" else [t]


def _disjoint(a, b):
    m = mask(a.w)
    return (known(a)[0] | known(b)[0]) == m


def _disjoint_or(a, b):
    """a|b where every bit is known zero in at least one of them, as a concat"""
    cuts = {0, a.w}
    for t in (a, b):
        pos = t.w
        for s in _segments(t):
            pos -= s.w
            cuts.add(pos)
    za, zb = known(a)[0], known(b)[0]
    for z in (za, zb):
        prev = 0
        d = z ^ (z << 1)
        d &= mask(a.w)
        while d:
            low = d & -d
            cuts.add(low.bit_length() - 1)
            d ^= low
    cuts = sorted(cuts, reverse=True)
    if len(cuts) > 24:
        return None
    out = []
    for hi, lo in zip(cuts, cuts[1:]):
        m = mask(hi - lo)
        if (za >> lo) & m == m:
            out.append(extract(b, hi - 1, lo))
        elif (zb >> lo) & m == m:
            out.append(extract(a, hi - 1, lo))
        else:
            return None
    return concat(*out)


def _runs(m, w):
    """runs of equal bits, msb first: [(bit, hi, lo)]"""
    out = []
    hi = w - 1
    while hi >= 0:
        b = (m >> hi) & 1
        lo = hi
        while lo > 0 and ((m >> (lo - 1)) & 1) == b:
            lo -= 1
        out.append((b, hi, lo))
        hi = lo - 1
    return out


def not_(t):
    return xor(const(mask(t.w), t.w), t)


def xor(*ts):
    w = ts[0].w
    c = 0
    cnt = {}
    stack = list(ts)
    while stack:
        t = stack.pop()
        if t.op == "const":
            c ^= t.p
        elif t.op == "xor":
            c ^= t.p
            stack.extend(t.args)
        else:
            if t.id in cnt:
                del cnt[t.id]
            else:
                cnt[t.id] = t
    if len(cnt) > 1 and w > 1:
        # constants inside concatenations move out, so that they meet in one place
        for t in list(cnt.values()):
            if t.op == "concat":
                k, segs, pos = 0, [], w
                for x in t.args:
                    pos -= x.w
                    if x.op == "const":
                        k |= x.p << pos
                        x = const(0, x.w)
                    elif x.op == "xor" and x.p:
                        k |= x.p << pos
                        x = xor(*x.args)
                    segs.append(x)
                if k:
                    return xor(const(c ^ k, w), *[x for x in cnt.values() if x is not t], concat(*segs))
    args = [cnt[k] for k in sorted(cnt)]
    if not args:
        return const(c, w)
    if len(args) == 1:
        if c == 0:
            return args[0]
        t = args[0]
        if w == 1:
            # negate comparisons
            if t.op == "ite":
                return ite(t.args[0], xor(const(1, 1), t.args[1]), xor(const(1, 1), t.args[2]))
        if t.op == "concat":
            out = []
            pos = w
            for x in t.args:
                pos -= x.w
                out.append(xor(const(c >> pos, x.w), x))
            return concat(*out)
        if t.op == "ite" and t.args[1].op == "const" and t.args[2].op == "const":
            return ite(t.args[0], const(t.args[1].p ^ c, w), const(t.args[2].p ^ c, w))
    elif len(args) == 2 and _disjoint(args[0], args[1]):
        r = _disjoint_or(args[0], args[1])
        if r is not None:
            return xor(const(c, w), r)
    nw = _narrow_width(c, args, w)
    if nw:
        return zext(xor(const(c, nw), *[extract(t, nw - 1, 0) for t in args]), w)
    return _mk("xor", args, w, c)


def _narrow_width(c, args, w):
    """8, 16 or 32 when every set bit of c and of args lies in the low part"""
    if w <= 8:
        return 0
    m = mask(w)
    top = c
    for t in args:
        top |= m & ~known(t)[0]
    b = top.bit_length()
    for nw in (8, 16, 32):
        if b <= nw < w:
            return nw
    return 0


def and_(*ts):
    w = ts[0].w
    m = mask(w)
    c = m
    seen = {}
    stack = list(ts)
    while stack:
        t = stack.pop()
        if t.op == "const":
            c &= t.p
        elif t.op == "and":
            stack.extend(t.args)
        else:
            seen[t.id] = t
    if c == 0 or not seen:
        return const(c if not seen else 0, w)
    args = [seen[k] for k in sorted(seen)]
    if w == 1:
        for t in args:
            if not_cheap(t) in seen:
                return FALSE
    kz, ko = 0, m
    for t in args:
        z, o = known(t)
        kz |= z
        ko &= o
    if kz | (m & ~c) == m:
        return const(0, w)
    if c != m:
        if len(args) == 1:
            t = args[0]
            z, _ = known(t)
            if (z | c) == m:
                return t
            if t.op == "ite" and t.args[1].op == "const" and t.args[2].op == "const":
                return ite(t.args[0], const(t.args[1].p & c, w), const(t.args[2].p & c, w))
            if t.op == "xor" and t.p:
                return xor(const(t.p & c, w), and_(const(c, w), xor(*t.args)))
            eff = c | z  # bits already zero do not matter
            runs = _runs(c, w)
            runs2 = _runs(eff, w)
            if len(runs2) < len(runs):
                runs, c2 = runs2, eff
            else:
                c2 = c
            if len(runs) <= 8:
                return concat(*[extract(t, hi, lo) if b else const(0, hi - lo + 1) for b, hi, lo in runs])
        args = [const(c, w)] + args
    if len(args) == 1:
        return args[0]
    b = (c & ~kz).bit_length()
    for nw in (8, 16, 32):
        if b <= nw < w:
            return zext(and_(*[extract(t, nw - 1, 0) for t in args]), w)
    return _mk("and", args, w)


def not_cheap(t):
    """id of the negation of a width-1 term if that exists already"""
    if t.op == "xor" and len(t.args) == 1 and t.p == 1:
        return t.args[0].id
    k = ("xor", 1, 1, (t.id,))
    r = _table.get(k)
    return r.id if r is not None else -1


def or_(*ts):
    w = ts[0].w
    m = mask(w)
    c = 0
    seen = {}
    stack = list(ts)
    while stack:
        t = stack.pop()
        if t.op == "const":
            c |= t.p
        elif t.op == "or":
            stack.extend(t.args)
        else:
            seen[t.id] = t
    if c == m or not seen:
        return const(c, w)
    args = [seen[k] for k in sorted(seen)]
    if w == 1:
        for t in args:
            if not_cheap(t) in seen:
                return TRUE
    if c:
        if len(args) == 1:
            t = args[0]
            z, o = known(t)
            if c & ~o == 0:
                return t
            runs = _runs(c, w)
            if len(runs) <= 8:
                return concat(*[const(-1, hi - lo + 1) if b else extract(t, hi, lo) for b, hi, lo in runs])
        args = [const(c, w)] + args
    if len(args) == 1:
        return args[0]
    if w > 1 and len(args) <= 8:
        i = 0
        work = list(args)
        changed = False
        while i < len(work):
            j = i + 1
            while j < len(work):
                if _disjoint(work[i], work[j]):
                    r = _disjoint_or(work[i], work[j])
                    if r is not None:
                        work[i] = r
                        del work[j]
                        changed = True
                        j = i + 1
                        continue
                j += 1
            i += 1
        if changed:
            if len(work) == 1:
                return work[0]
            args = sorted(work, key=lambda t: t.id)
    nw = _narrow_width(0, args, w)
    if nw:
        return zext(or_(*[extract(t, nw - 1, 0) for t in args]), w)
    return _mk("or", args, w)


# ----------------------------------------------------------------- shifts
def shl_c(t, n):
    if n == 0:
        return t
    if n >= t.w:
        return const(0, t.w)
    return concat(extract(t, t.w - 1 - n, 0), const(0, n))


def lshr_c(t, n):
    if n == 0:
        return t
    if n >= t.w:
        return const(0, t.w)
    return zext(extract(t, t.w - 1, n), t.w)


def ashr_c(t, n):
    if n == 0:
        return t
    n = min(n, t.w - 1)
    return sext(extract(t, t.w - 1, n), t.w)


def shl(a, b):
    """b has the width of a; >= width gives 0"""
    if b.op == "const":
        return shl_c(a, b.p)
    if a.op == "const" and a.p == 0:
        return a
    return _mk("shl", (a, b), a.w)


def lshr(a, b):
    if b.op == "const":
        return lshr_c(a, b.p)
    if a.op == "const" and a.p == 0:
        return a
    return _mk("lshr", (a, b), a.w)


def ashr(a, b):
    if b.op == "const":
        return ashr_c(a, b.p)
    if known(a)[0] >> (a.w - 1):
        return lshr(a, b)
    return _mk("ashr", (a, b), a.w)


# ----------------------------------------------------------------- arithmetic
def _factors(t):
    """{(id, negated)}: terms x such that t is bitwise below x (or below its complement)"""
    if t.op == "xor":  # C ^ (C & x)
        if len(t.args) != 1 or t.p == 0 or t.args[0].op != "and":
            return None
        a = t.args[0].args
        return {(a[1].id, True)} if len(a) == 2 and a[0].op == "const" and a[0].p == t.p else None
    m = mask(t.w)
    out = set()
    for x in t.args:
        if x.op == "xor" and x.p == m and len(x.args) == 1:
            out.add((x.args[0].id, True))
        elif x.op != "const":
            out.add((x.id, False))
    return out


def lin(c, pairs):
    """c + sum(k*t), canonical"""
    w = c.w if isinstance(c, T) else None
    m = mask(w)
    c = c.p
    acc = {}
    stack = list(pairs)
    while stack:
        k, t = stack.pop()
        k &= m
        if k == 0:
            continue
        if t.op == "const":
            c += k * t.p
        elif t.op == "lin":
            c0, ks = t.p
            c += k * c0
            stack.extend((k * kk, x) for kk, x in zip(ks, t.args))
        elif t.op == "xor" and t.p == m and len(t.args) == 1:
            # ~x = -x - 1
            c -= k
            stack.append((-k, t.args[0]))
        else:
            # pull out trailing zero bits: concat(x, 0..0) = zext(x) << n
            if t.id in acc:
                acc[t.id][0] = (acc[t.id][0] + k) & m
            else:
                acc[t.id] = [k, t]
    c &= m
    items = [(k, t) for _, (k, t) in sorted(acc.items()) if k]
    if not items:
        return const(c, w)
    if w > 1 and len(items) > 1:
        fs = [(t, _factors(t)) for k, t in items if k == 1 and t.op in ("and", "xor")]
        fs = [(t, f) for t, f in fs if f]
        for i, (t, f) in enumerate(fs):
            for u, g in fs[:i]:
                if any((x, not n) in g for x, n in f):  # b&c + ~b&d
                    return lin(const(c, w), [(k, z) for k, z in items if z is not t and z is not u] + [(1, or_(t, u))])
    if c == 0 and len(items) == 1 and items[0][0] == 1:
        return items[0][1]
    if len(items) == 1 and items[0][0] == m and c == m:
        return not_(items[0][1])
    if w == 1:
        return xor(const(c, 1), *[t for _, t in items])
    if len(items) == 1 and items[0][1].op == "concat":
        t = items[0][1]
        if len(t.args) == 2 and t.args[1].w == 1 and t.args[0].op == "const" and t.args[0].p == 0:
            return ite(t.args[1], const(c + items[0][0], w), const(c, w))
    return _mk("lin", [t for _, t in items], w, (c, tuple(k for k, _ in items)))


def add(a, b):
    return lin(const(0, a.w), [(1, a), (1, b)])


def sub(a, b):
    return lin(const(0, a.w), [(1, a), (-1, b)])


def neg(a):
    return lin(const(0, a.w), [(-1, a)])


def mul(a, b):
    if a.op == "const":
        return lin(const(0, b.w), [(a.p, b)])
    if b.op == "const":
        return lin(const(0, a.w), [(b.p, a)])
    for x, y in ((a, b), (b, a)):
        if x.op == "ite" and x.args[1].op == "const" and x.args[2].op == "const":
            return ite(x.args[0], mul(x.args[1], y), mul(x.args[2], y))
    # a one-bit factor is a selection
    for x, y in ((a, b), (b, a)):
        if urange(x)[1] <= 1:
            return ite(extract(x, 0, 0), y, const(0, y.w))
    # an exact product has one form whatever the width it is asked for in
    n = 2 * a.w - lzero(a) - lzero(b)
    if n < a.w:
        return zext(mul(extract(a, n - 1, 0), extract(b, n - 1, 0)), a.w)
    # factors in as few bits as they need
    la, lb = lzero(a), lzero(b)
    if la and la < a.w:
        a = zext(extract(a, a.w - la - 1, 0), a.w)
    if lb and lb < b.w:
        b = zext(extract(b, b.w - lb - 1, 0), b.w)
    if a.id > b.id:
        a, b = b, a
    return _mk("mul", (a, b), a.w)


def _narrow2(fn, a, b):
    """run an unsigned op at the smallest width that holds both operands"""
    n = min(lzero(a), lzero(b))
    w = a.w
    if n > 0 and w - n >= 1:
        return zext(fn(extract(a, w - n - 1, 0), extract(b, w - n - 1, 0)), w)
    return None


def udiv(a, b):
    """b != 0 assumed by callers; x/0 is all-ones as in SMT-LIB"""
    if b.op == "const":
        if b.p == 1:
            return a
        if b.p and a.op == "const":
            return const(a.p // b.p, a.w)
        if b.p and b.p & (b.p - 1) == 0:
            return lshr_c(a, b.p.bit_length() - 1)
        if b.p and urange(a)[1] < b.p:
            return const(0, a.w)
    if urange(b)[0] > 0:
        r = _narrow2(udiv, a, b)
        if r is not None:
            return r
    elif a.op == "const" and b.op == "const":
        return const(-1, a.w)
    return _mk("udiv", (a, b), a.w)


def urem(a, b):
    """x%0 is x as in SMT-LIB"""
    if b.op == "const":
        if b.p == 0:
            return a
        if a.op == "const":
            return const(a.p % b.p, a.w)
        if b.p == 1:
            return const(0, a.w)
        if b.p & (b.p - 1) == 0:
            return and_(a, const(b.p - 1, a.w))
    if urange(a)[1] < urange(b)[0]:
        return a
    r = _narrow2(urem, a, b)
    if r is not None:
        return r
    return _mk("urem", (a, b), a.w)


def _nonneg(t):
    return known(t)[0] >> (t.w - 1) & 1 or urange(t)[1] < (1 << (t.w - 1))


def _sdivmod(a, b, w):
    q = abs(a) // abs(b)
    if (a < 0) != (b < 0):
        q = -q
    return q, a - q * b


def sdiv(a, b):
    """C (truncating) division"""
    if _nonneg(a) and _nonneg(b):
        return udiv(a, b)
    if a.op == "const" and b.op == "const" and b.p:
        return const(_sdivmod(sval(a), sval(b), a.w)[0], a.w)
    return _mk("sdiv", (a, b), a.w)


def srem(a, b):
    if _nonneg(a) and _nonneg(b):
        return urem(a, b)
    if a.op == "const" and b.op == "const" and b.p:
        return const(_sdivmod(sval(a), sval(b), a.w)[1], a.w)
    return _mk("srem", (a, b), a.w)


def floordiv_s(a, b):
    """Python floor division on signed operands"""
    if _nonneg(a) and _nonneg(b):
        return udiv(a, b)
    q = sdiv(a, b)
    r = srem(a, b)
    z = const(0, a.w)
    adj = and_(not_(eq(r, z)), xor(slt(r, z), slt(b, z)))
    return sub(q, zext(adj, a.w))


def floormod_s(a, b):
    if _nonneg(a) and _nonneg(b):
        return urem(a, b)
    if b.op == "const" and b.p and sval(b) > 0 and b.p & (b.p - 1) == 0:
        return and_(a, const(b.p - 1, a.w))
    r = srem(a, b)
    z = const(0, a.w)
    adj = and_(not_(eq(r, z)), xor(slt(r, z), slt(b, z)))
    return add(r, ite(adj, b, z))


# ----------------------------------------------------------------- comparisons
def eq(a, b):
    if a is b:
        return TRUE
    assert a.w == b.w, (a.w, b.w)
    if a.op == "const" and b.op == "const":
        return TRUE if a.p == b.p else FALSE
    if b.op == "const":
        a, b = b, a
    za, oa = known(a)
    zb, ob = known(b)
    if (za & ob) | (zb & oa):
        return FALSE
    la, ha = urange(a)
    lb, hb = urange(b)
    if ha < lb or hb < la:
        return FALSE
    if a.op == "const":
        if a.w == 1:
            return b if a.p else not_(b)
        if b.op == "concat":
            pos = b.w
            parts = []
            for x in b.args:
                pos -= x.w
                if x.op == "const":
                    continue
                parts.append(eq(const(a.p >> pos, x.w), x))
            return and_(*parts)
        if b.op == "sext":
            x = b.args[0]
            if const(sval(const(a.p, x.w)), a.w).p != a.p:
                return FALSE
            return eq(const(a.p, x.w), x)
        if b.op == "ite":
            c, x, y = b.args
            if x.op == "const" and y.op == "const":
                if x.p == a.p:
                    return c if y.p != a.p else TRUE
                return not_(c) if y.p == a.p else FALSE
            if x.op == "const" or y.op == "const":
                return ite(c, eq(a, x), eq(a, y))
        if b.op == "lin" and len(b.args) == 1 and b.p[1][0] & 1:
            inv = pow(b.p[1][0], -1, 1 << b.w)
            return eq(const((a.p - b.p[0]) * inv, b.w), b.args[0])
        if b.op == "xor" and len(b.args) == 1:
            return eq(const(a.p ^ b.p, b.w), b.args[0])
        if b.op == "xor" and b.p:
            return eq(const(a.p ^ b.p, b.w), xor(b, const(b.p, b.w)))
        if b.op == "udiv" and a.p == mask(b.w) and urange(b.args[0])[1] < a.p:
            return eq(const(0, b.w), b.args[1])  # only a division by zero gives all ones
        n = lzero(b)
        if n and b.w - n >= 1:
            return eq(const(a.p, b.w - n), extract(b, b.w - n - 1, 0)) if b.op != "extract" or True else None
    else:
        n = min(lzero(a), lzero(b))
        if n:
            return eq(extract(a, a.w - n - 1, 0), extract(b, b.w - n - 1, 0))
        if a.w == 1:
            return not_(xor(a, b))
        if "xor" in (a.op, b.op) and len(a.args if a.op == "xor" else (a,)) + len(b.args if b.op == "xor" else (b,)) <= 4:
            x = xor(a, b)
            if x.op == "xor" and len(x.args) > 2:
                return eq(const(0, x.w), x)
            if x.op != "xor":
                return eq(const(0, x.w), x)
    if a.op != "const" and a.id > b.id:
        a, b = b, a
    return _mk("eq", (a, b), 1)


def ne(a, b):
    return not_(eq(a, b))


def _core(t):
    """t without leading zero bits"""
    n = lzero(t)
    return extract(t, t.w - n - 1, 0) if 0 < n < t.w else t


def ult(a, b):
    if a is b:
        return FALSE
    la, ha = urange(a)
    lb, hb = urange(b)
    if ha < lb:
        return TRUE
    if la >= hb:
        return FALSE
    n = min(lzero(a), lzero(b))
    if n:
        return ult(extract(a, a.w - n - 1, 0), extract(b, b.w - n - 1, 0))
    if a.op == "extract" and a.args[0].op == "mul" and a.p[1]:
        # floor(u*m / 2^k) < m  exactly when m > 0, for u < 2^k and a product that does not wrap
        mt = a.args[0]
        k = a.p[1]
        for u, m in (mt.args, mt.args[::-1]):
            if urange(u)[1] >> k == 0 and urange(u)[1] * urange(m)[1] <= mask(a.p[0] + 1) and \
                    (m is b or _core(m) is _core(b)):
                return not_(eq(b, const(0, b.w)))
    if b.op == "const" and a.op == "lin" and len(a.args) == 1 and a.p[1][0] == 1 and a.p[0]:
        # a range of the variable: lo <= x < hi, or the other way round when it wraps
        x, w = a.args[0], a.w
        lo = (1 << w) - a.p[0]
        hi = lo + b.p
        ge = not_(ult(x, const(lo, w)))
        if hi >> w == 0:
            return and_(ge, ult(x, const(hi, w)))
        return or_(ge, ult(x, const(hi, w))) if hi & mask(w) else ge
    if b.op == "const" and b.p & (b.p - 1) == 0:
        k = b.p.bit_length() - 1
        return eq(extract(a, a.w - 1, k), const(0, a.w - k))
    if a.op == "const" and (a.p + 1) & a.p == 0:
        k = a.p.bit_length()
        return not_(eq(extract(b, b.w - 1, k), const(0, b.w - k)))
    if b.op == "ite" and b.args[1].op == "const" and b.args[2].op == "const" or \
            a.op == "ite" and a.args[1].op == "const" and a.args[2].op == "const":
        if b.op == "ite" and b.args[1].op == "const" and b.args[2].op == "const":
            return ite(b.args[0], ult(a, b.args[1]), ult(a, b.args[2]))
        return ite(a.args[0], ult(a.args[1], b), ult(a.args[2], b))
    return _mk("ult", (a, b), 1)


def ule(a, b):
    return not_(ult(b, a))


def slt(a, b):
    if a is b:
        return FALSE
    if a.op == "const" and b.op == "const":
        return TRUE if sval(a) < sval(b) else FALSE
    na, nb = _nonneg(a), _nonneg(b)
    if na and nb:
        return ult(a, b)
    s = 1 << (a.w - 1)
    nega, negb = known(a)[1] & s, known(b)[1] & s
    if na and negb:
        return FALSE
    if nega and nb:
        return TRUE
    if nega and negb:
        return ult(a, b)
    if b.op == "const" and b.p == 0:
        return extract(a, a.w - 1, a.w - 1)
    # narrow sign extensions
    if a.op == "sext" and b.op == "sext" and a.args[0].w == b.args[0].w:
        return slt(a.args[0], b.args[0])
    return _mk("slt", (a, b), 1)


def sle(a, b):
    return not_(slt(b, a))


def ite(c, a, b):
    if c.op == "const":
        return a if c.p else b
    if a is b:
        return a
    assert c.w == 1 and a.w == b.w, (c.w, a.w, b.w)
    if c.op == "xor" and c.p == 1:
        return ite(xor(*c.args), b, a)
    if c.op == "or":
        # one form for a condition and its dual
        return ite(and_(*[not_(x) for x in c.args]), b, a)
    if a.w == 1:
        if a is TRUE and b is FALSE:
            return c
        if a is FALSE and b is TRUE:
            return not_(c)
        if a is TRUE:
            return or_(c, b)
        if b is FALSE:
            return and_(c, a)
        if a is FALSE:
            return and_(not_(c), b)
        if b is TRUE:
            return or_(not_(c), a)
    if a.op == "ite" and a.args[0] is c:
        a = a.args[1]
    if b.op == "ite" and b.args[0] is c:
        b = b.args[2]
    if a is b:
        return a
    # shared leading / trailing constant segments (zext of both arms)
    if a.w > 1:
        za, oa = known(a)
        zb, ob = known(b)
        same = (za & zb) | (oa & ob)
        if same:
            n = 0
            while n < a.w and same >> (a.w - 1 - n) & 1:
                n += 1
            if 0 < n < a.w:
                top = const(extract_const(oa, a.w - 1, a.w - n), n)
                k = a.w - n - 1
                return concat(top, ite(c, extract(a, k, 0), extract(b, k, 0)))
        if a.op == "const" and b.op == "const":
            d = a.p ^ b.p
            if d & (d - 1) == 0:  # one differing bit
                i = d.bit_length() - 1
                mid = c if a.p & d else not_(c)
                hi = [const(a.p >> (i + 1), a.w - i - 1)] if i + 1 < a.w else []
                lo = [const(a.p & (d - 1), i)] if i else []
                return concat(*hi, mid, *lo)
        elif a.op == "concat" and b.op == "concat" and a.args[-1] is b.args[-1]:
            return concat(ite(c, concat(*a.args[:-1]), concat(*b.args[:-1])), a.args[-1])
    return _mk("ite", (c, a, b), a.w)


def extract_const(v, hi, lo):
    return (v >> lo) & mask(hi - lo + 1)


def lookup(values, idx, w):
    """balanced selection values[idx]; idx term; out of range entries give the last value"""
    vals = [v if isinstance(v, T) else const(v, w) for v in values]
    n = len(vals)
    hi = urange(idx)[1]
    if hi < n - 1:
        vals = vals[: hi + 1]
    bits = max(1, (len(vals) - 1).bit_length())

    def rec(base, b):
        if base >= len(vals):
            return None
        if b == 0:
            return vals[base]
        lo = rec(base, b - 1)
        h = rec(base + (1 << (b - 1)), b - 1)
        if h is None:
            return lo
        if b - 1 < idx.w:
            return ite(extract(idx, b - 1, b - 1), h, lo)
        return lo

    return rec(0, bits)


# ----------------------------------------------------------------- floats (bit patterns)
_FD = {32: _np.float32, 64: _np.float64}
_UI = {32: _np.uint32, 64: _np.uint64}


def f2b(v, w):
    """python/numpy float -> const term"""
    return const(int(_FD[w](v).view(_UI[w])), w)


def b2f(bits, w):
    return _UI[w](bits).view(_FD[w])


def _fold_f(op, w, xs):
    with _np.errstate(all="ignore"):
        a = b2f(xs[0], w)
        b = b2f(xs[1], w) if len(xs) > 1 else None
        r = {"fadd": lambda: a + b, "fsub": lambda: a - b, "fmul": lambda: a * b, "fdiv": lambda: a / b,
             "fneg": lambda: -a}[op]()
        return int(_FD[w](r).view(_UI[w]))


_LIM = {32: 24, 64: 53}     # integers below 2**_LIM are exact
_EMAX = {32: 100, 64: 900}  # scale of exact terms, far from subnormals and overflow


def _fit(k):
    """a signed integer term in as few bits as it is known to need"""
    if k.op == "const":
        v = sval(k)
        n = v.bit_length() + 1
        return const(v, n)
    if _nonneg(k):
        return extract(k, max(k.w - lzero(k), 0), 0) if lzero(k) else k
    if k.op == "sext":
        return k.args[0]
    return k


def _dy(t):
    """(k, e) with t the float k * 2**e exactly, k a signed integer term within the format's precision; or None.
    Such a term is never a negative zero."""
    lim = _LIM.get(t.w)
    op = t.op
    if op == "dy":
        return t.args[0], t.p
    if op == "const":
        f = float(b2f(t.p, t.w))
        if f != f or f in (float("inf"), float("-inf")) or t.p == 1 << (t.w - 1):
            return None
        if f == 0:
            return const(0, 2), 0
        n, d = f.as_integer_ratio()
        e = 1 - d.bit_length()
        while n % 2 == 0:
            n //= 2
            e += 1
        return (const(n, n.bit_length() + 1), e) if abs(e) < _EMAX[t.w] else None
    if op == "itof":
        k = t.args[0]
        k = _fit(k if t.p else zext(k, k.w + 1))
        return (k, 0) if k.w - 1 <= lim else None
    if op == "ftof":
        d = _dy(t.args[0])
        if d is not None and d[0].w - 1 <= lim and abs(d[1]) < _EMAX[t.w]:
            return d
        return None
    if op == "ite":
        a = _dy(t.args[1])
        b = _dy(t.args[2]) if a is not None else None
        if b is None:
            return None
        x, y, e = _align(a, b)
        k = _fit(ite(t.args[0], x, y))
        return (k, e) if k.w - 1 <= lim else None
    return None


def _align(a, b):
    """both integers at the smaller exponent, in the same width"""
    (x, e), (y, f) = a, b
    if is_const(x) and sval(x) == 0:
        e = f
    if is_const(y) and sval(y) == 0:
        f = e
    g = min(e, f)
    if max(e, f) - g > 200:
        return x, y, None
    x = concat(x, const(0, e - g)) if e > g else x
    y = concat(y, const(0, f - g)) if f > g else y
    w = max(x.w, y.w)
    return sext(x, w), sext(y, w), g


def _mkdy(k, e, w):
    """the float k * 2**e, or None when that is not known to be exact"""
    k = _fit(k)
    if k.w - 1 > _LIM[w] or abs(e) >= _EMAX[w]:
        return None
    if k.op == "const":
        return const(int(_FD[w](_math.ldexp(sval(k), e)).view(_UI[w])), w)
    if e == 0:
        return itof(k, w, True)
    return _mk("dy", (k,), w, e)


def _dyop(op, args):
    w = args[0].w
    if w not in _LIM or op == "fneg":
        return None
    a = _dy(args[0])
    b = _dy(args[1]) if a is not None else None
    if b is None:
        return None
    (x, e), (y, f) = a, b
    if op in ("fadd", "fsub"):
        x, y, g = _align(a, b)
        if g is None:
            return None
        n = x.w + 1
        x, y = sext(x, n), sext(y, n)
        return _mkdy(add(x, y) if op == "fadd" else sub(x, y), g, w)
    if op == "fmul":
        # a zero times a negative number is a negative zero
        if not (_nonneg(x) and _nonneg(y)) and not (is_const(x) and sval(x) > 0) and not (is_const(y) and sval(y) > 0):
            return None
        n = x.w + y.w
        return _mkdy(mul(sext(x, n), sext(y, n)), e + f, w)
    if op == "fdiv" and is_const(y) and sval(y) == 1:
        return _mkdy(x, e - f, w)
    return None


def fop(op, *args):
    w = args[0].w
    if all(a.op == "const" for a in args):
        return const(_fold_f(op, w, [a.p for a in args]), w)
    r = _dyop(op, args)
    if r is not None:
        return r
    if op in ("fadd", "fmul") and args[0].id > args[1].id:
        args = (args[1], args[0])
    return _mk(op, args, w)


def dy(k, e, w):
    """the float k * 2**e for a signed integer term within the precision"""
    r = _mkdy(k, e, w)
    return _mk("dy", (k,), w, e) if r is None else r


def fcmp(op, a, b):
    """op in flt fle feq (ordered)"""
    if a.op == "const" and b.op == "const":
        x, y = b2f(a.p, a.w), b2f(b.p, b.w)
        return TRUE if {"flt": x < y, "fle": x <= y, "feq": x == y}[op] else FALSE
    x = _dy(a)
    y = _dy(b) if x is not None else None
    if y is not None:
        # both are scaled integers that the float format holds exactly
        x, y, g = _align(x, y)
        if g is not None:
            if _nonneg(x) and _nonneg(y):
                n = min(lzero(x), lzero(y), x.w - 1)
                x, y = extract(x, x.w - n - 1, 0), extract(y, x.w - n - 1, 0)
                return {"flt": ult, "fle": lambda p, q: not_(ult(q, p)), "feq": eq}[op](x, y)
            return {"flt": slt, "fle": lambda p, q: not_(slt(q, p)), "feq": eq}[op](x, y)
    return _mk(op, (a, b), 1)


def itof(t, w, signed):
    """integer term to float pattern, round to nearest even"""
    if t.op == "const":
        v = sval(t) if signed else t.p
        with _np.errstate(all="ignore"):
            dt = (_np.int64 if signed else _np.uint64)
            return f2b(dt(v), w)
    if signed and _nonneg(t):
        signed = False
    n = lzero(t)
    if not signed and n and t.w - n >= 1:
        t = extract(t, t.w - n - 1, 0)
    return _mk("itof", (t,), w, signed)


def ftoi(t, w, signed):
    """float pattern to integer, truncation; defined when the value is in range"""
    if t.op == "const":
        f = float(b2f(t.p, t.w))
        if f != f or f in (float("inf"), float("-inf")):
            return const(1 << (w - 1), w)
        return const(int(f), w)
    d = _dy(t)
    if d is not None and _nonneg(d[0]):
        k, e = d
        if e < 0:
            k = lshr_c(k, -e) if -e < k.w else const(0, k.w)
        elif e:
            k = concat(k, const(0, e)) if e < 200 else None
        if k is not None:
            k = _fit(k)
            if k.w - 1 <= (w - 1 if signed else w):
                return resize(k, w)
    return _mk("ftoi", (t,), w, signed)


def ftof(t, w):
    if w == t.w:
        return t
    if t.op == "const":
        with _np.errstate(all="ignore"):
            return f2b(b2f(t.p, t.w), w)
    if t.op == "ftof" and t.args[0].w == w and w < t.w:
        return t.args[0]
    d = _dy(t)
    if d is not None and w in _LIM:
        r = _mkdy(d[0], d[1], w)
        if r is not None:
            return r
    return _mk("ftof", (t,), w)


def uf(name, args, w):
    return _mk("uf", args, w, name)


# ----------------------------------------------------------------- evaluation
def order(roots):
    """post-order over the DAG"""
    seen = set()
    out = []
    stack = [(r, False) for r in reversed(roots)]
    while stack:
        t, done = stack.pop()
        if done:
            out.append(t)
            continue
        if t.id in seen:
            continue
        seen.add(t.id)
        stack.append((t, True))
        for a in t.args:
            if a.id not in seen:
                stack.append((a, False))
    return out


def _ev(t, v, env):
    op = t.op
    w = t.w
    m = mask(w)
    if op == "const":
        return t.p
    if op == "var":
        return env.get(t.p, 0) & m
    a = [v[x.id] for x in t.args]
    if op == "lin":
        c, ks = t.p
        for k, x in zip(ks, a):
            c += k * x
        return c & m
    if op == "xor":
        c = t.p
        for x in a:
            c ^= x
        return c
    if op == "and":
        c = m
        for x in a:
            c &= x
        return c
    if op == "or":
        c = 0
        for x in a:
            c |= x
        return c
    if op == "concat":
        c = 0
        for x, tt in zip(a, t.args):
            c = (c << tt.w) | x
        return c
    if op == "extract":
        return (a[0] >> t.p[1]) & m
    if op == "ite":
        return a[1] if a[0] else a[2]
    if op == "eq":
        return int(a[0] == a[1])
    if op == "ult":
        return int(a[0] < a[1])
    aw = t.args[0].w
    if op == "slt":
        s = 1 << (aw - 1)
        return int((a[0] ^ s) < (a[1] ^ s))
    if op == "mul":
        return (a[0] * a[1]) & m
    if op == "udiv":
        return a[0] // a[1] if a[1] else m
    if op == "urem":
        return a[0] % a[1] if a[1] else a[0]
    if op in ("sdiv", "srem"):
        sx = a[0] - (1 << w) if a[0] >> (w - 1) else a[0]
        sy = a[1] - (1 << w) if a[1] >> (w - 1) else a[1]
        if sy == 0:
            return (m if sx >= 0 else 1) if op == "sdiv" else a[0]
        q, r = _sdivmod(sx, sy, w)
        return (q if op == "sdiv" else r) & m
    if op == "shl":
        return (a[0] << a[1]) & m if a[1] < w else 0
    if op == "lshr":
        return a[0] >> a[1] if a[1] < w else 0
    if op == "ashr":
        sx = a[0] - (1 << w) if a[0] >> (w - 1) else a[0]
        return (sx >> min(a[1], w - 1)) & m
    if op == "sext":
        x = a[0]
        return (x - (1 << aw) if x >> (aw - 1) else x) & m
    if op in ("fadd", "fsub", "fmul", "fdiv", "fneg"):
        return _fold_f(op, w, a)
    if op in ("flt", "fle", "feq"):
        return fcmp(op, const(a[0], aw), const(a[1], aw)).p
    if op == "itof":
        return itof(const(a[0], aw), w, t.p).p
    if op == "dy":
        return int(_FD[w](_math.ldexp(a[0] - (1 << aw) if a[0] >> (aw - 1) else a[0], t.p)).view(_UI[w]))
    if op == "ftoi":
        return ftoi(const(a[0], aw), w, t.p).p
    if op == "ftof":
        return ftof(const(a[0], aw), w).p
    if op == "uf":
        f = env.get(t.p)
        return (f(*a) if callable(f) else (f or {}).get(tuple(a), 0)) & m
    raise NotImplementedError(op)


def evaluate(roots, env):
    v = {}
    for t in order(roots):
        v[t.id] = _ev(t, v, env)
    return [v[r.id] for r in roots]


def eval_all(nodes, env):
    """values of every node of a post-ordered list"""
    v = {}
    for t in nodes:
        v[t.id] = _ev(t, v, env)
    return v


def free_vars(roots):
    return [t for t in order(roots) if t.op == "var"]


def substitute(roots, sub):
    """rebuild with {id: term}"""
    memo = dict(sub)
    for t in order(roots):
        if t.id in memo:
            continue
        if not t.args:
            memo[t.id] = t
            continue
        na = [memo[a.id] for a in t.args]
        memo[t.id] = t if all(x is y for x, y in zip(na, t.args)) else rebuild(t, na)
    return [memo[r.id] for r in roots]


def rebuild(t, a):
    op = t.op
    if op == "lin":
        return lin(const(t.p[0], t.w), list(zip(t.p[1], a)))
    if op == "xor":
        return xor(const(t.p, t.w), *a)
    if op == "and":
        return and_(*a)
    if op == "or":
        return or_(*a)
    if op == "concat":
        return concat(*a)
    if op == "extract":
        return extract(a[0], *t.p)
    if op == "sext":
        return sext(a[0], t.w)
    if op in ("itof", "ftoi"):
        return (itof if op == "itof" else ftoi)(a[0], t.w, t.p)
    if op == "ftof":
        return ftof(a[0], t.w)
    if op == "dy":
        return dy(a[0], t.p, t.w)
    if op == "uf":
        return uf(t.p, a, t.w)
    if op in ("fadd", "fsub", "fmul", "fdiv", "fneg"):
        return fop(op, *a)
    if op in ("flt", "fle", "feq"):
        return fcmp(op, *a)
    return {"ite": ite, "eq": eq, "ult": ult, "slt": slt, "mul": mul, "udiv": udiv, "urem": urem, "sdiv": sdiv,
            "srem": srem, "shl": shl, "lshr": lshr, "ashr": ashr}[op](*a)


def show(t, depth=4):
    if t.op == "const":
        return f"{t.p:#x}:{t.w}"
    if t.op == "var":
        return f"{t.p}:{t.w}"
    if depth == 0:
        return "..."
    p = f"[{t.p}]" if t.p is not None else ""
    return f"({t.op}{p}:{t.w} " + " ".join(show(a, depth - 1) for a in t.args) + ")"


def size(roots):
    return len(order(roots))


# ----------------------------------------------------------------- z3
_z3 = None


def z3mod():
    global _z3
    if _z3 is None:
        import z3

        _z3 = z3
    return _z3


def _fs(w):
    z3 = z3mod()
    return z3.Float32() if w == 32 else z3.Float64()


_FOPS = ("fadd", "fsub", "fmul", "fdiv", "fneg", "itof", "ftof", "dy")
_fpcons = []


def _zf(t):
    """z3 FP expression of a float pattern term"""
    if t._zf is None:
        z3 = z3mod()
        if t.op == "ite":
            t._zf = z3.If(_zb(t.args[0]), _zf(t.args[1]), _zf(t.args[2]))
        elif t.op == "const":
            t._zf = z3.simplify(z3.fpBVToFP(z3.BitVecVal(t.p, t.w), _fs(t.w)))
        else:
            t._zf = z3.fpBVToFP(t._z, _fs(t.w))
    return t._zf


def _zb(t):
    """z3 Bool of a width-1 term"""
    if t._zb is None:
        z3 = z3mod()
        t._zb = t._z == z3.BitVecVal(1, 1)
    return t._zb


def _export(t):
    z3 = z3mod()
    op, a, w = t.op, t.args, t.w
    if op == "const":
        t._z = z3.BitVecVal(t.p, w)
        if w == 1:
            t._zb = z3.BoolVal(bool(t.p))
        return
    if op == "var":
        t._z = z3.BitVec(t.p, w)
        return
    RM = z3.RNE()
    if op in _FOPS:
        if op == "itof":
            f = (z3.fpSignedToFP if t.p else z3.fpUnsignedToFP)(RM, a[0]._z, _fs(w))
        elif op == "dy":
            f = z3.fpMul(RM, z3.fpSignedToFP(RM, a[0]._z, _fs(w)), z3.FPVal(2.0 ** t.p, _fs(w)))
        elif op == "ftof":
            f = z3.fpFPToFP(RM, _zf(a[0]), _fs(w))
        elif op == "fneg":
            f = z3.fpNeg(_zf(a[0]))
        else:
            f = {"fadd": z3.fpAdd, "fsub": z3.fpSub, "fmul": z3.fpMul, "fdiv": z3.fpDiv}[op](
                RM, _zf(a[0]), _zf(a[1]))
        t._zf = f
        t._z = z3.fpToIEEEBV(f)
        return
    if op in ("flt", "fle", "feq"):
        t._zb = {"flt": z3.fpLT, "fle": z3.fpLEQ, "feq": z3.fpEQ}[op](_zf(a[0]), _zf(a[1]))
        t._z = z3.If(t._zb, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1))
        return
    if op == "ftoi":
        t._z = (z3.fpToSBV if t.p else z3.fpToUBV)(z3.RTZ(), _zf(a[0]), z3.BitVecSort(w))
        return
    if w == 1 and op in ("and", "or", "xor", "eq", "ult", "slt", "ite"):
        if op in ("eq",):
            b = (a[0]._z == a[1]._z) if a[0].w > 1 else (_zb(a[0]) == _zb(a[1]))
        elif op == "ult":
            b = z3.ULT(a[0]._z, a[1]._z)
        elif op == "slt":
            b = a[0]._z < a[1]._z
        elif op == "and":
            b = z3.And(*[_zb(x) for x in a])
        elif op == "or":
            b = z3.Or(*[_zb(x) for x in a])
        elif op == "ite":
            b = z3.If(_zb(a[0]), _zb(a[1]), _zb(a[2]))
        else:
            b = _zb(a[0])
            for x in a[1:]:
                b = z3.Xor(b, _zb(x))
            if t.p:
                b = z3.Not(b)
        t._zb = b
        t._z = z3.If(b, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1))
        return
    if op == "uf":
        fn = z3.Function(t.p, *[z3.BitVecSort(x.w) for x in a], z3.BitVecSort(w))
        t._z = fn(*[x._z for x in a])
        return
    za = [x._z for x in a]
    if op == "lin":
        c, ks = t.p
        m = mask(w)
        r = z3.BitVecVal(c, w) if c else None
        for k, x in zip(ks, za):
            if k == 1:
                y = x
            elif k == m:
                y = -x
            else:
                y = z3.BitVecVal(k, w) * x
            r = y if r is None else r + y
        t._z = r
    elif op in ("xor", "and", "or"):
        r = z3.BitVecVal(t.p, w) if op == "xor" and t.p else None
        for x in za:
            if r is None:
                r = x
            else:
                r = r ^ x if op == "xor" else (r & x if op == "and" else r | x)
        t._z = r
    elif op == "concat":
        t._z = z3.Concat(*za)
    elif op == "extract":
        t._z = z3.Extract(t.p[0], t.p[1], za[0])
    elif op == "ite":
        t._z = z3.If(_zb(a[0]), za[1], za[2])
    elif op == "mul":
        t._z = za[0] * za[1]
    elif op == "udiv":
        t._z = z3.UDiv(za[0], za[1])
    elif op == "urem":
        t._z = z3.URem(za[0], za[1])
    elif op == "sdiv":
        t._z = za[0] / za[1]
    elif op == "srem":
        t._z = z3.SRem(za[0], za[1])
    elif op == "shl":
        t._z = za[0] << za[1]
    elif op == "lshr":
        t._z = z3.LShR(za[0], za[1])
    elif op == "ashr":
        t._z = za[0] >> za[1]
    elif op == "sext":
        t._z = z3.SignExt(w - a[0].w, za[0])
    else:
        raise NotImplementedError(op)


def to_z3(t):
    if t._z is None:
        stack = [t]
        while stack:
            x = stack[-1]
            if x._z is not None:
                stack.pop()
                continue
            todo = [a for a in x.args if a._z is None]
            if todo:
                stack.extend(todo)
            else:
                _export(x)
                stack.pop()
    return t._z


def to_z3_bool(t):
    to_z3(t)
    return _zb(t)
