"""Independent models the checks compare against, as terms."""
from vlib import terms as T
from vlib.obl import Ob, Check, ALL  # noqa: F401

C = T.const


def z64(t):
    return t if t.w == 64 else T.zext(t, 64)


# ---------------------------------------------------------------- linear congruential
# name -> (width, mult, add, reversed, distribution)
LCRNGS = {
    "PokeRNGMod": (32, 0x41C64E6D, 0x6073, False, "mod"),
    "PokeRNGDiv": (32, 0x41C64E6D, 0x6073, False, "div"),
    "PokeRNGRMod": (32, 0x41C64E6D, 0x6073, True, "mod"),
    "PokeRNGRDiv": (32, 0x41C64E6D, 0x6073, True, "div"),
    "ARNG": (32, 0x6C078965, 1, False, "mod"),
    "ARNGR": (32, 0x6C078965, 1, True, "mod"),
    "XDRNG": (32, 0x343FD, 0x269EC3, False, "mod"),
    "XDRNGR": (32, 0x343FD, 0x269EC3, True, "mod"),
    "BWRNG": (64, 0x5D588B656C078965, 0x269EC3, False, "mulshift"),
    "BWRNGR": (64, 0x5D588B656C078965, 0x269EC3, True, "mulshift"),
}


def lc_consts(name):
    """(w, mult, add) of the step the class performs (the inverse map for reversed generators)"""
    w, m, a, rev, _ = LCRNGS[name]
    if rev:
        m = pow(m, -1, 1 << w)
        a = (-a * m) % (1 << w)
    return w, m, a


def lc_step(name, s):
    w, m, a = lc_consts(name)
    return T.add(T.mul(C(m, w), s), C(a, w))


def lc_compose(w, m, a, n):
    """coefficients of the n-fold step, by repeated squaring over the integers"""
    rm, ra = 1, 0
    bm, ba = m, a
    M = 1 << w
    while n:
        if n & 1:
            rm, ra = rm * bm % M, (ra * bm + ba) % M
        bm, ba = bm * bm % M, (ba * bm + ba) % M
        n >>= 1
    return rm, ra


def lc_jump(name, s, n):
    """n-fold step for a symbolic n: bit by bit, lowest first"""
    w, m, a = lc_consts(name)
    for i in range(n.w):
        bm, ba = lc_compose(w, m, a, 1 << i)
        s = T.ite(T.extract(n, i, i), T.add(T.mul(C(bm, w), s), C(ba, w)), s)
    return s


NPI = {32: "np.uint32", 64: "np.uint64"}
LC_IMPORT = "import numpy as np\nfrom numba_pokemon_prngs.lcrng import *\n"


# ---------------------------------------------------------------- Mersenne Twisters
def knuth_init(s, n):
    out = [s]
    for i in range(1, n):
        p = out[-1]
        out.append(T.add(T.mul(C(0x6C078965, 32), T.xor(p, T.lshr(p, C(30, 32)))), C(i, 32)))
    return out


_memo = {}


def memo(f):
    def g(*a):
        k = (f.__name__,) + tuple(tuple(x.id for x in y) if isinstance(y, (list, tuple)) else getattr(y, "id", y)
                                  for y in a)
        if k not in _memo:
            _memo[k] = f(*a)
        return list(_memo[k]) if isinstance(_memo[k], list) else _memo[k]
    return g


@memo
def mt_init(s):
    return knuth_init(s, 624)


@memo
def mt_twist(st):
    """reference regeneration, in place, index arithmetic modulo 624"""
    st = list(st)
    for i in range(624):
        y = T.or_(T.and_(st[i], C(0x80000000, 32)), T.and_(st[(i + 1) % 624], C(0x7FFFFFFF, 32)))
        mag = T.ite(T.eq(T.extract(y, 0, 0), C(1, 1)), C(0x9908B0DF, 32), C(0, 32))
        st[i] = T.xor(T.xor(st[(i + 397) % 624], T.lshr(y, C(1, 32))), mag)
    return st


def mt_temper(y):
    y = T.xor(y, T.lshr(y, C(11, 32)))
    y = T.xor(y, T.and_(T.shl(y, C(7, 32)), C(0x9D2C5680, 32)))
    y = T.xor(y, T.and_(T.shl(y, C(15, 32)), C(0xEFC60000, 32)))
    return T.xor(y, T.lshr(y, C(18, 32)))


def mt_outputs(st, n):
    out = []
    while len(out) < n:
        st = mt_twist(st)
        out += [mt_temper(x) for x in st[:n - len(out)]]
    return out


@memo
def sfmt_init(s):
    st = knuth_init(s, 624)
    parity = (0x1, 0x0, 0x0, 0x13C9E684)
    inner = T.xor(*[T.and_(st[i], C(p, 32)) for i, p in enumerate(parity)])
    bit = T.xor(*[T.extract(inner, i, i) for i in range(32)])
    # first bit of the parity vector is in word 0, so a failing state flips that one
    st[0] = T.xor(st[0], T.zext(T.not_(bit), 32))
    return st


@memo
def sfmt_twist(st):
    """reference recurrence on 128-bit words held as four 32-bit words, low first"""
    st = list(st)
    msk = (0xDFFFFFEF, 0xDDFECB7F, 0xBFFAFFFF, 0xBFFFFFF6)

    def cat(k):
        return T.concat(*[st[4 * k + j] for j in (3, 2, 1, 0)])
    N = 156
    for k in range(N):
        a, c = cat(k), cat((k + N - 2) % N)
        x = T.concat(T.extract(a, 119, 0), C(0, 8))
        y = T.concat(C(0, 8), T.extract(c, 127, 8))
        b = [st[4 * ((k + 122) % N) + j] for j in range(4)]
        d = [st[4 * ((k + N - 1) % N) + j] for j in range(4)]
        new = [T.xor(st[4 * k + j], T.extract(x, 32 * j + 31, 32 * j), T.extract(y, 32 * j + 31, 32 * j),
                     T.and_(T.lshr(b[j], C(11, 32)), C(msk[j], 32)), T.shl(d[j], C(18, 32))) for j in range(4)]
        st[4 * k:4 * k + 4] = new
    return st


def sfmt_outputs(st, n):
    out = []
    while len(out) < n:
        st = sfmt_twist(st)
        out += [T.concat(st[2 * i + 1], st[2 * i]) for i in range(min(312, n - len(out)))]
    return out


def tiny_next_state(st):
    x = T.xor(T.and_(st[0], C(0x7FFFFFFF, 32)), st[1], st[2])
    y = st[3]
    x = T.xor(x, T.shl(x, C(1, 32)))
    y = T.xor(y, T.lshr(y, C(1, 32)), x)
    odd = T.eq(T.extract(y, 0, 0), C(1, 1))
    z = C(0, 32)
    return [st[1], T.xor(st[2], T.ite(odd, C(0x8F7011EE, 32), z)),
            T.xor(T.xor(x, T.shl(y, C(10, 32))), T.ite(odd, C(0xFC78FF1F, 32), z)), y]


def tiny_temper(st):
    t1 = T.add(st[0], T.lshr(st[2], C(8, 32)))
    return T.xor(st[3], t1, T.ite(T.eq(T.extract(t1, 0, 0), C(1, 1)), C(0x3793FDFF, 32), C(0, 32)))


def tiny_init_words(s):
    st = [s, C(0x8F7011EE, 32), C(0xFC78FF1F, 32), C(0x3793FDFF, 32)]
    for i in range(1, 8):
        p = st[(i - 1) & 3]
        st[i & 3] = T.xor(st[i & 3], T.add(T.mul(C(0x6C078965, 32), T.xor(p, T.lshr(p, C(30, 32)))), C(i, 32)))
    return st


def tiny_init_zero(s):
    """the certification fallback of the reference: first 31 bits and the other words all zero"""
    st = tiny_init_words(s)
    return T.and_(T.eq(T.and_(st[0], C(0x7FFFFFFF, 32)), C(0, 32)), *[T.eq(x, C(0, 32)) for x in st[1:]])


@memo
def tiny_init(s):
    # the fallback to the words T I N Y never applies to a 32-bit seed (obligation `certified` of C07)
    st = tiny_init_words(s)
    for _ in range(8):
        st = tiny_next_state(st)
    return st


def tiny_outputs(st, n):
    out = []
    for _ in range(n):
        st = tiny_next_state(st)
        out.append(tiny_temper(st))
    return out, st


# ---------------------------------------------------------------- xorshift family
XO_IMP = "import numpy as np\nfrom numba_pokemon_prngs.xorshift import *\n"


def rotl(t, k):
    return T.concat(T.extract(t, t.w - 1 - k, 0), T.extract(t, t.w - 1, t.w - k))


def xs_next(st):
    """Xorshift128, shifts 11, 8, 19"""
    x, y, z, w = st
    t = T.xor(x, T.shl(x, C(11, 32)))
    t = T.xor(T.xor(t, T.lshr(t, C(8, 32))), T.xor(w, T.lshr(w, C(19, 32))))
    return [y, z, w, t], t


def xo_next(st):
    """Xoroshiro128+ with rotations 24, 37 and shift 16"""
    a, b = st
    r = T.add(a, b)
    b = T.xor(b, a)
    return [T.xor(rotl(a, 24), b, T.shl(b, C(16, 64))), rotl(b, 37)], r


def splitmix_word(seed, k):
    z = T.add(seed, C(0x9E3779B97F4A7C15 * k, 64))
    z = T.mul(T.xor(z, T.lshr(z, C(30, 64))), C(0xBF58476D1CE4E5B9, 64))
    z = T.mul(T.xor(z, T.lshr(z, C(27, 64))), C(0x94D049BB133111EB, 64))
    return T.xor(z, T.lshr(z, C(31, 64)))


def hi32(t):
    return T.extract(t, 63, 32)


class Fam:
    """how to build each generator of the family at an arbitrary state, and its model"""

    def __init__(self, cls, nw, w, step, view, make):
        self.cls, self.nw, self.w, self.step, self.view, self.make = cls, nw, w, step, view, make
        self.ins = [(f"s{i}", w) for i in range(nw)]

    def st(self, v):
        return [v[f"s{i}"] for i in range(self.nw)]

    def run(self, st, n):
        out = []
        for _ in range(n):
            st, r = self.step(st)
            out.append(self.view(r))
        return out, st


XS = Fam("Xorshift128", 4, 32, xs_next, lambda r: r,
         "    r = Xorshift128(np.uint32(inp[0]), np.uint32(inp[1]), np.uint32(inp[2]), np.uint32(inp[3]))\n")
XR = Fam("Xoroshiro128PlusRejection", 2, 64, xo_next, lambda r: r,
         "    r = Xoroshiro128PlusRejection(np.uint64(inp[0]), np.uint64(inp[1]))\n")
XM = Fam("SplitMixXoroshiro128Plus", 2, 64, xo_next, hi32,
         "    r = SplitMixXoroshiro128Plus(np.uint64(1))\n    r.state[0] = np.uint64(inp[0])\n"
         "    r.state[1] = np.uint64(inp[1])\n")
FAMS = [XS, XR, XM]
