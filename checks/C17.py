"""RNGList is a faithful window over its generator."""
from checks.common import *

PRELOAD = ["numba_pokemon_prngs.rng_list", "numba_pokemon_prngs.lcrng", "numba_pokemon_prngs.xorshift", "numba_pokemon_prngs.mersenne_twister"]
obs = []


def lcrng_outs(name, view):
    def outs(v, n):
        s, o = v["s"], []
        for _ in range(n):
            s = lc_step(name, s)
            o.append(view(s))
        return o
    return outs


def fam_outs(f):
    return lambda v, n: [f.view(r) if f.view(r).w >= 32 else r for r in f.run(f.st(v), n)[0]]


W32 = ("np.uint32", 32)
GENS = {
    # class: (import, state inputs, construction, outputs by draw function {name: (dtype, outs)})
    "PokeRNGMod": ("lcrng", [("s", 32)], "PokeRNGMod(np.uint32(inp[0]))", {
        "next": ("np.uint32", lcrng_outs("PokeRNGMod", lambda s: s)),
        "next_u16": ("np.uint16", lcrng_outs("PokeRNGMod", lambda s: T.extract(s, 31, 16)))}),
    "PokeRNGRDiv": ("lcrng", [("s", 32)], "PokeRNGRDiv(np.uint32(inp[0]))", {
        "next_u16": ("np.uint32", lcrng_outs("PokeRNGRDiv", lambda s: T.extract(s, 31, 16)))}),
    "BWRNG": ("lcrng", [("s", 64)], "BWRNG(np.uint64(inp[0]))", {
        "next": ("np.uint64", lcrng_outs("BWRNG", lambda s: s)),
        "next_u32": ("np.uint32", lcrng_outs("BWRNG", lambda s: T.extract(s, 63, 32)))}),
    "XDRNG": ("lcrng", [("s", 32)], "XDRNG(np.uint32(inp[0]))", {
        "next_u16": ("np.uint16", lcrng_outs("XDRNG", lambda s: T.extract(s, 31, 16)))}),
    "Xorshift128": ("xorshift", XS.ins, "Xorshift128(np.uint32(inp[0]), np.uint32(inp[1]), np.uint32(inp[2]), np.uint32(inp[3]))", {
        "next": ("np.uint32", lambda v, n: XS.run(XS.st(v), n)[0])}),
    "Xoroshiro128PlusRejection": ("xorshift", XR.ins, "Xoroshiro128PlusRejection(np.uint64(inp[0]), np.uint64(inp[1]))", {
        "next": ("np.uint64", lambda v, n: XR.run(XR.st(v), n)[0])}),
}


def imp(mod, cls, fn, dt, size):
    return f"""import numpy as np
from numba_pokemon_prngs.{mod} import {cls}
from numba_pokemon_prngs.rng_list import build_rnglist
L = build_rnglist(rng_class={cls}, next_function_name="{fn}", state_type={dt}, size={size})
"""


def window(cls, fn, size, ops, mx, reads=None, **k):
    """every history of `ops` operations; mx bounds advance_states"""
    mod, ins, make, fns = GENS[cls]
    dt, outs = fns[fn]
    reads = reads or size + 1
    name = f"history[{cls}.{fn},size {size},{ops} operations]"
    n = len(ins)
    src = imp(mod, cls, fn, dt, size) + f"""
def h(inp, out):
    l = L({make})
    for k in range({ops}):
        op = inp[{n} + 2 * k]
        a = inp[{n + 1} + 2 * k]
        if op == np.uint64(0):
            l.advance_state()
        elif op == np.uint64(1):
            if a == np.uint64(0):
                l.advance_states(np.uint32(0))
            elif a == np.uint64(1):
                l.advance_states(np.uint32(1))
            else:
                l.advance_states(np.uint32({mx}))
        elif op == np.uint64(2):
            l.advance(np.uint32(a))
        else:
            out[k] = np.uint64(l.get_value())
    for i in range({reads}):
        out[{ops} + i] = np.uint64(l.get_value())
"""
    oi = [(f"o{i}{x}", w) for i in range(ops) for x, w in (("", 2), ("a", 32))]

    def spec(v):
        o = [z64(x) for x in outs(v, mx * ops + size)]
        sb = max(6, (mx * ops + size).bit_length())  # bits of window start
        b, r, res = C(0, sb), C(0, 32), []

        def read(b, r):
            win = [T.lookup(o, T.add(b, C(j, sb)), 64) for j in range(size)]
            return T.lookup(win, T.extract(r, size.bit_length() - 2, 0), 64) if size > 1 else win[0]
        for i in range(ops):
            op, a = v[f"o{i}"], v[f"o{i}a"]
            is_ = [T.eq(op, C(j, 2)) for j in range(4)]
            res.append(T.ite(is_[3], read(b, r), C(0, 64)))
            many = T.ite(T.eq(a, C(0, 32)), C(0, sb), T.ite(T.eq(a, C(1, 32)), C(1, sb), C(mx, sb)))
            keep = T.or_(is_[2], is_[3], T.and_(is_[1], T.eq(a, C(0, 32))))
            r = T.ite(is_[2], T.add(r, a), T.ite(is_[3], T.add(r, C(1, 32)), T.ite(keep, r, C(0, 32))))
            b = T.add(b, T.ite(is_[0], C(1, sb), T.ite(is_[1], many, C(0, sb))))
        return res + [read(b, T.add(r, C(i, 32))) for i in range(reads)]

    obs.append(Ob(name, src, ins + oi, ops + reads, spec, merge=False,
                  bounds=f"every seed and every history of {ops} operations (advance_state, advance_states of 0, 1 or {mx}, "
                         f"advance by any 32-bit amount, get_value), then {reads} reads; window of {size}", **k))


window("PokeRNGMod", "next_u16", 4, 3, 3)
window("PokeRNGMod", "next_u16", 4, 4, 5, tier="thorough", wall=800, timeout=300)
window("PokeRNGMod", "next", 2, 2, 3)
window("PokeRNGMod", "next", 1, 2, 3)
window("PokeRNGRDiv", "next_u16", 8, 2, 9)
window("BWRNG", "next", 4, 2, 3)
window("BWRNG", "next_u32", 8, 2, 3)
window("XDRNG", "next_u16", 4, 2, 6)
window("Xorshift128", "next", 4, 2, 3)
window("Xoroshiro128PlusRejection", "next", 4, 2, 3)
window("PokeRNGMod", "next_u16", 512, 1, 300, reads=2)


def reinit(cls, fn, size):
    mod, ins, make, fns = GENS[cls]
    dt, outs = fns[fn]

    def spec(v):
        o = [z64(x) for x in outs(v, 3 * size + 3)]
        a = o[size + 3:]
        return [a[i % size] for i in range(size + 1)] + [o[2 * size + 3 + i] for i in range(size)]
    obs.append(Ob(f"re_init[{cls}.{fn},size {size}]", imp(mod, cls, fn, dt, size) + f"""
def h(inp, out):
    r = {make}
    l = L(r)
    l.advance_states(np.uint32(3))
    l.get_value()
    l.re_init()
    for i in range({size + 1}):
        out[i] = np.uint64(l.get_value())
    l.get_value()
    l.re_init()
    for i in range({size}):
        out[{size + 1} + i] = np.uint64(l.get_value())
""", ins, 2 * size + 1, spec, bounds="every seed; re-initialised in the middle of a window, twice"))


reinit("PokeRNGMod", "next_u16", 4)
reinit("BWRNG", "next", 8)
reinit("Xorshift128", "next", 2)


def shared():
    """the list draws from the generator it was given, not from a copy"""
    src = imp("lcrng", "PokeRNGMod", "next_u16", "np.uint16", 4) + """
def h(inp, out):
    r = PokeRNGMod(np.uint32(inp[0]))
    l = L(r)
    out[0] = np.uint64(r.next_u16())
    l.advance_state()
    for i in range(4):
        out[1 + i] = np.uint64(l.get_value())
    out[5] = np.uint64(r.next_u16())
"""

    def spec(v):
        o = [z64(x) for x in GENS["PokeRNGMod"][3]["next_u16"][1](v, 7)]
        return [o[4], o[1], o[2], o[3], o[5], o[6]]
    obs.append(Ob("generator-shared", src, [("s", 32)], 6, spec, bounds="every seed; draws interleaved with the list"))


shared()
obs.append(Ob("size-not-power-of-two", """import numpy as np
from numba_pokemon_prngs.lcrng import PokeRNGMod
from numba_pokemon_prngs.rng_list import build_rnglist
def h(inp, out):
    for n in (0, 3, 5, 6, 7, 12):
        try:
            build_rnglist(rng_class=PokeRNGMod, next_function_name="next_u16", state_type=np.uint32, size=n)
            out[0] = np.uint64(1)
        except AssertionError:
            pass
""", [("s", 32)], 1, lambda v: [C(0, 64)], modes=("numpy",), bounds="sizes 0, 3, 5, 6, 7, 12 are refused (concrete)"))
CHECK = Check("C17", obs, outside="longer histories: each operation only changes the window start and the read position, both symbolic here; sizes above 512")
