"""LCRNG jump / const_jump / advance equal repeated single steps."""
from checks.common import *

PRELOAD = ["numba_pokemon_prngs.lcrng"]
obs = []
CONSTS = {32: [0, 1, 2, 3, 0x80000000, 0xFFFFFFFF, 0x12345678],
          64: [0, 1, 2, 3, 1 << 63, (1 << 64) - 1, 0x123456789ABCDEF]}


def composed(n, s, k):
    """the jump as one affine map whose coefficients are composed bit by bit"""
    w, m, a = lc_consts(n)
    rm, ra = C(1, w), C(0, w)
    for i in range(k.w):
        bm, ba = lc_compose(w, m, a, 1 << i)
        b = T.extract(k, i, i)
        rm = T.ite(b, T.mul(rm, C(bm, w)), rm)
        ra = T.ite(b, T.add(T.mul(ra, C(bm, w)), C(ba, w)), ra)
    return T.add(T.mul(s, rm), ra)


def fixed(n, s, k):
    w, m, a = lc_consts(n)
    m, a = lc_compose(w, m, a, k)
    return T.add(T.mul(C(m, w), s), C(a, w))


for n, (w, m, a, rev, dist) in LCRNGS.items():
    ty = NPI[w]

    def jspec(v, n=n):
        r = lc_jump(n, v["s"], v["n"])
        return [r, r]

    def aspec(v, n=n):
        r = lc_jump(n, v["s"], T.trunc(v["n"], 3))
        return [r, r]

    obs.append(Ob(f"jump[{n}]", LC_IMPORT + f"""
def h(inp, out):
    r = {n}({ty}(inp[0]))
    out[0] = r.jump({ty}(inp[1]))
    out[1] = r.seed
""", [("s", w), ("n", w)], 2, jspec, bounds=f"every seed and every {w}-bit distance", unroll=80, weight=3,
        extra_samples=[{"s": 5, "n": (1 << w) - 1}, {"s": 5, "n": 1 << (w - 1)}]))
    obs.append(Ob(f"jump-int[{n}]", LC_IMPORT + f"""
def h(inp, out):
    r = {n}({ty}(inp[0]))
    out[0] = r.jump(int(inp[1]))
    out[1] = r.seed
""", [("s", w), ("n", w)], 2, jspec, bounds=f"every seed and every {w}-bit distance given as a Python int",
        unroll=80, modes=("numpy",)))
    obs.append(Ob(f"jump-short[{n}]", LC_IMPORT + f"""
def h(inp, out):
    r = {n}({ty}(inp[0]))
    out[0] = r.jump({ty}(inp[1]))
    out[1] = r.seed
""", [("s", w), ("n", w)], 2, jspec, assume=lambda v: T.ult(v["n"], T.const(64, v["n"].w)), merge=False,
        bounds="every seed; distances 0 to 63, path by path"))
    for sh in range(0, w, 8 if w == 32 else 16):
        for suffix, conv in (("", "int"), ("-np", ty)):
            obs.append(Ob(f"const_jump{suffix}-window[{n},{sh}]", LC_IMPORT + f"""
def h(inp, out):
    r = {n}({ty}(inp[0]))
    f = {n}.const_jump({conv}({ty}(inp[1]) << {ty}({sh})))
    out[0] = f(r)
    out[1] = r.seed
""", [("s", w), ("n", w)], 2, lambda v, n=n, w=w, sh=sh: [lc_jump(n, v["s"], T.shl(v["n"], C(sh, w)))] * 2,
                assume=lambda v, w=w: T.ult(v["n"], C(64, w)), merge=False, modes=("numpy",),
                bounds=f"every seed; distances x*2^{sh} for x in 0..63"))
    def cspec(v, n=n):
        r = composed(n, v["s"], v["n"])
        return [r, r]

    obs.append(Ob(f"const_jump[{n}]", LC_IMPORT + f"""
def h(inp, out):
    r = {n}({ty}(inp[0]))
    f = {n}.const_jump(int(inp[1]))
    out[0] = f(r)
    out[1] = r.seed
""", [("s", w), ("n", w)], 2, cspec, bounds=f"every seed and every {w}-bit distance given as a Python int", unroll=80,
        modes=("numpy",), tier="thorough"))
    obs.append(Ob(f"const_jump-np[{n}]", LC_IMPORT + f"""
def h(inp, out):
    r = {n}({ty}(inp[0]))
    f = {n}.const_jump({ty}(inp[1]))
    out[0] = f(r)
    out[1] = r.seed
""", [("s", w), ("n", w)], 2, cspec, bounds=f"every seed and every {w}-bit distance given as a numpy scalar",
        unroll=80, modes=("numpy",), tier="thorough"))
    ks = CONSTS[w]
    defs = "\n".join(f"j{i} = {n}.const_jump({k})" for i, k in enumerate(ks))
    body = "\n".join(f"    r.re_init({ty}(inp[0]))\n    out[{2 * i}] = j{i}(r)\n    out[{2 * i + 1}] = r.seed"
                     for i in range(len(ks)))

    def kspec(v, n=n, ks=ks):
        o = []
        for k in ks:
            x = fixed(n, v["s"], k)
            o += [x, x]
        return o

    obs.append(Ob(f"const_jump-fixed[{n}]", LC_IMPORT + defs + f"""
def h(inp, out):
    r = {n}({ty}(inp[0]))
{body}
""", [("s", w)], 2 * len(ks), kspec, bounds="every seed; distances " + ", ".join(hex(k) for k in ks), weight=3))
    obs.append(Ob(f"advance[{n}]", LC_IMPORT + f"""
def h(inp, out):
    r = {n}({ty}(inp[0]))
    out[0] = r.advance({ty}(inp[1]))
    out[1] = r.seed
""", [("s", w), ("n", w)], 2, aspec, assume=lambda v: T.ult(v["n"], T.const(8, v["n"].w)),
        bounds="every seed; distances 0 to 7"))
    # histories: jump after draws, draws after jump
    def hspec(v, n=n, w=w):
        s = lc_step(n, v["s"])
        s = lc_jump(n, s, v["n"])
        s1 = lc_step(n, s)
        s2 = lc_jump(n, s1, v["m"])
        return [s, s1, s2]

    obs.append(Ob(f"mixed[{n}]", LC_IMPORT + f"""
def h(inp, out):
    r = {n}({ty}(inp[0]))
    r.next()
    out[0] = r.jump({ty}(inp[1]))
    out[1] = r.next()
    out[2] = r.jump({ty}(inp[2]))
""", [("s", w), ("n", 4), ("m", 4)], 3, hspec, bounds="every seed; jumps of 0 to 15 between draws", merge=False))
CHECK = Check("C03", obs, outside="advance() beyond 7 steps: the loop body is one draw (C01)")
