"""LCRNG bounded draws."""
from checks.common import *

PRELOAD = ["numba_pokemon_prngs.lcrng"]
obs = []


def draw(n, s, mx):
    """(next state, draw) for a 16/32-bit maximum"""
    w, _, _, _, dist = LCRNGS[n]
    s1 = lc_step(n, s)
    half = 16 if w == 32 else 32
    u = T.extract(s1, w - 1, w - half)
    if dist == "mod":
        return s1, T.urem(u, mx)
    if dist == "div":
        d = T.add(T.udiv(C(0xFFFF, 32), T.zext(mx, 32)), C(1, 32))
        return s1, T.trunc(T.udiv(T.zext(u, 32), d), 16)
    return s1, T.extract(T.mul(T.zext(u, 64), T.zext(mx, 64)), 63, 32)


KS = [1, 2, 3, 6, 25, 100, 0x8000, 0xFFFF]
for n, (w, m, a, rev, dist) in LCRNGS.items():
    ty = NPI[w]
    mw = 16 if w == 32 else 32
    mt = "np.uint16" if w == 32 else "np.uint32"

    def spec(v, n=n):
        s, d = draw(n, v["s"], v["m"])
        return [d, s]

    obs.append(Ob(f"next_rand[{n}]", LC_IMPORT + f"""
def h(inp, out):
    r = {n}({ty}(inp[0]))
    out[0] = r.next_rand({mt}(inp[1]))
    out[1] = r.seed
""", [("s", w), ("m", mw)], 2, spec, assume=lambda v: T.ne(v["m"], T.const(0, v["m"].w)),
        bounds=f"every seed, every maximum 1..2^{mw}-1",
        extra_samples=[{"s": 7, "m": 1}, {"s": 7, "m": (1 << mw) - 1}]))
    obs.append(Ob(f"range[{n}]", LC_IMPORT + f"""
def h(inp, out):
    r = {n}({ty}(inp[0]))
    out[0] = r.next_rand({mt}(inp[1]))
""", [("s", w), ("m", mw)], 1, post=lambda v, o: [("0 <= draw < maximum", T.ult(o[0], T.zext(v["m"], 64)))],
        assume=lambda v: T.ne(v["m"], T.const(0, v["m"].w)),
        bounds=f"every seed, every maximum 1..2^{mw}-1"))
    obs.append(Ob(f"const_rand[{n}]", LC_IMPORT + f"""
def h(inp, out):
    r = {n}({ty}(inp[0]))
    f = {n}.const_rand({mt}(inp[1]))
    out[0] = f(r)
    out[1] = r.seed
""", [("s", w), ("m", mw)], 2, spec, assume=lambda v: T.ne(v["m"], T.const(0, v["m"].w)), modes=("numpy",),
        bounds=f"every seed, every maximum 1..2^{mw}-1"))
    defs = "\n".join(f"f{i} = {n}.const_rand({mt}({k}))" for i, k in enumerate(KS))
    body = "\n".join(f"    out[{i}] = f{i}(r)" for i in range(len(KS)))

    def kspec(v, n=n, mw=mw):
        s = v["s"]
        o = []
        for k in KS:
            s, d = draw(n, s, C(k, mw))
            o.append(d)
        return o + [s]

    obs.append(Ob(f"const_rand-fixed[{n}]", LC_IMPORT + defs + f"""
def h(inp, out):
    r = {n}({ty}(inp[0]))
{body}
    out[{len(KS)}] = r.seed
""", [("s", w)], len(KS) + 1, kspec, bounds=f"every seed; maxima {KS} drawn in sequence", weight=2))
CHECK = Check("C04", obs, outside="maximum = 0 (no draw exists) and maxima wider than the documented type")
