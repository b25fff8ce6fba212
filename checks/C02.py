"""Reversed LCRNGs are exact inverses of their forward partners."""
from checks.common import *

PRELOAD = ["numba_pokemon_prngs.lcrng"]
PAIRS = [("PokeRNGMod", "PokeRNGRMod"), ("PokeRNGDiv", "PokeRNGRDiv"), ("ARNG", "ARNGR"), ("XDRNG", "XDRNGR"),
         ("BWRNG", "BWRNGR")]
obs = []
for f, r in PAIRS:
    w = LCRNGS[f][0]
    ty = NPI[w]
    hi = "next_u16" if w == 32 else "next_u32"

    def spec(v, f=f, w=w):
        half = 16 if w == 32 else 32
        s1 = lc_step(f, v["s"])
        s2 = lc_step(f, s1)
        s3 = lc_step(f, s2)
        return [s2, s1, v["s"], s3, v["s"], v["s"], T.extract(s2, w - 1, w - half)]

    obs.append(Ob(f"inverse[{f}]", LC_IMPORT + f"""
def h(inp, out):
    a = {f}({ty}(inp[0]))
    for _ in range(3):
        a.next()
    b = {r}(a.seed)
    out[0] = b.next()
    out[1] = b.next()
    out[2] = b.next()
    c = {r}({ty}(inp[0]))
    for _ in range(3):
        c.next()
    d = {f}(c.seed)
    d.next()
    d.next()
    d.next()
    out[4] = d.seed
    # interleaved: one step forward, one back
    e = {f}({ty}(inp[0]))
    g = {r}(e.next())
    out[5] = g.next()
    # three forward, one back: the half word of the state two steps ahead
    for _ in range(2):
        e.next()
    out[3] = e.seed
    g.re_init(e.seed)
    out[6] = g.{hi}()
""", [("s", w)], 7, spec, bounds="every seed; three steps each way, interleavings of forward and back"))

    for cls, other, tag in ((f, r, "fwd"), (r, f, "rev")):
        obs.append(Ob(f"jump-back[{cls}]", LC_IMPORT + f"""
def h(inp, out):
    a = {cls}({ty}(inp[0]))
    a.jump({ty}(inp[1]))
    b = {other}(a.seed)
    out[0] = b.jump({ty}(inp[1]))
""", [("s", w), ("n", w if w == 32 else 64)], 1, lambda v: [v["s"]],
            assume=lambda v: T.ult(v["n"], T.const(64, v["n"].w)), merge=False,
            bounds="every seed; jumps of 0 to 63 there and back"))
CHECK = Check("C02", obs, outside="longer there-and-back sequences follow from single steps (C01, C03)")
