"""LCRNG step law."""
from checks.common import *

PRELOAD = ["numba_pokemon_prngs.lcrng"]
obs = []
for n, (w, m, a, rev, dist) in LCRNGS.items():
    ty = NPI[w]
    half = 16 if w == 32 else 32
    hi = "next_u16" if w == 32 else "next_u32"

    def spec(v, n=n, w=w, half=half):
        s1 = lc_step(n, v["s"])
        s2 = lc_step(n, s1)
        s3 = lc_step(n, s2)
        b1 = lc_step(n, v["t"])
        return [v["s"], s1, s1, T.extract(s2, w - 1, w - half), s2, s3, v["t"], T.extract(b1, w - 1, w - half)]

    obs.append(Ob(f"step[{n}]", LC_IMPORT + f"""
def h(inp, out):
    r = {n}({ty}(inp[0]))
    out[0] = r.seed
    out[1] = r.next()
    out[2] = r.seed
    out[3] = r.{hi}()
    out[4] = r.seed
    out[5] = r.next()
    r.re_init({ty}(inp[1]))
    out[6] = r.seed
    out[7] = r.{hi}()
""", [("s", w), ("t", w)], 8, spec, bounds="every seed; three consecutive draws, re-initialisation with every second seed"))

CHECK = Check("C01", obs, outside="seeds wider than the generator's state are truncated before use")
