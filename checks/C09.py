"""Bounded draws of the Mersenne Twisters."""
from checks.common import *

PRELOAD = ["numba_pokemon_prngs.mersenne_twister"]
IMP = "import numpy as np\nfrom numba_pokemon_prngs.mersenne_twister import *\n"
obs = []
SEED = 5


def first(cls, v, n):
    """the first n draws of a generator whose words 0, 1, 397 (Tiny: all four; SFMT: 0..3) are the inputs"""
    w = [v[f"s{i}"] for i in range(4)]
    if cls == "TinyMersenneTwister":
        return tiny_outputs(w, n)[0]
    if cls == "MersenneTwister":
        st = mt_init(C(SEED, 32))
        st[0], st[1], st[397], st[398] = w
        return mt_outputs(st, n)
    st = sfmt_init(C(SEED, 32))
    st[0:4] = w
    return sfmt_outputs(st, n)


WHERE = {"MersenneTwister": (0, 1, 397, 398), "SIMDFastMersenneTwister": (0, 1, 2, 3), "TinyMersenneTwister": (0, 1, 2, 3)}
S4 = [(f"s{i}", 32) for i in range(4)]
for cls in WHERE:
    w = 64 if cls.startswith("SIMD") else 32
    ty = NPI[w]
    fns = ["next_rand"] if w == 64 else ["next_rand", "next_rand_mod"]
    sets = "\n".join(f"    r.state[{k}] = np.uint32(inp[{i}])" for i, k in enumerate(WHERE[cls]))
    for fn in fns:
        def image(u, m, fn=fn, w=w):
            if w == 32 and fn == "next_rand":
                return T.lshr(T.mul(T.zext(u, 64), T.zext(m, 64)), C(32, 64))
            return T.urem(u, m)

        def spec(v, cls=cls, image=image):
            u = first(cls, v, 4)
            return [image(u[0], v["m"]), image(u[1], v["k"]), u[2], image(u[3], v["m"])]

        obs.append(Ob(f"{fn}[{cls}]", IMP + f"""
def h(inp, out):
    r = {cls}(np.uint32({SEED}))
{sets}
    out[0] = r.{fn}({ty}(inp[4]))
    out[1] = r.{fn}({ty}(inp[5]))
    out[2] = r.next()
    out[3] = r.{fn}({ty}(inp[4]))
""", S4 + [("m", w), ("k", w)], 4, spec,
            assume=lambda v, w=w: T.and_(T.not_(T.eq(v["m"], C(0, w))), T.not_(T.eq(v["k"], C(0, w)))),
            bounds="every pair of maxima >= 1, draws from every value of the four state words they depend on",
            extra_samples=[{"m": 1, "k": T.mask(w)}]))

        obs.append(Ob(f"{fn}-range[{cls}]", IMP + f"""
def h(inp, out):
    r = {cls}(np.uint32({SEED}))
{sets}
    out[0] = r.{fn}({'np.uint64' if w == 64 else 'np.uint32'}(inp[4]))
""", S4 + [("m", w)], 1, post=lambda v, out: [("below the maximum", T.ult(out[0], z64(v["m"])))],
            assume=lambda v, w=w: T.not_(T.eq(v["m"], C(0, w))), bounds="every maximum >= 1"))
CHECK = Check("C09", obs, outside="maximum 0 (no value is below it)")
