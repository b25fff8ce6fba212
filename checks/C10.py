"""Xorshift128 and Xoroshiro128+ forward laws and seeding."""
from checks.common import *

PRELOAD = ["numba_pokemon_prngs.xorshift", "numba_pokemon_prngs.util"]
obs = []
N = 5
for f in FAMS:
    def spec(v, f=f):
        st, o = f.st(v), []
        for _ in range(N):
            st, r = f.step(st)
            o += [f.view(r)] + st
        return o

    k = f.nw
    obs.append(Ob(f"step[{f.cls}]", XO_IMP + f"""
def h(inp, out):
{f.make}    for i in range({N}):
        out[{k + 1} * i] = r.next()
        for j in range({k}):
            out[{k + 1} * i + 1 + j] = r.state[j]
""", f.ins, N * (k + 1), spec, bounds=f"every state, {N} draws with the states between them"))

RE = [("t0", 64), ("t1", 64)]


def sm(v, seed, n=3):
    return XM.run([splitmix_word(seed, 1), splitmix_word(seed, 2)], n)[0]


obs += [
    Ob("seed[SplitMixXoroshiro128Plus]", XO_IMP + """
def h(inp, out):
    r = SplitMixXoroshiro128Plus(np.uint64(inp[0]))
    out[0] = r.state[0]
    out[1] = r.state[1]
    for i in range(3):
        out[2 + i] = r.next()
    r.re_init(np.uint64(inp[1]))
    out[5] = r.state[0]
    out[6] = r.state[1]
    for i in range(3):
        out[7 + i] = r.next()
""", [("s", 64), ("t", 64)], 10, lambda v: [splitmix_word(v["s"], 1), splitmix_word(v["s"], 2)] + sm(v, v["s"]) +
       [splitmix_word(v["t"], 1), splitmix_word(v["t"], 2)] + sm(v, v["t"]),
       bounds="every pair of seeds: construction, three draws, re-initialisation, three draws"),
    Ob("splitmix", XO_IMP + """
def h(inp, out):
    out[0] = SplitMixXoroshiro128Plus.splitmix(np.uint64(inp[0]), np.uint64(inp[1]))
""", [("s", 64), ("k", 64)], 1, lambda v: [splitmix_word(T.add(v["s"], v["k"]), 0)], modes=("numpy",),
       bounds="every seed and every additive state"),
    Ob("seed[Xoroshiro128PlusRejection]", XO_IMP + """
def h(inp, out):
    r = Xoroshiro128PlusRejection(np.uint64(inp[0]), np.uint64(inp[1]))
    out[0] = r.next()
    out[1] = r.next()
    r.re_init(np.uint64(inp[2]))
    out[2] = r.next()
    out[3] = r.next()
    r.re_init(np.uint64(inp[1]), np.uint64(inp[0]))
    out[4] = r.next()
    out[5] = r.next()
""", [("s", 64), ("t", 64), ("u", 64)], 6, lambda v: XR.run([v["s"], v["t"]], 2)[0] +
       XR.run([v["u"], C(0x82A2B175229D6A5B, 64)], 2)[0] + XR.run([v["t"], v["s"]], 2)[0],
       bounds="every seed pair: construction, re-initialisation with the default and with a given second word"),
    # numba 0.59 cannot call a jitclass *constructor* with a defaulted argument from compiled code, so
    # this form is encoded in interpreted mode only
    Ob("default[Xoroshiro128PlusRejection]", XO_IMP + """
def h(inp, out):
    r = Xoroshiro128PlusRejection(np.uint64(inp[0]))
    out[0] = r.next()
    out[1] = r.next()
""", [("s", 64)], 2, lambda v: XR.run([v["s"], C(0x82A2B175229D6A5B, 64)], 2)[0],
       modes=("numpy",), bounds="every seed: construction with the default second word"),
    Ob("seed[Xorshift128]", XO_IMP + """
def h(inp, out):
    r = Xorshift128(np.uint32(inp[4]), np.uint32(inp[5]), np.uint32(inp[6]), np.uint32(inp[7]))
    r.next()
    r.re_init(np.uint32(inp[0]), np.uint32(inp[1]), np.uint32(inp[2]), np.uint32(inp[3]))
    for i in range(5):
        out[i] = r.next()
""", XS.ins + [(f"t{i}", 32) for i in range(4)], 5, lambda v: XS.run(XS.st(v), 5)[0],
       bounds="every pair of states: re-initialisation after a draw"),
]
CHECK = Check("C10", obs, outside="longer runs follow from the step law, which holds for every state")
