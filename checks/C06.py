"""SIMDFastMersenneTwister is reference SFMT19937 (64-bit output)."""
from checks.common import *

PRELOAD = ["numba_pokemon_prngs.mersenne_twister"]
IMP = "import numpy as np\nfrom numba_pokemon_prngs.mersenne_twister import SIMDFastMersenneTwister\n"
obs = [
    Ob("init", IMP + """
def h(inp, out):
    r = SIMDFastMersenneTwister(np.uint32(inp[0]))
    for i in range(624):
        out[i] = r.state[i]
""", [("s", 32)], 624, lambda v: sfmt_init(v["s"]), bounds="every seed; all 624 words", unroll=1300),
    Ob("re_init", IMP + """
def h(inp, out):
    r = SIMDFastMersenneTwister(np.uint32(inp[1]))
    for _ in range(3):
        r.next()
    r.re_init(np.uint32(inp[0]))
    for i in range(624):
        out[i] = r.state[i]
    out[624] = r.next()
""", [("s", 32), ("t", 32)], 625, lambda v: sfmt_init(v["s"]) + sfmt_outputs(sfmt_init(v["s"]), 1),
       bounds="every pair of seeds; re-initialised after three draws", unroll=1300),
    Ob("block", IMP + """
def h(inp, out):
    r = SIMDFastMersenneTwister(np.uint32(1))
    for i in range(624):
        r.state[i] = np.uint32(inp[i])
    for i in range(625):
        out[i] = r.next()
""", [(f"s{i}", 32) for i in range(624)], 625, lambda v: sfmt_outputs([v[f"s{i}"] for i in range(624)], 625),
       bounds="every state of 624 words; the next 625 draws (two regenerations and a bit)", unroll=1300, weight=3,
       samples=3),
    Ob("sequence", IMP + """
def h(inp, out):
    r = SIMDFastMersenneTwister(np.uint32(inp[0]))
    for i in range(630):
        out[i] = r.next()
""", [("s", 32)], 630, lambda v: sfmt_outputs(sfmt_init(v["s"]), 630), bounds="every seed; the first 630 draws",
       unroll=1300, weight=3, samples=3, modes=("numpy",)),
    Ob("sequence-start", IMP + """
def h(inp, out):
    r = SIMDFastMersenneTwister(np.uint32(inp[0]))
    for i in range(20):
        out[i] = r.next()
""", [("s", 32)], 20, lambda v: sfmt_outputs(sfmt_init(v["s"]), 20), bounds="every seed; the first 20 draws",
       unroll=1300, modes=("numba",)),
    Ob("re-init-vs-new", IMP + """
def h(inp, out):
    r = SIMDFastMersenneTwister(np.uint32(inp[1]))
    for i in range(624):
        r.state[i] = np.uint32(inp[2])
    r.index = np.uint16(6)
    r.re_init(np.uint32(inp[0]))
    for i in range(16):
        out[i] = r.next()
""", [("s", 32), ("t", 32), ("x", 32)], 16, lambda v: sfmt_outputs(sfmt_init(v["s"]), 16),
       bounds="every pair of seeds; re-initialised at an unusual position over an overwritten state", unroll=1300),
]
CHECK = Check("C06", obs, outside="draws beyond the second block follow from the block law, which holds for every state")
