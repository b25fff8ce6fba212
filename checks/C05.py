"""MersenneTwister is reference MT19937."""
from checks.common import *

PRELOAD = ["numba_pokemon_prngs.mersenne_twister"]
IMP = "import numpy as np\nfrom numba_pokemon_prngs.mersenne_twister import MersenneTwister\n"
obs = [
    Ob("init", IMP + """
def h(inp, out):
    r = MersenneTwister(np.uint32(inp[0]))
    for i in range(624):
        out[i] = r.state[i]
""", [("s", 32)], 624, lambda v: mt_init(v["s"]), bounds="every seed; all 624 words", unroll=1300),
    Ob("re_init", IMP + """
def h(inp, out):
    r = MersenneTwister(np.uint32(inp[1]))
    for _ in range(3):
        r.next()
    r.re_init(np.uint32(inp[0]))
    for i in range(624):
        out[i] = r.state[i]
    out[624] = r.next()
""", [("s", 32), ("t", 32)], 625, lambda v: mt_init(v["s"]) + [mt_temper(mt_twist(mt_init(v["s"]))[0])],
       bounds="every pair of seeds; re-initialised after three draws", unroll=1300),
    Ob("re_init-at-block-end", IMP + """
def h(inp, out):
    r = MersenneTwister(np.uint32(inp[1]))
    for _ in range(624):
        r.next()
    r.re_init(np.uint32(inp[0]))
    for i in range(4):
        out[i] = r.next()
""", [("s", 32), ("t", 32)], 4, lambda v: [mt_temper(x) for x in mt_twist(mt_init(v["s"]))[:4]],
       bounds="every pair of seeds; re-initialised after a whole block", unroll=1300),
    Ob("block", IMP + """
def h(inp, out):
    r = MersenneTwister(np.uint32(1))
    for i in range(624):
        r.state[i] = np.uint32(inp[i])
    for i in range(1249):
        out[i] = r.next()
""", [(f"s{i}", 32) for i in range(624)], 1249, lambda v: mt_outputs([v[f"s{i}"] for i in range(624)], 1249),
       bounds="every state of 624 words; the next 1249 draws (two regenerations and a bit)", unroll=1300, weight=3,
       samples=3),
    Ob("sequence", IMP + """
def h(inp, out):
    r = MersenneTwister(np.uint32(inp[0]))
    for i in range(1250):
        out[i] = r.next()
""", [("s", 32)], 1250, lambda v: mt_outputs(mt_init(v["s"]), 1250), bounds="every seed; the first 1250 draws",
       unroll=1300, weight=3, samples=3),
    Ob("re-init-vs-new", IMP + """
def h(inp, out):
    r = MersenneTwister(np.uint32(inp[1]))
    for i in range(624):
        r.state[i] = np.uint32(inp[2])
    r.index = np.uint16(5)
    r.re_init(np.uint32(inp[0]))
    for i in range(630):
        out[i] = r.next()
""", [("s", 32), ("t", 32), ("x", 32)], 630, lambda v: mt_outputs(mt_init(v["s"]), 630),
       bounds="every pair of seeds; re-initialised at an unusual position over an overwritten state", unroll=1300),
]
CHECK = Check("C05", obs, outside="draws beyond the second block follow from the block law, which holds for every state")
