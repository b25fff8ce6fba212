"""TinyMersenneTwister is reference TinyMT32."""
from checks.common import *

PRELOAD = ["numba_pokemon_prngs.mersenne_twister"]
IMP = "import numpy as np\nfrom numba_pokemon_prngs.mersenne_twister import TinyMersenneTwister\n"
SET = """
    for i in range(4):
        r.state[i] = np.uint32(inp[i])
"""
ST = [(f"s{i}", 32) for i in range(4)]


def st(v):
    return [v[f"s{i}"] for i in range(4)]


def steps(v):
    s, out = st(v), []
    for _ in range(4):
        s = tiny_next_state(s)
        out += [tiny_temper(s)] + s
    return out


def re_spec(v):
    i = tiny_init(v["s"])
    return i + tiny_outputs(i, 2)[0]


obs = [
    Ob("certified", IMP + """
def h(inp, out):
    r = TinyMersenneTwister(np.uint32(inp[0]))
    out[0] = 1
""", [("s", 32)], 1, post=lambda v, out: [("no 32-bit seed needs the all-zero fallback", T.not_(tiny_init_zero(v["s"])))],
       bounds="every seed; the reference's fallback is unreachable, so the init law needs no case for it"),
    Ob("init", IMP + """
def h(inp, out):
    r = TinyMersenneTwister(np.uint32(inp[0]))
    for i in range(4):
        out[i] = r.state[i]
""", [("s", 32)], 4, lambda v: tiny_init(v["s"]), bounds="every seed"),
    Ob("re_init", IMP + """
def h(inp, out):
    r = TinyMersenneTwister(np.uint32(inp[1]))
    for i in range(4):
        r.state[i] = np.uint32(inp[2 + i])
    r.next()
    r.re_init(np.uint32(inp[0]))
    for i in range(4):
        out[i] = r.state[i]
    out[4] = r.next()
    out[5] = r.next()
""", [("s", 32), ("t", 32)] + ST, 6, re_spec, bounds="every pair of seeds, re-initialised from every state"),
    Ob("step", IMP + """
def h(inp, out):
    r = TinyMersenneTwister(np.uint32(1))""" + SET + """
    for i in range(4):
        out[5 * i] = r.next()
        for j in range(4):
            out[5 * i + 1 + j] = r.state[j]
""", ST, 20, steps, bounds="every 128-bit state, four draws with the states between them",
       extra_samples=[{"s0": 0xFFFFFFFF, "s1": 0xFFFFFFFF, "s2": 0xFFFFFFFF, "s3": 0xFFFFFFFF}]),
    Ob("pieces", IMP + """
def h(inp, out):
    r = TinyMersenneTwister(np.uint32(1))""" + SET + """
    out[0] = r.temper()
    r.shuffle()
    for j in range(4):
        out[1 + j] = r.state[j]
""", ST, 5, lambda v: [tiny_temper(st(v))] + tiny_next_state(st(v)),
       bounds="every 128-bit state; transition and tempering on their own"),
    Ob("sequence", IMP + """
def h(inp, out):
    r = TinyMersenneTwister(np.uint32(inp[0]))
    for i in range(16):
        out[i] = r.next()
""", [("s", 32)], 16, lambda v: tiny_outputs(tiny_init(v["s"]), 16)[0], bounds="every seed; the first 16 draws"),
]
CHECK = Check("C07", obs, outside="later draws follow from the step law, which holds for every state")
