"""Bit utilities."""
from checks.common import *

PRELOAD = ["numba_pokemon_prngs.util"]
IMP = "import numpy as np\nfrom numba_pokemon_prngs.util import *\n"
obs = [
    Ob("change_endian_u32", IMP + """
def h(inp, out):
    out[0] = change_endian_u32(np.uint32(inp[0]))
    out[1] = change_endian_u32(change_endian_u32(np.uint32(inp[0])))
""", [("x", 32)], 2, lambda v: [T.concat(*[T.extract(v["x"], 8 * i + 7, 8 * i) for i in range(4)]), v["x"]],
       bounds="every 32-bit value"),
]


def rotl_sym(x, n, right=False):
    w = x.w
    n = T.zext(n, w)
    m = T.sub(C(w, w), n)
    return T.or_(T.lshr(x, n), T.shl(x, m)) if right else T.or_(T.shl(x, n), T.lshr(x, m))


for w in (32, 64):
    obs.append(Ob(f"rotate[{w}]", IMP + f"""
def h(inp, out):
    x = np.uint{w}(inp[0])
    n = np.uint8(inp[1])
    out[0] = rotate_left_u{w}(x, n)
    out[1] = rotate_right_u{w}(x, n)
    out[2] = rotate_right_u{w}(rotate_left_u{w}(x, n), n)
    out[3] = rotate_left_u{w}(rotate_right_u{w}(x, n), n)
    out[4] = rotate_left_u{w}(x, np.uint8({w}) - n)
""", [("x", w), ("n", 8)], 5, lambda v: [rotl_sym(v["x"], v["n"]), rotl_sym(v["x"], v["n"], True), v["x"], v["x"], rotl_sym(v["x"], v["n"], True)],
        assume=lambda v, w=w: T.and_(T.ult(C(0, 8), v["n"]), T.ult(v["n"], C(w, 8))),
        bounds=f"every {w}-bit value, every count 1 to {w - 1}"))
obs.append(Ob("hex_32", IMP + """
def h(inp, out):
    s = hex_32(np.uint32(inp[0]))
    out[0] = len(s)
    for i in range(8):
        out[1 + i] = ord(s[i])
""", [("x", 32)], 9, lambda v: [C(8, 64)] + [
    T.lookup([C(ord(c), 8) for c in "0123456789ABCDEF"], T.extract(v["x"], 31 - 4 * i, 28 - 4 * i), 8) for i in range(8)],
    bounds="every 32-bit value"))
CHECK = Check("C18", obs, outside="rotation counts outside 1 to width-1")
