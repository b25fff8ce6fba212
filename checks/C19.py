"""FNV hashes."""
from checks.common import *

PRELOAD = ["numba_pokemon_prngs.fnv"]
IMP = "import numpy as np\nfrom numba_pokemon_prngs.fnv import fnv1_64, fnv1a_64\n"
obs = []
PRIME, BASIS = C(0x100000001B3, 64), C(0xCBF29CE484222645, 64)


def fnv(cs, xor_first):
    h = BASIS
    for c in cs:
        c = T.zext(c, 64)
        h = T.mul(T.xor(h, c), PRIME) if xor_first else T.xor(T.mul(h, PRIME), c)
    return h


def ob(n, w, what, **k):
    def spec(v):
        cs = [v[f"c{i}"] for i in range(n)]
        return [fnv(cs, False), fnv(cs, True)]
    build = " + ".join(f"chr(int(inp[{i}]))" for i in range(n)) or '""'
    obs.append(Ob(f"fnv[{n} characters,{what}]", IMP + f"""
def h(inp, out):
    s = {build}
    out[0] = fnv1_64(s)
    out[1] = fnv1a_64(s)
""", [(f"c{i}", w) for i in range(n)] or [("unused", 1)], 2, spec, bounds=f"every string of {n} characters, {what} code points", **k))


for n in (0, 1, 2, 3, 4, 5, 6, 7, 8, 16, 32):
    ob(n, 8, "Latin-1")
for n in (1, 2, 3):
    ob(n, 16, "16-bit")
for n in (1, 2):
    ob(n, 21, "Unicode", assume=lambda v: T.and_(*[T.ult(x, C(0x110000, 21)) for k, x in v.items() if k[0] == "c"]))
CHECK = Check("C19", obs, outside="strings over 32 characters (one more character is one more step of the same law); longer strings beyond Latin-1")
