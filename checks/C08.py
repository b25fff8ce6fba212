"""advance(n) of the Mersenne Twisters equals n discarded draws."""
from checks.common import *

PRELOAD = ["numba_pokemon_prngs.mersenne_twister"]
IMP = "import numpy as np\nfrom numba_pokemon_prngs.mersenne_twister import *\n"
SEED = 0x1234ABCD
K = 2   # regenerations explored inside advance()
obs = []
SEQ = {}


def blocks(cls):
    """the state words of the successive regenerations"""
    if cls not in SEQ:
        mt = cls == "MersenneTwister"
        st = (mt_init if mt else sfmt_init)(C(SEED, 32))
        SEQ[cls] = []
        for _ in range(K + 4):
            st = (mt_twist if mt else sfmt_twist)(st)
            SEQ[cls].append(st)
    return SEQ[cls]


def at(cls, p, per):
    """the p-th draw (p a 64-bit term), block by block"""
    r = C(0, 64)
    for b in reversed(range(K + 4)):
        words = blocks(cls)[b]
        q = T.extract(T.sub(p, C(per * b, 64)), 15, 0)
        if cls == "MersenneTwister":
            x = z64(mt_temper(T.lookup(words, q, 32)))
        else:
            q = T.shl(q, C(1, 16))
            x = T.concat(T.lookup(words, T.add(q, C(1, 16)), 32), T.lookup(words, q, 32))
        r = T.ite(T.ult(p, C(per * (b + 1), 64)), x, r)
    return r


for cls, per in (("MersenneTwister", 624), ("SIMDFastMersenneTwister", 312)):
    for d in (0, 1, per):
        obs.append(Ob(f"advance[{cls},{d}]", IMP + f"""
def h(inp, out):
    r = {cls}(np.uint32({SEED}))
    for _ in range({d}):
        r.next()
    r.advance(np.uint32(inp[0]))
    for j in range(2):
        out[j] = r.next()
""", [("n", 32)], 2, spec=lambda v, cls=cls, per=per, d=d: [
            at(cls, T.add(z64(v["n"]), C(d + j, 64)), per) for j in range(2)], post=lambda v, out, cls=cls, per=per, d=d: [
            ("no distance beyond the regenerations done is accepted", T.ult(z64(v["n"]), C(per * (K + 3), 64)))],
            unroll=K, samples=0, extra_samples=[{"n": x} for x in (0, 1, per - 1, per, per + 1, 2 * per, 2 * per + 5)],
            max_values=1 << 12, wall=250, weight=2, tier="thorough" if d == per else "quick",
            bounds=f"every 32-bit distance that ends within {K} regenerations, after {d} draws (one seed; the index "
                   "arithmetic does not read the state)"))
        # there and back again: two advances in a row
    obs.append(Ob(f"advance-twice[{cls}]", IMP + f"""
def h(inp, out):
    r = {cls}(np.uint32({SEED}))
    r.advance(np.uint32(inp[0]))
    r.advance(np.uint32(inp[1]))
    out[0] = r.next()
    r.advance(np.uint32(inp[1]))
    out[1] = r.next()
""", [("n", 10), ("m", 10)], 2, spec=lambda v, cls=cls, per=per: [
        at(cls, T.add(z64(v["n"]), z64(v["m"])), per),
        at(cls, T.add(T.add(z64(v["n"]), C(1, 64)), T.mul(C(2, 64), z64(v["m"]))), per)],
        assume=lambda v: T.and_(T.ult(v["n"], C(3, 10)), T.ult(v["m"], C(700, 10))), unroll=8, samples=4, max_values=1 << 12, wall=250, weight=2, tier="thorough",
        bounds="distances 0..2 then 0..699 twice"))
obs.append(Ob("advance[TinyMersenneTwister]", IMP + """
def h(inp, out):
    r = TinyMersenneTwister(np.uint32(1))
    for i in range(4):
        r.state[i] = np.uint32(inp[1 + i])
    r.advance(np.uint32(inp[0]))
    out[0] = r.next()
    out[1] = r.next()
""", [("n", 32)] + [(f"s{i}", 32) for i in range(4)], 2, spec=lambda v: (lambda o: [
    T.lookup(o[:12], v["n"], 32), T.lookup(o[1:13], v["n"], 32)])(tiny_outputs([v[f"s{i}"] for i in range(4)], 14)[0]),
    assume=lambda v: T.ult(v["n"], C(10, 32)), bounds="every state; distances 0 to 9", merge=False))
CHECK = Check("C08", obs, outside="distances that need more regenerations repeat the same loop body; the Tiny twister beyond 9")
