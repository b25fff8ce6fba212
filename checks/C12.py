"""Bounded draws and advance of the xorshift family."""
from checks.common import *

PRELOAD = ["numba_pokemon_prngs.xorshift", "numba_pokemon_prngs.util"]
obs = []


def nz(*names):
    return lambda v: T.and_(*[T.not_(T.eq(v[n], C(0, v[n].w))) for n in names])


def rng_val(u, lo, hi):
    """lo + u mod (hi - lo), over 32-bit wrap-around"""
    return T.add(T.urem(u, T.sub(hi, lo)), lo)


# ---- Xorshift128
def xs_spec(v):
    u, st = XS.run(XS.st(v), 4)
    alt = rng_val(u[1], C(0x80000000, 32), C(0x7FFFFFFF, 32))
    return [T.urem(u[0], v["m"]), T.urem(alt, v["m"]), rng_val(u[2], v["a"], v["b"]), u[3]]


XS_RANGE = lambda v: T.and_(nz("m")(v), T.slt(v["a"], v["b"]))  # noqa: E731
obs += [
    Ob("draws[Xorshift128]", XO_IMP + f"""
def h(inp, out):
{XS.make}    out[0] = r.next_rand(np.uint32(inp[4]))
    out[1] = r.next_alternate_rand(np.uint32(inp[4]))
    out[2] = np.uint32(r.next_randrange(np.int32(np.uint32(inp[5])), np.int32(np.uint32(inp[6]))))
    out[3] = r.next()
""", XS.ins + [("m", 32), ("a", 32), ("b", 32)], 4, xs_spec, assume=XS_RANGE,
       bounds="every state, every maximum >= 1, every signed range minimum < maximum",
       extra_samples=[{"m": 1, "a": 0x80000000, "b": 0x7FFFFFFF}, {"m": 5, "a": 0xFFFFFFFF, "b": 0}]),
    Ob("range[Xorshift128]", XO_IMP + f"""
def h(inp, out):
{XS.make}    out[0] = r.next_rand(np.uint32(inp[4]))
    out[1] = r.next_alternate_rand(np.uint32(inp[4]))
""", XS.ins + [("m", 32)], 2, assume=nz("m"), post=lambda v, o: [
        ("next_rand below the maximum", T.ult(o[0], z64(v["m"]))),
        ("next_alternate_rand below the maximum", T.ult(o[1], z64(v["m"])))],
       bounds="every state and every maximum >= 1"),
    Ob("randrange-range[Xorshift128]", XO_IMP + f"""
def h(inp, out):
{XS.make}    out[0] = np.uint32(r.next_randrange(np.int32(np.uint32(inp[4])), np.int32(np.uint32(inp[5]))))
""", XS.ins + [("a", 32), ("b", 32)], 1, assume=lambda v: T.and_(T.slt(v["a"], v["b"]), T.not_(T.eq(T.extract(v["a"], 31, 31), C(1, 1)))),
       post=lambda v, o: [("minimum <= draw", T.ule(z64(v["a"]), o[0])), ("draw < maximum", T.ult(o[0], z64(v["b"])))],
       bounds="every state and every range 0 <= minimum < maximum"),
]


# ---- splitmix
def sm_spec(v):
    u, st = XM.run(XM.st(v), 2)
    return [T.urem(u[0], v["m"]), u[1]]


obs += [
    Ob("draws[SplitMixXoroshiro128Plus]", XO_IMP + f"""
def h(inp, out):
{XM.make}    out[0] = r.next_rand(np.uint32(inp[2]))
    out[1] = r.next()
""", XM.ins + [("m", 32)], 2, sm_spec, assume=nz("m"), bounds="every state, every maximum >= 1"),
    Ob("range[SplitMixXoroshiro128Plus]", XO_IMP + f"""
def h(inp, out):
{XM.make}    out[0] = r.next_rand(np.uint32(inp[2]))
""", XM.ins + [("m", 32)], 1, assume=nz("m"), post=lambda v, o: [("below the maximum", T.ult(o[0], z64(v["m"])))],
       bounds="every state, every maximum >= 1"),
]


# ---- rejection
def smear(m):
    """the smallest 2^k - 1 that is >= m - 1"""
    x = T.sub(m, C(1, 32))
    r = C(0, 32)
    for i in range(32):
        r = T.ite(T.eq(T.extract(x, i, i), C(1, 1)), C((2 << i) - 1, 32), r)
    return r


R = 4


def rej_spec(v):
    mk = T.zext(smear(v["m"]), 64)
    m = z64(v["m"])
    u, _ = XR.run(XR.st(v), R + 1)
    val, nxt = C(0, 64), C(0, 64)
    for i in reversed(range(R)):
        c = T.and_(u[i], mk)
        ok = T.ult(c, m)
        val = T.ite(ok, c, val)
        nxt = T.ite(ok, u[i + 1], nxt)
    return [val, nxt]


obs += [
    Ob("bit_mask", XO_IMP + """
def h(inp, out):
    out[0] = Xoroshiro128PlusRejection.bit_mask(np.uint32(inp[0]))
""", [("m", 32)], 1, lambda v: [smear(v["m"])], assume=nz("m"), modes=("numpy",), bounds="every maximum >= 1"),
    Ob("draws[Xoroshiro128PlusRejection]", XO_IMP + f"""
def h(inp, out):
{XR.make}    out[0] = r.next_rand(np.uint32(inp[2]))
    out[1] = r.next()
""", XR.ins + [("m", 32)], 2, rej_spec, assume=nz("m"), unroll=R - 1, merge=False,
       bounds=f"every state, every maximum >= 1, up to {R} draws of the rejection loop",
       extra_samples=[{"s0": 5, "s1": 9, "m": 1}]),
    Ob("range[Xoroshiro128PlusRejection]", XO_IMP + f"""
def h(inp, out):
{XR.make}    out[0] = r.next_rand(np.uint32(inp[2]))
""", XR.ins + [("m", 32)], 1, assume=nz("m"), unroll=R - 1, merge=False,
       post=lambda v, o: [("below the maximum", T.ult(o[0], z64(v["m"])))],
       bounds=f"every state, every maximum >= 1, up to {R} draws of the rejection loop"),
]

# ---- advance
for f in FAMS:
    ty = "np.uint32" if f.w == 32 else "np.uint64"

    def aspec(v, f=f):
        u, _ = f.run(f.st(v), 9)
        return [T.lookup(u[:8], v["n"], u[0].w), T.lookup(u[1:9], v["n"], u[0].w)]

    obs.append(Ob(f"advance[{f.cls}]", XO_IMP + f"""
def h(inp, out):
{f.make}    r.advance({ty}(inp[{f.nw}]))
    out[0] = r.next()
    out[1] = r.next()
""", f.ins + [("n", f.w)], 2, aspec, assume=lambda v: T.ult(v["n"], C(8, v["n"].w)), merge=False,
        bounds="every state, distances 0 to 7"))
# ---- float ranges: every low 23-bit pattern, exact binary32 / binary64 arithmetic of the code under test
FRQ = 1 << 12


def fr_ob(lo, hi, shape=True, **k):
    def post(v, o):
        u, _ = XS.step(XS.st(v))
        r = T.zext(T.extract(XS.run(XS.st(v), 1)[0][0], 22, 0), 64)
        M = 0x7FFFFF
        exact = T.add(T.mul(r, C((lo - hi) * FRQ & (1 << 64) - 1, 64)), C(hi * FRQ * M & (1 << 64) - 1, 64))
        got = T.mul(o[0], C(M, 64))
        d = T.sub(got, exact)
        tol = 2 * M
        goals = [("minimum <= draw", T.sle(C(lo * FRQ & (1 << 64) - 1, 64), o[0])),
                ("draw <= maximum", T.sle(o[0], C(hi * FRQ & (1 << 64) - 1, 64)))]
        return goals + [("draw is maximum - r/0x7FFFFF * (maximum - minimum)", T.and_(T.sle(d, C(tol, 64)), T.sle(C(-tol & (1 << 64) - 1, 64), d)))][:1 if shape else 0]
    return Ob(f"float[{lo},{hi}]", XO_IMP + f"""
def h(inp, out):
{XS.make}    x = r.next_float_randrange(np.float32({lo}), np.float32({hi}))
    out[0] = np.uint64(np.int64(np.float64(x) * np.float64({FRQ})))
""", XS.ins, 1, post=post, bounds=f"every state, range [{lo}, {hi}]; result compared at a resolution of 1/{FRQ}", timeout=200, wall=300, **k)


obs += [fr_ob(0, 1), fr_ob(1, 4, tier="thorough"), fr_ob(-30, 30, False)]


CHECK = Check("C12", obs, outside="more than four draws in one rejection loop; distances above 7 (the loop body is one draw)")
