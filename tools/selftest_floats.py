"""Random float expressions over exactly representable leaves: the term layer's rewriting into scaled integers
against numpy on random inputs, and against z3's IEEE theory by proof."""
import random
import sys

sys.path[:0] = ["/verif"]
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
import numpy as np  # noqa: E402
from vlib import terms as T  # noqa: E402
import z3  # noqa: E402

random.seed(int(sys.argv[1]) if len(sys.argv) > 1 else 0)
np.seterr(all="ignore")
FD = {32: np.float32, 64: np.float64}
bad = nz = 0


def naive(op, args, w, p=None):
    return T._mk(op, tuple(args), w, p)


def leaf(w, vs):
    k = random.random()
    if k < .3:
        c = random.choice([0.0, 0.5, 1.0, 2.0, 0.25, 3.0, 100.0, 1.5, 0.1, -1.0, -0.5, 2.0 ** -23, -0.0])
        t = T.f2b(c, w)
        return t, t, (lambda e: FD[w](c))
    n = random.choice("abcd")
    bits = {"a": 4, "b": 8, "c": 16, "d": 24}[n]
    v = T.var(n, bits)
    vs[n] = bits
    sg = random.random() < .3

    def f(e):
        x = e[n]
        if sg and x >> (bits - 1):
            x -= 1 << bits
        return FD[w](x)
    return T.itof(v, w, sg), naive("itof", [v], w, sg), f


def tree(d, w, vs):
    if d == 0 or random.random() < .1:
        return leaf(w, vs)
    op = random.choice(["fadd", "fsub", "fmul", "fmul", "fdiv", "ftof", "ite"])
    if op == "ftof":
        o = 96 - w
        a, na, fa = tree(d - 1, o, vs)
        return T.ftof(a, w), naive("ftof", [na], w), lambda e: FD[w](fa(e))
    a, na, fa = tree(d - 1, w, vs)
    b, nb, fb = tree(d - 1, w, vs)
    if op == "ite":
        c = T.var("k", 1)
        vs["k"] = 1
        return T.ite(c, a, b), naive("ite", [c, na, nb], w), lambda e: fa(e) if e["k"] else fb(e)
    if op == "fdiv":
        p = random.choice([2.0, 0.5, 16777216.0, 3.0])
        b, nb, fb = T.f2b(p, w), T.f2b(p, w), lambda e: FD[w](p)
    g = {"fadd": lambda x, y: x + y, "fsub": lambda x, y: x - y, "fmul": lambda x, y: x * y, "fdiv": lambda x, y: x / y}[op]
    return T.fop(op, a, b), naive(op, [na, nb], w), lambda e: FD[w](g(fa(e), fb(e)))


def dys(t):
    return any(x.op == "dy" for x in T.order([t]))


for n in range(6000):
    vs = {}
    w = random.choice((32, 64))
    t, nt, f = tree(random.choice((1, 2, 3, 4)), w, vs)
    op = random.choice(("flt", "fle", "feq", None, "ftoi"))
    if op in ("flt", "fle", "feq"):
        t2, nt2, f2 = tree(random.choice((1, 2, 3)), w, vs)
        t, nt = T.fcmp(op, t, t2), naive(op, [nt, nt2], 1)
        f1 = f
        g = {"flt": lambda x, y: x < y, "fle": lambda x, y: x <= y, "feq": lambda x, y: x == y}[op]
        val = lambda e: int(g(f1(e), f2(e)))  # noqa: E731
    elif op == "ftoi":
        t, nt = T.ftoi(t, 64, True), naive("ftoi", [nt], 64, True)
        f1 = f

        def val(e):
            x = float(f1(e))
            return (1 << 63 if x != x or abs(x) == float("inf") else int(x)) & ((1 << 64) - 1)
    else:
        f1 = f
        val = lambda e: int(FD[w](f1(e)).view({32: np.uint32, 64: np.uint64}[w]))  # noqa: E731
    for _ in range(6):
        e = {k: random.choice((0, 1, (1 << b) - 1, 1 << (b - 1), random.getrandbits(b))) for k, b in vs.items()}
        a, b, c = T.evaluate([t, nt], e) + [val(e)]
        isnan = lambda v: op is None and np.isnan(T.b2f(v, w))  # noqa: E731
        if a != c and not (isnan(a) and isnan(c)):
            bad += 1
            print("eval", T.show(t, 5), e, hex(a), hex(c))
    small = all(b <= 8 for b in vs.values())
    if n % 10 == 0 and small and op != "ftoi" and t is not nt:
        s = z3.SolverFor("QF_FPBV")
        s.set("timeout", 5000)
        if op is None:
            q = z3.And(T._zf_of(t) != T._zf_of(nt), True) if hasattr(T, "_zf_of") else T.to_z3(t) != T.to_z3(nt)
        else:
            q = T.to_z3(t) != T.to_z3(nt)
        s.add(q)
        r = s.check()
        nz += r == z3.unsat
        if r == z3.sat:
            m = s.model()
            e = {k: (m[z3.BitVec(k, b)].as_long() if m[z3.BitVec(k, b)] is not None else 0) for k, b in vs.items()}
            if T.evaluate([t], e) != T.evaluate([nt], e):
                bad += 1
                print("z3", T.show(t, 5), e)
print("bad", bad, "z3", nz)
