"""previous() of the xorshift family inverts next()."""
from checks.common import *

PRELOAD = ["numba_pokemon_prngs.xorshift", "numba_pokemon_prngs.util"]
obs = []
for f in FAMS:
    k = f.nw

    def back(v, f=f):
        st = f.st(v)
        outs, _ = f.run(st, 3)
        # previous() right after draw 3, 2, 1
        vals = list(reversed(outs))
        return vals + st + [outs[0]]

    obs.append(Ob(f"undo[{f.cls}]", XO_IMP + f"""
def h(inp, out):
{f.make}    for i in range(3):
        r.next()
    for i in range(3):
        out[i] = r.previous()
    for j in range({k}):
        out[3 + j] = r.state[j]
    out[3 + {k}] = r.next()
""", f.ins, 4 + k, back, bounds="every state; three draws undone in turn, then drawn again"))

    obs.append(Ob(f"redo[{f.cls}]", XO_IMP + f"""
def h(inp, out):
{f.make}    r.previous()
    r.next()
    for j in range({k}):
        out[j] = r.state[j]
    a = r.previous()
    b = r.previous()
    c = r.next()
    d = r.next()
    for j in range({k}):
        out[{k} + j] = r.state[j]
    out[2 * {k}] = 1 if b == c else 0
    out[2 * {k} + 1] = 1 if a == d else 0
""", f.ins, 2 * k + 2, lambda v, f=f, k=k: f.st(v) * 2 + [C(1, 64), C(1, 64)],
        bounds="every state; one and two steps back and forth again, with the values drawn"))
CHECK = Check("C11", obs, outside="longer excursions follow from single steps")
