"""A SHA1 object has no memory of earlier field values."""
from itertools import permutations

from checks.sha import *

obs = []
F = [("y", 7), ("mo", 4), ("dd", 5), ("wd", 3), ("h", 5), ("mi", 6), ("se", 6), ("t0", 16), ("vc", 8), ("b", 32)]
A = [("a" + n, w) for n, w in F]
B = [("b" + n, w) for n, w in F]
NEW = """    {s} = SHA1(np.uint32(4096), np.uint8(0), np.uint8(inp[0]), np.uint64(0x123456789A), False, np.uint8(6), np.uint8(7))
"""


def calls(s, k):
    """the four setter calls, reading their values from inp[k:]"""
    return {
        "date": f"{s}.set_date(np.uint16(np.uint16(2000) + np.uint16(inp[{k}])), np.uint8(inp[{k + 1}]), np.uint8(inp[{k + 2}]), np.uint8(inp[{k + 3}]))",
        "time": f"{s}.set_time(np.uint8(inp[{k + 4}]), np.uint8(inp[{k + 5}]), np.uint8(inp[{k + 6}]))",
        "timer": f"{s}.set_timer0(np.uint32(inp[{k + 7}]), np.uint8(inp[{k + 8}]))",
        "button": f"{s}.set_button(np.uint32(inp[{k + 9}]))"}


def block(cs, order, pad="    "):
    return "".join(pad + cs[o] + "\n" for o in order)


def in_calendar(v):
    out = [T.ult(v["d"], C(3, 2))]
    for p in "ab":
        out += [T.ult(v[p + n], C(k, w)) for n, k, w in (("y", 100, 7), ("mo", 13, 4), ("h", 24, 5), ("mi", 60, 6), ("se", 60, 6))]
    return T.and_(*out)


ALLF = ("date", "time", "timer", "button")
HASH = "    out[{i}] = {s}.hash_seed({s}.precompute())\n"
same = lambda *ps: (lambda v, o: [(f"out[{i}] == out[{j}]", T.eq(o[i], o[j])) for i, j in ps])  # noqa: E731


def ob(name, body, nout, pairs, bounds, extra=(), **k):
    obs.append(Ob(name, IMP + "def h(inp, out):\n" + body, [("d", 2)] + A + B + list(extra), nout, post=same(*pairs), assume=in_calendar,
                  bounds=bounds, **k))


# other order, overwritten once, hashed in between, hashed twice: always the hash of a fresh object
for i, order in enumerate(permutations(ALLF)):
    ob("order[" + ",".join(order) + "]", NEW.format(s="f") + block(calls("f", 11), ALLF) + HASH.format(i=0, s="f") +
       NEW.format(s="s") + block(calls("s", 1), ALLF) + HASH.format(i=1, s="s") + block(calls("s", 11), order) + HASH.format(i=2, s="s") +
       HASH.format(i=3, s="s"), 4, [(0, 2), (0, 3)],
       "every pair of field values; object hashed, all fields set again in this order, hashed twice; fresh object in the standard order",
       tier="quick" if i in (0, 9, 14, 23) else "thorough")

# any subset of the fields changed between two hashes
for m in range(15):
    ch = [f for i, f in enumerate(ALLF) if m >> i & 1]
    rest = [f for f in ALLF if f not in ch]
    ob("change[" + ",".join(ch) + "]", NEW.format(s="f") + block(calls("f", 1), rest) + block(calls("f", 11), ch) + HASH.format(i=2, s="f") +
       NEW.format(s="s") + block(calls("s", 1), ALLF) + HASH.format(i=0, s="s") + block(calls("s", 11), ch) + HASH.format(i=1, s="s"),
       3, [(1, 2)], "every pair of field values; only these setters called between two hashes",
       tier="quick" if len(ch) < 2 else "thorough")

# precomputed part kept while the time and the buttons vary
ob("alpha-kept", NEW.format(s="f") + block(calls("f", 1), ("date", "timer")) + block(calls("f", 11), ("time", "button")) +
   HASH.format(i=0, s="f") + NEW.format(s="s") + block(calls("s", 1), ALLF) + """    alpha = s.precompute()
    out[1] = s.hash_seed(alpha)
""" + block(calls("s", 11), ("button", "time")) + """    out[2] = s.hash_seed(alpha)
    out[3] = s.hash_seed(alpha)
""", 4, [(0, 2), (0, 3)], "every pair of times and button words under one precomputed state")
CHECK = Check("C16", obs, outside="more than two settings of the same field: each setter overwrites its whole word (C15)")
