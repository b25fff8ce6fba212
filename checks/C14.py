"""The Gen 5 initial seed is SHA-1 of the message block, advanced once."""
from checks.sha import *

obs = []


def block(v, nz):
    w6 = T.concat(C(0, 7), v["r"], C(0, 8), v["m6"])
    return ([C(x, 32) for x in nz] + [v["w5"], w6, v["w7"], v["w8"], v["w9"], C(0, 32), C(0, 32), v["w12"], C(0x80000000, 32),
                                      C(0, 32), C(0x1A0, 32)])


def ob(g, l, d, **k):
    nz = nazo(g, l, d)
    return Ob(f"hash[{g},{l},{d}]", IMP + f"""
def h(inp, out):
    s = SHA1(np.uint32({GAMES[g]}), np.uint8({LANGS[l]}), np.uint8({DST[d]}), np.uint64(inp[0]) | (np.uint64(inp[2]) << np.uint64(16)),
             np.uint64(inp[1]) != np.uint64(0), np.uint8(0), np.uint8(0))
    s.data[5] = np.uint32(inp[3])
    s.data[8] = np.uint32(inp[4])
    s.data[9] = np.uint32(inp[5])
    s.set_button(np.uint32(inp[6]))
    out[0] = s.hash_seed(s.precompute())
""", [("m6", 16), ("r", 1), ("w7", 32), ("w5", 32), ("w8", 32), ("w9", 32), ("w12", 32)], 1,
              lambda v: [seed_of(block(v, nz))],
              bounds="every value of message words 5 to 9 and 12 the constructor and setters can produce; all 80 rounds", **k)


Q = [("WHITE2", "ENGLISH", "DS"), ("BLACK", "JAPANESE", "DSI"), ("WHITE", "GERMAN", "DS3"), ("BLACK2", "FRENCH", "DS")]
obs += [ob(*q) for q in Q]
for g in GAMES:
    for l in LANGS:
        for d in DST:
            if (g, l, d) not in Q and nazo(g, l, d):
                obs.append(ob(g, l, d, tier="thorough"))
CHECK = Check("C14", obs, outside="title constants whose published value could not be confirmed (see DESIGN.md); words the API cannot reach")
