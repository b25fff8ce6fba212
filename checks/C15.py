"""Layout of the hashed message."""
from checks.sha import *

obs = []
G, L, D = list(GAMES), list(LANGS), list(DST)


def title_post(lang, raw):
    def post(v, o):
        out = []
        for gi, g in enumerate(G):
            for di, d in enumerate(D):
                here = T.and_(T.eq(v["g"], C(gi, 2)), T.eq(v["d"], C(di, 2)))
                nz = nazo(g, lang, d)
                if nz:
                    for i in range(5):
                        out.append((f"word {i} for {g} {lang} {d}", T.or_(T.not_(here), T.eq(o[i], C(nz[i], 64)))))
                else:
                    n = [T.extract(x, 31, 0) for x in o[:5]]
                    if g in ("BLACK", "WHITE"):
                        rel = T.and_(T.eq(n[1], n[2]), T.eq(n[3], n[4]),
                                     T.eq(bswap_t(n[1]), T.add(bswap_t(n[0]), C(0xFC, 32))),
                                     T.eq(bswap_t(n[3]), T.add(bswap_t(n[1]), C(0x4C, 32))))
                    else:
                        t = BW2[lang][g]
                        rel = T.and_(T.eq(n[0], C(bswap(t[2]), 32)), T.eq(n[1], C(bswap(t[3]), 32)), T.eq(n[3], n[4]),
                                     T.eq(bswap_t(n[3]), T.add(bswap_t(n[2]), C(0x54, 32))))
                    out.append((f"form of the words for {g} {lang} {d}", T.or_(T.not_(here), rel)))
        return out
    return post


NEW = """    s = SHA1(np.uint32(1) << np.uint32(np.uint32(12) + np.uint32(inp[0])), np.uint8({l}), np.uint8(inp[1]), np.uint64(inp[2]), np.uint64(inp[3]) != np.uint64(0),
             np.uint8(inp[4]), np.uint8(inp[5]))
"""
BASE = [("g", 2), ("d", 2), ("mac", 48), ("r", 1), ("vf", 8), ("gx", 8)]
OKD = lambda v: T.ult(v["d"], C(3, 2))  # noqa: E731
for l in L:
    obs.append(Ob(f"title[{l}]", IMP + "def h(inp, out):\n" + NEW.format(l=LANGS[l]) + """
    for i in range(5):
        out[i] = s.data[i]
""", BASE, 5, post=title_post(l, None), assume=OKD, bounds="every game and console type of this language"))


def bcd(t, n=100):
    t = T.zext(T.extract(t, min(t.w, 7) - 1, 0), 7) if t.w > 7 else T.zext(t, 7)
    return T.lookup([C(((i // 10) << 4) | i % 10, 8) for i in range(n)], t, 8)


obs.append(Ob("fixed-words", IMP + "def h(inp, out):\n" + NEW.format(l="np.uint8(inp[6])") + """
    out[0] = s.data[6]
    out[1] = s.data[7]
    out[2] = s.data[10]
    out[3] = s.data[11]
    out[4] = s.data[13]
    out[5] = s.data[14]
    out[6] = s.data[15]
""", BASE + [("l", 3)], 7, lambda v: [
    T.concat(C(0, 7), v["r"], C(0, 8), T.extract(v["mac"], 15, 0)),
    T.xor(T.extract(v["mac"], 47, 16), T.concat(v["vf"], C(0, 16), v["gx"])), C(0, 32), C(0, 32), C(0x80000000, 32), C(0, 32), C(0x1A0, 32)],
    assume=lambda v: T.and_(OKD(v), T.ult(v["l"], C(7, 3))),
    bounds="every game, language, console, 48-bit MAC, soft-reset flag, vframe and GxStat"))


def setters_spec(v):
    h = bcd(v["h"], 24)
    pm = T.and_(T.not_(T.ult(v["h"], C(12, 5))), T.not_(T.eq(v["d"], C(2, 2))))
    h = T.or_(h, T.ite(pm, C(0x40, 8), C(0, 8)))
    return [bswap_t(T.concat(C(0, 8), v["vc"], v["t0"])),
            T.concat(bcd(v["y"]), bcd(v["mo"], 13), bcd(v["dd"], 32), T.zext(v["wd"], 8)),
            T.concat(h, bcd(v["mi"], 60), bcd(v["se"], 60), C(0, 8)), v["b"]]


def in_calendar(v):
    return T.and_(T.ult(v["d"], C(3, 2)), T.ult(v["y"], C(100, 7)), T.ult(v["mo"], C(13, 4)), T.not_(T.eq(v["mo"], C(0, 4))),
                  T.not_(T.eq(v["dd"], C(0, 5))), T.ult(v["wd"], C(7, 3)), T.ult(v["h"], C(24, 5)), T.ult(v["mi"], C(60, 6)), T.ult(v["se"], C(60, 6)))


FIELDS = [("y", 7), ("mo", 4), ("dd", 5), ("wd", 3), ("h", 5), ("mi", 6), ("se", 6), ("t0", 16), ("vc", 8), ("b", 32), ("d", 2)]
SET = """    s.set_date(np.uint16(np.uint16(2000) + np.uint16(inp[0])), np.uint8(inp[1]), np.uint8(inp[2]), np.uint8(inp[3]))
    s.set_time(np.uint8(inp[4]), np.uint8(inp[5]), np.uint8(inp[6]))
    s.set_timer0(np.uint32(inp[7]), np.uint8(inp[8]))
    s.set_button(np.uint32(inp[9]))
"""
obs.append(Ob("setters", IMP + """
def h(inp, out):
    s = SHA1(np.uint32(4096), np.uint8(0), np.uint8(inp[10]), np.uint64(5), True, np.uint8(6), np.uint8(7))
""" + SET + """
    out[0] = s.data[5]
    out[1] = s.data[8]
    out[2] = s.data[9]
    out[3] = s.data[12]
""", FIELDS, 4, setters_spec, assume=in_calendar,
              bounds="every date from 2000 to 2099 with every weekday, every time of day, timer0, vcount, button word and console"))
CHECK = Check("C15", obs, outside="out-of-calendar dates and times; three title constants are checked for form only")
