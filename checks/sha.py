"""Reference SHA-1 compression and the Gen 5 message layout, as terms."""
from checks.common import *

PRELOAD = ["numba_pokemon_prngs.sha1", "numba_pokemon_prngs.lcrng", "numba_pokemon_prngs.enums"]
IMP = """import numpy as np
from numba_pokemon_prngs.sha1 import SHA1
"""
GAMES = {"BLACK": 1 << 12, "WHITE": 1 << 13, "BLACK2": 1 << 14, "WHITE2": 1 << 15}
LANGS = {"ENGLISH": 0, "FRENCH": 1, "GERMAN": 2, "ITALIAN": 3, "JAPANESE": 4, "KOREAN": 5, "SPANISH": 6}
DST = {"DS": 0, "DSI": 1, "DS3": 2}

# published base addresses: black / white (DS, DSi), black 2 / white 2 (base DS, base DSi, two version words).
# None: the value in the code differs from or could not be confirmed against a published table, only its form is asserted
BW = {
    "ENGLISH": {"BLACK": (0x022160B0, 0x02760190), "WHITE": (0x022160D0, 0x027601B0)},
    "JAPANESE": {"BLACK": (0x02215F10, 0x02761150), "WHITE": (0x02215F30, 0x02761150)},
    "GERMAN": {"BLACK": (0x02215FF0, 0x027602F0), "WHITE": (0x02216010, 0x027602F0)},
    "SPANISH": {"BLACK": (None, 0x027601F0), "WHITE": (0x02216070, 0x027601F0)},
    "FRENCH": {"BLACK": (0x02216030, 0x02760230), "WHITE": (0x02216050, 0x02760250)},
    "ITALIAN": {"BLACK": (0x02215FB0, 0x027601D0), "WHITE": (0x02215FD0, 0x027601D0)},
    "KOREAN": {"BLACK": (None, 0x02761150), "WHITE": (0x022167B0, 0x02761150)},
}
BW2 = {
    "ENGLISH": {"BLACK2": (0x02200010, 0x027A5F70, 0x0209AEE8, 0x02039DE9), "WHITE2": (0x02200050, 0x027A5E90, 0x0209AF28, 0x02039E15)},
    "JAPANESE": {"BLACK2": (0x021FF9B0, 0x027AA730, 0x0209A8DC, 0x02039AC9), "WHITE2": (0x021FF9D0, 0x027AA5F0, 0x0209A8FC, 0x02039AF5)},
    "GERMAN": {"BLACK2": (0x021FFF50, 0x027A6110, 0x0209AE28, 0x02039D69), "WHITE2": (0x021FFF70, 0x027A6010, 0x0209AE48, 0x02039D95)},
    "SPANISH": {"BLACK2": (0x021FFFD0, 0x027A6070, 0x0209AEA8, 0x02039DB9), "WHITE2": (0x021FFFF0, 0x027A5FB0, 0x0209AEC8, 0x02039DE5)},
    "FRENCH": {"BLACK2": (0x02200030, 0x027A5F90, 0x0209AF08, 0x02039DF9), "WHITE2": (0x02200050, 0x027A5EF0, 0x0209AF28, 0x02039E25)},
    "ITALIAN": {"BLACK2": (0x021FFF10, 0x027A5F70, 0x0209ADE8, 0x02039D69), "WHITE2": (0x021FFF50, 0x027A5ED0, 0x0209AE28, 0x02039D95)},
    "KOREAN": {"BLACK2": (0x02200750, None, 0x0209B60C, 0x0203A4D5), "WHITE2": (0x02200770, 0x027A57B0, 0x0209B62C, 0x0203A501)},
}
M32 = 0xFFFFFFFF


def bswap(x):
    return int.from_bytes(x.to_bytes(4, "little"), "big")


def bswap_t(t):
    return T.concat(T.extract(t, 7, 0), T.extract(t, 15, 8), T.extract(t, 23, 16), T.extract(t, 31, 24))


def nazo(game, lang, ds):
    """five integers, or None where the base is not pinned"""
    k = 0 if ds == "DS" else 1
    if game in ("BLACK", "WHITE"):
        b = BW[lang][game][k]
        return None if b is None else [bswap(x) for x in (b, b + 0xFC, b + 0xFC, b + 0x148, b + 0x148)]
    t = BW2[lang][game]
    return None if t[k] is None else [bswap(x) for x in (t[2], t[3], t[k], t[k] + 0x54, t[k] + 0x54)]


def rot(x, n):
    return T.concat(T.extract(x, 31 - n, 0), T.extract(x, 31, 32 - n))


def schedule(w):
    """the 80 words; from 32 on the recurrence is applied twice (rotation is linear over xor), so equal terms cancel"""
    w = list(w)
    for i in range(16, 80):
        if i < 32:
            w.append(rot(T.xor(w[i - 3], w[i - 8], w[i - 14], w[i - 16]), 1))
        else:
            w.append(rot(T.xor(*[w[i - a - b] for a in (3, 8, 14, 16) for b in (3, 8, 14, 16)]), 2))
    return w


def compress(w):
    h = [0x67452301, 0xEFCDAB89, 0x98BADCFE, 0x10325476, 0xC3D2E1F0]
    a, b, c, d, e = (C(x, 32) for x in h)
    for i, x in enumerate(schedule(w)):
        if i < 20:
            f, k = T.or_(T.and_(b, c), T.and_(T.not_(b), d)), 0x5A827999
        elif i < 40:
            f, k = T.xor(b, c, d), 0x6ED9EBA1
        elif i < 60:
            f, k = T.or_(T.and_(b, c), T.and_(T.or_(b, c), d)), 0x8F1BBCDC
        else:
            f, k = T.xor(b, c, d), 0xCA62C1D6
        a, b, c, d, e = T.add(T.add(T.add(rot(a, 5), f), T.add(e, C(k, 32))), x), a, rot(b, 30), c, d
    return [T.add(x, C(y, 32)) for x, y in zip((a, b, c, d, e), h)]


def seed_of(w):
    """byte-swapped first two digest words, low word first, advanced once by the Gen 5 generator"""
    a, b = compress(w)[:2]
    s = T.concat(bswap_t(b), bswap_t(a))
    return T.add(T.mul(C(0x5D588B656C078965, 64), s), C(0x269EC3, 64))
