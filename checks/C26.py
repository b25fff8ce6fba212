"""Personal tables: game flags, table selection, field offsets, table contents."""
import os

from checks.common import *
from vlib.host import REPO

PRELOAD = ["numba_pokemon_prngs.data.personal"]
obs = []
IMP = """import numpy as np
from numba_pokemon_prngs.options import USE_NUMBA
from numba_pokemon_prngs.enums import Game
from numba_pokemon_prngs.data import personal as P
"""
# game -> table file; the games without an entry have no table
GAMES = ["NONE", "RUBY", "SAPPHIRE", "EMERALD", "FIRE_RED", "LEAF_GREEN", "GALES", "COLOSSEUM", "DIAMOND", "PEARL", "PLATINUM", "HEART_GOLD",
         "SOUL_SILVER", "BLACK", "WHITE", "BLACK2", "WHITE2", "X", "Y", "OMEGA_RUBY", "ALPHA_SAPPHIRE", "SUN", "MOON", "ULTRA_SUN",
         "ULTRA_MOON", "SWORD", "SHIELD", "BRILLIANT_DIAMOND", "SHINING_PEARL", "LEGENDS_ARCEUS"]
FILE = dict(RUBY="rs", SAPPHIRE="rs", EMERALD="e", FIRE_RED="fr", LEAF_GREEN="lg", DIAMOND="dp", PEARL="dp", PLATINUM="pt", BLACK="bw",
            WHITE="bw", BLACK2="b2w2", WHITE2="b2w2", X="xy", Y="xy", OMEGA_RUBY="ao", ALPHA_SAPPHIRE="ao", SUN="sm", MOON="sm",
            ULTRA_SUN="uu", ULTRA_MOON="uu", SWORD="swsh", SHIELD="swsh", BRILLIANT_DIAMOND="bdsp", SHINING_PEARL="bdsp",
            LEGENDS_ARCEUS="la")
FILES = list(dict.fromkeys(FILE.values()))
# (offset, bytes) of the fields, as published for each generation's table
STATS = dict(hp=(0, 1), attack=(1, 1), defense=(2, 1), speed=(3, 1), special_attack=(4, 1), special_defense=(5, 1), type_1=(6, 1), type_2=(7, 1),
             catch_rate=(8, 1), ev_yield=(10, 2), item_1=(12, 2), item_2=(14, 2))
G3 = dict(STATS, base_exp=(9, 1), gender_ratio=(16, 1), hatch_cycles=(17, 1), base_friendship=(18, 1), exp_growth=(19, 1), egg_group_1=(20, 1),
          egg_group_2=(21, 1), ability_1=(22, 1), ability_2=(23, 1), escape_rate=(24, 1))
G4 = dict(G3, form_count=(41, 1), form_stats_index=(42, 2))
MID = dict(STATS, evo_stage=(9, 1), item_3=(16, 2), gender_ratio=(18, 1), hatch_cycles=(19, 1), base_friendship=(20, 1), exp_growth=(21, 1),
           egg_group_1=(22, 1), egg_group_2=(23, 1))
G5 = dict(MID, ability_1=(24, 1), ability_2=(25, 1), ability_h=(26, 1), escape_rate=(27, 1), form_stats_index=(28, 2), form_sprite=(30, 2),
          form_count=(32, 1), base_exp=(34, 2), height=(36, 2), weight=(38, 2))
G8 = dict(MID, ability_1=(24, 2), ability_2=(26, 2), ability_h=(28, 2), form_stats_index=(30, 2), form_count=(32, 1), base_exp=(34, 2),
          height=(36, 2), weight=(38, 2))
KIND = {  # class -> (entry size, fields, table files)
    "PersonalInfo3": (0x1C, G3, ["rs", "e", "fr", "lg"]),
    "PersonalInfo4": (0x2C, G4, ["dp", "pt"]),
    "PersonalInfo5BW": (0x3C, G5, ["bw"]),
    "PersonalInfo5B2W2": (0x4C, G5, ["b2w2"]),
    "PersonalInfo6XY": (0x40, G5, ["xy"]),
    "PersonalInfo6AO": (0x50, G5, ["ao"]),
    "PersonalInfo7": (0x54, G5, ["sm", "uu"]),
    "PersonalInfo8SWSH": (0xB0, G8, ["swsh"]),
    "PersonalInfo8BDSP": (0x44, G8, ["bdsp"]),
    "PersonalInfo8LA": (0xB0, G8, ["la"]),
}
TABLE = dict(rs="RS", e="E", fr="FR", lg="LG", dp="DP", pt="PT", bw="BW", b2w2="B2W2", xy="XY", ao="ORAS", sm="SM", uu="USUM", swsh="SWSH",
             bdsp="BDSP", la="LA")
BIN = os.path.join(REPO, "numba_pokemon_prngs/resources/bin/personal")


def raw(f):
    with open(os.path.join(BIN, "personal_" + f), "rb") as h:
        return h.read()


def lut(i, vals, w):
    """vals[i] for an index within range"""
    n = len(vals)
    k = max(1, (n - 1).bit_length())
    cells = [C(x, w) for x in vals] + [C(vals[-1], w)] * ((1 << k) - n)
    for b in range(k):
        bit = T.extract(i, b, b)
        cells = [T.ite(bit, y, x) for x, y in zip(cells[::2], cells[1::2])]
    return cells[0]


# ---- flags
obs.append(Ob("flags", IMP + f"""
V = np.array([int(getattr(Game, n)) for n in {GAMES[1:]!r}], np.uint64)
def h(inp, out):
    out[0] = V[inp[0]] == V[inp[1]]
    out[1] = (V[inp[0]] & V[inp[1]]) != 0
    out[2] = V[inp[0]] == 0
""", [("i", 5), ("j", 5)], 3, lambda v: [T.eq(v["i"], v["j"]), T.eq(v["i"], v["j"]), T.FALSE],
              assume=lambda v: T.and_(T.ult(v["i"], C(len(GAMES) - 1, 5)), T.ult(v["j"], C(len(GAMES) - 1, 5))), modes=("numpy",), max_values=128,
              bounds="every pair of games"))

# ---- selection
HAVE = [g for g in GAMES if g in FILE]
obs.append(Ob("select", IMP + f"""
V = np.array([int(getattr(Game, n)) for n in {HAVE!r}], np.uint64)
NAMES = {[TABLE[f] for f in FILES]!r}
def h(inp, out):
    t = P.get_info_table(int(V[inp[0]]))
    out[0] = 99
    for k in range(len(NAMES)):
        if t is getattr(P, "PERSONAL_INFO_" + NAMES[k]):
            out[0] = k
""", [("i", 5)], 1, lambda v: [lut(v["i"], [FILES.index(FILE[g]) for g in HAVE], 8)], assume=lambda v: T.ult(v["i"], C(len(HAVE), 5)),
              modes=("numpy",), max_values=128, bounds="every game that has a table"))
NOT = [g for g in GAMES if g not in FILE]
obs.append(Ob("select[no table]", IMP + f"""
V = np.array([int(getattr(Game, n)) for n in {NOT!r}], np.uint64)
def h(inp, out):
    P.get_info_table(int(V[inp[0]]))
""", [("i", 3)], 1, lambda v: [C(0, 8)], assume=lambda v: T.ult(v["i"], C(len(NOT), 3)), raises=lambda v: T.TRUE,
              modes=("numpy",), max_values=128, bounds="every game without a table"))
G3N = ["RUBY", "SAPPHIRE", "EMERALD", "FIRE_RED", "LEAF_GREEN"]
DEOXYS = {f: raw(f)[386 * 28: 386 * 28 + 6] for f in ("rs", "e", "fr", "lg")}
obs.append(Ob("select[gen 3]", IMP + f"""
V = np.array([int(getattr(Game, n)) for n in {G3N!r}], np.uint64)
def h(inp, out):
    t = P.get_info_table_3(int(V[inp[0]]))
    out[0] = t[386].attack
    out[1] = t[386].defense
    out[2] = t[386].speed
    out[3] = len(t)
""", [("i", 3)], 4, lambda v: [lut(v["i"], [DEOXYS[FILE[g]][k] for g in G3N], 8) for k in (1, 2, 3)] + [C(387, 16)],
              assume=lambda v: T.ult(v["i"], C(5, 3)), max_values=128, bounds="every gen 3 game; tables told apart by Deoxys"))

# ---- decoding
for cls, (size, fields, files) in KIND.items():
    body = "".join(f"    out[{k}] = r.{f}\n" for k, f in enumerate(fields))
    obs.append(Ob(f"decode[{cls}]", IMP + f"""
D = P.{cls}.dtype
def h(inp, out):
    raw = np.zeros(2 * {size}, np.uint8)
    for k in range({size}):
        raw[{size} + k] = inp[k]
    t = raw.view(D)
    r = t[1]
{body}    out[{len(fields)}] = len(t)
    if raw[0] != 0:
        out[0] = 999
""", [(f"b{k}", 8) for k in range(size)], len(fields) + 1,
                  lambda v, fields=fields: [v[f"b{o}"] if n == 1 else T.concat(v[f"b{o + 1}"], v[f"b{o}"]) for o, n in fields.values()] + [C(2, 8)],
                  modes=("numba",), bounds="every content of an entry"))
    for f in files:
        data = raw(f)
        n = len(data) // size
        obs.append(Ob(f"table[{f}]", IMP + f"""
A = P.PERSONAL_INFO_{TABLE[f]}
def h(inp, out):
    r = A[inp[0]]
{body}    out[{len(fields)}] = len(A)
""", [("i", 11)], len(fields) + 1,
                      lambda v, data=data, size=size, n=n, fields=fields: [
                          lut(v["i"], [int.from_bytes(data[size * i + o:size * i + o + b], "little") for i in range(n)], 8 * b)
                          for o, b in fields.values()] + [C(n, 16)],
                      assume=lambda v, n=n: T.ult(v["i"], C(n, 11)), modes=("numpy",), max_values=2000, bounds="every entry of the table"))
CHECK = Check("C26", obs, assumptions=["the resource files are the data; the tables are compared with the bytes of these files"],
              outside="fields after the form and size fields; the tables the package does not load")
