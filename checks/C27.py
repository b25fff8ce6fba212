"""C27: the generation 3 encounter tables hold what the game data files say."""
from vlib.obl import Ob, Check
from vlib import terms as T

C = T.const
PRELOAD = ["numba_pokemon_prngs.enums", "numba_pokemon_prngs.data.encounter.encounter_area_3",
           "numba_pokemon_prngs.data.encounter.encounter_area_la", "numba_pokemon_prngs.data.fbs.encounter_la",
           "numba_pokemon_prngs.fnv"]

GAMES = ("RUBY", "SAPPHIRE", "EMERALD", "FIRE_RED", "LEAF_GREEN")
FILES = {"RUBY": "rs", "SAPPHIRE": "rs", "EMERALD": "e", "FIRE_RED": "frlg", "LEAF_GREEN": "frlg"}
KINDS = (("land_mons", 12), ("water_mons", 5), ("rock_smash_mons", 5), ("fishing_mons", 10))
# the species of the shipped files by national number
SP = {"SPECIES_" + x.split(":")[1]: int(x.split(":")[0]) for x in """
    1:BULBASAUR 2:IVYSAUR 3:VENUSAUR 4:CHARMANDER 5:CHARMELEON 6:CHARIZARD 7:SQUIRTLE 8:WARTORTLE 10:CATERPIE
    11:METAPOD 13:WEEDLE 14:KAKUNA 16:PIDGEY 17:PIDGEOTTO 19:RATTATA 20:RATICATE 21:SPEAROW 22:FEAROW 23:EKANS
    24:ARBOK 25:PIKACHU 27:SANDSHREW 28:SANDSLASH 29:NIDORAN_F 30:NIDORINA 32:NIDORAN_M 33:NIDORINO 35:CLEFAIRY
    37:VULPIX 39:JIGGLYPUFF 41:ZUBAT 42:GOLBAT 43:ODDISH 44:GLOOM 46:PARAS 47:PARASECT 48:VENONAT 49:VENOMOTH
    50:DIGLETT 51:DUGTRIO 52:MEOWTH 53:PERSIAN 54:PSYDUCK 55:GOLDUCK 56:MANKEY 57:PRIMEAPE 58:GROWLITHE 60:POLIWAG
    61:POLIWHIRL 63:ABRA 64:KADABRA 66:MACHOP 67:MACHOKE 69:BELLSPROUT 70:WEEPINBELL 72:TENTACOOL 73:TENTACRUEL
    74:GEODUDE 75:GRAVELER 77:PONYTA 78:RAPIDASH 79:SLOWPOKE 80:SLOWBRO 81:MAGNEMITE 82:MAGNETON 84:DODUO 85:DODRIO
    86:SEEL 87:DEWGONG 88:GRIMER 89:MUK 90:SHELLDER 92:GASTLY 93:HAUNTER 95:ONIX 96:DROWZEE 97:HYPNO 98:KRABBY
    99:KINGLER 100:VOLTORB 101:ELECTRODE 102:EXEGGCUTE 104:CUBONE 105:MAROWAK 109:KOFFING 110:WEEZING 111:RHYHORN
    113:CHANSEY 114:TANGELA 115:KANGASKHAN 116:HORSEA 117:SEADRA 118:GOLDEEN 119:SEAKING 120:STARYU 123:SCYTHER
    125:ELECTABUZZ 126:MAGMAR 127:PINSIR 128:TAUROS 129:MAGIKARP 130:GYARADOS 131:LAPRAS 132:DITTO 147:DRATINI
    148:DRAGONAIR 161:SENTRET 163:HOOTHOOT 165:LEDYBA 167:SPINARAK 170:CHINCHOU 177:NATU 178:XATU 179:MAREEP
    183:MARILL 187:HOPPIP 190:AIPOM 191:SUNKERN 193:YANMA 194:WOOPER 195:QUAGSIRE 198:MURKROW 200:MISDREAVUS
    201:UNOWN 202:WOBBUFFET 203:GIRAFARIG 204:PINECO 206:DUNSPARCE 207:GLIGAR 209:SNUBBULL 211:QWILFISH 213:SHUCKLE
    214:HERACROSS 215:SNEASEL 216:TEDDIURSA 218:SLUGMA 219:MAGCARGO 220:SWINUB 222:CORSOLA 223:REMORAID
    224:OCTILLERY 225:DELIBIRD 226:MANTINE 227:SKARMORY 228:HOUNDOUR 231:PHANPY 234:STANTLER 235:SMEARGLE
    241:MILTANK 246:LARVITAR 261:POOCHYENA 262:MIGHTYENA 263:ZIGZAGOON 264:LINOONE 265:WURMPLE 266:SILCOON
    268:CASCOON 270:LOTAD 271:LOMBRE 273:SEEDOT 274:NUZLEAF 276:TAILLOW 277:SWELLOW 278:WINGULL 279:PELIPPER
    280:RALTS 283:SURSKIT 285:SHROOMISH 286:BRELOOM 287:SLAKOTH 290:NINCADA 293:WHISMUR 294:LOUDRED 296:MAKUHITA
    297:HARIYAMA 299:NOSEPASS 300:SKITTY 302:SABLEYE 303:MAWILE 304:ARON 305:LAIRON 307:MEDITITE 308:MEDICHAM
    309:ELECTRIKE 310:MANECTRIC 311:PLUSLE 312:MINUN 313:VOLBEAT 314:ILLUMISE 315:ROSELIA 316:GULPIN 318:CARVANHA
    319:SHARPEDO 320:WAILMER 321:WAILORD 322:NUMEL 324:TORKOAL 325:SPOINK 327:SPINDA 328:TRAPINCH 331:CACNEA
    333:SWABLU 334:ALTARIA 335:ZANGOOSE 336:SEVIPER 337:LUNATONE 338:SOLROCK 339:BARBOACH 340:WHISCASH 341:CORPHISH
    343:BALTOY 344:CLAYDOL 350:MILOTIC 352:KECLEON 353:SHUPPET 354:BANETTE 355:DUSKULL 356:DUSCLOPS 357:TROPIUS
    358:CHIMECHO 359:ABSOL 360:WYNAUT 361:SNORUNT 363:SPHEAL 366:CLAMPERL 369:RELICANTH 370:LUVDISC 371:BAGON""".split()}
NAMES = list(SP)
# letters of the Tanoby chambers, from the games' distribution
UNOWN = {"MONEAN": "AAAAAAAAAAA?", "LIPTOO": "CCCDDDHHHUUO", "WEEPTH": "NNNNSSSSIIEE", "DILFORD": "PPLLJJRRRQQQ",
         "SCUFIB": "YYTTGGGFFFKK", "RIXY": "VVVWWWXXMMBB", "VIAPOIS": "ZZZZZZZZZZZ!"}


def letter(c):
    return {"!": 26, "?": 27}.get(c, ord(c) - 65)


# game -> (label, map, readable name or None when the entry is not an area of this game, '' when it is one without
# encounters of its own)
CASES = {
    "RUBY": [("Route101_Ruby", "MAP_ROUTE101", "Route 101"), ("Route101_Sapphire", "MAP_ROUTE101", None),
             ("MeteorFalls_1F_1R_Ruby", "MAP_METEOR_FALLS_1F_1R", "Meteor Falls 1F 1R")],
    "SAPPHIRE": [("Route101_Ruby", "MAP_ROUTE101", None), ("Route101_Sapphire", "MAP_ROUTE101", "Route 101"),
                 ("AbandonedShip_Rooms_B1F_Sapphire", "MAP_ABANDONED_SHIP_ROOMS_B1F", "Abandoned Ship Rooms B1F")],
    "EMERALD": [("gRoute103", "MAP_ROUTE103", "Route 103"), ("gAlteringCave1", "MAP_ALTERING_CAVE", "Altering Cave"),
                ("gAlteringCave2", "MAP_ALTERING_CAVE", ""), ("gAlteringCave9", "MAP_ALTERING_CAVE", ""),
                ("gCaveOfOrigin_UnusedRubySapphireMap1", "MAP_CAVE_OF_ORIGIN_UNUSED_RUBY_SAPPHIRE_MAP1", "")],
    "FIRE_RED": [("sRoute1_FireRed", "MAP_ROUTE1", "Route 1"), ("sRoute1_LeafGreen", "MAP_ROUTE1", None),
                 ("sSixIslandAlteringCave_FireRed", "MAP_SIX_ISLAND_ALTERING_CAVE", "Six Island Altering Cave"),
                 ("sSixIslandAlteringCave_2_FireRed", "MAP_SIX_ISLAND_ALTERING_CAVE", ""),
                 ("sSixIslandAlteringCave_9_LeafGreen", "MAP_SIX_ISLAND_ALTERING_CAVE", None)],
    "LEAF_GREEN": [("sRoute1_FireRed", "MAP_ROUTE1", None), ("sRoute1_LeafGreen", "MAP_ROUTE1", "Route 1"),
                   ("sSixIslandAlteringCave_LeafGreen", "MAP_SIX_ISLAND_ALTERING_CAVE", "Six Island Altering Cave"),
                   ("sSixIslandAlteringCave_9_LeafGreen", "MAP_SIX_ISLAND_ALTERING_CAVE", "")],
}

HDR = f"""import numpy as np
from checks import fsmodel as M
from numba_pokemon_prngs.enums import Game
BI = __builtins__
SYM = M.symbolic(np)
KINDS = {KINDS!r}
PARTS = (("land_rate", ("land",)), ("water_rate", ("water",)), ("rock_rate", ("rock",)),
         ("fish_rate", ("fish_old", "fish_good", "fish_super")))
NAMES = {NAMES!r}

def table(game, name, doc):
    d = {{"wild_encounter_groups": [{{"label": "gWildMonHeaders", "encounters": doc}},
                                   {{"label": "other", "encounters": []}}]}}
    g = M.load(BI, M.Proc(M.Disk()), None, SYM, {{name + "_wild_encounters.json": d}})
    return g["load_encounter_3"](getattr(Game, game))

def mons(rate, slots):
    return {{"encounter_rate": rate,
            "mons": [{{"min_level": a, "max_level": b, "species": s}} for a, b, s in slots]}}

def show(area, out, o):
    out[o] = area["location"]
    o = o + 1
    for rate, parts in PARTS:
        out[o] = area[rate]
        o = o + 1
        for p in parts:
            slots = area[p]
            for k in range(len(slots)):
                out[o] = slots[k]["min_level"]
                out[o + 1] = slots[k]["max_level"]
                out[o + 2] = slots[k]["species"]
                o = o + 3
    return o
"""
SIZE = 1 + sum(1 + 3 * n for _, n in KINDS)
obs = []


def contents(game, label, mp, forms=None):
    """one area: every rate, level and presence of a kind; species fixed and all different"""
    ins, pos, o = [], {}, 4
    for k, (kind, n) in enumerate(KINDS):
        ins.append((f"rate{k}", 8))
        for i in range(n):
            ins += [(f"min{k}_{i}", 8), (f"max{k}_{i}", 8)]
        pos[k] = o
        o += 1 + 2 * n
    pres = [(f"has{k}", 1) for k in range(4)]
    src = HDR + f"""
POS = {pos!r}
def h(inp, out):
    e = {{"map": {mp!r}, "base_label": {label!r}}}
    for k in (3, 1, 0, 2):
        if int(inp[k]) != 0:
            kind, n = KINDS[k]
            p = POS[k]
            e[kind] = mons(inp[p], [(inp[p + 1 + 2 * i], inp[p + 2 + 2 * i],
                                     {"'SPECIES_UNOWN'" if forms else "NAMES[(40 * i + 9 * k + 3) % len(NAMES)]"}) for i in range(n)])
    other = {{"map": "MAP_ROUTE119", "base_label": {label!r}, "land_mons": mons(inp[POS[0]], [])}}
    names, t = table({game!r}, {FILES[game]!r}, [other, e])
    out[0] = len(names)
    out[1] = len(t)
    show(t[1], out, 2)
"""

    def spec(v):
        out = [C(2, 64), C(2, 64), C(1, 64)]
        for k, (kind, n) in enumerate(KINDS):
            has = T.eq(v[f"has{k}"], C(1, 1))
            g = lambda t, w: T.ite(has, t, C(0, w))
            out.append(g(v[f"rate{k}"], 8))
            for i in range(n):
                sp = 201 if forms else SP[NAMES[(40 * i + 9 * k + 3) % len(NAMES)]]
                if forms and k == 0:
                    sp |= letter(forms[i]) << 11
                out += [g(v[f"min{k}_{i}"], 8), g(v[f"max{k}_{i}"], 8), g(C(sp, 16), 16)]
        return out
    return Ob(f"contents[{game} {mp}]", src, pres + ins, 2 + SIZE, spec, modes=("numpy",), samples=10, wall=200,
              bounds="an area with every subset of the four kinds of encounters, every rate and level; fixed different species")


for game in GAMES:
    label, mp, _ = next(c for c in CASES[game] if c[2])
    obs.append(contents(game, label, mp))
for ch, forms in UNOWN.items():
    obs.append(contents("FIRE_RED" if ch < "N" else "LEAF_GREEN", "sChamber_FireRed" if ch < "N" else "sChamber_LeafGreen",
                        f"MAP_SEVEN_ISLAND_TANOBY_RUINS_{ch}_CHAMBER", forms))


def selection(game, n):
    """which entries are areas of the game, in order, under which index and name"""
    cases = CASES[game]
    src = HDR + f"""
CASES = {cases!r}
WANT = {[c[2] for c in cases]!r}
def h(inp, out):
    doc = []
    want = []
    for k in range({n}):
        i = int(inp[k])
        label, mp, name = CASES[i]
        doc.append({{"map": mp, "base_label": label, "water_mons": mons(inp[{n} + 2 * k], [
            (inp[{n + 1} + 2 * k], 100, "SPECIES_MAGIKARP")])}})
        if name is not None:
            want.append((name, k))
    names, t = table({game!r}, {FILES[game]!r}, doc)
    out[0] = len(names) - len(want)
    out[1] = len(t) - len(want)
    for k in range({n}):
        if k < len(want):
            out[2 + k] = int(names[k] == want[k][0])
            a = t[k]
            src = want[k][1]
            o = 2 + {n} + 5 * k
            if want[k][0] != "":
                out[o] = a["location"] - k
                out[o + 1] = a["water_rate"] - inp[{n} + 2 * src]
                out[o + 2] = a["water"][0]["min_level"] - inp[{n + 1} + 2 * src]
                out[o + 3] = a["water"][0]["species"] - 129
            else:
                out[o] = a["location"]
                out[o + 1] = a["water_rate"]
                out[o + 2] = a["water"][0]["min_level"]
                out[o + 3] = a["water"][0]["species"]
            out[o + 4] = a["land_rate"]
        else:
            out[2 + k] = 1
"""
    ins = [(f"which{k}", 3) for k in range(n)] + [(f"{a}{k}", 8) for k in range(n) for a in ("rate", "level")]
    return Ob(f"areas[{game}, {n} entries]", src, ins, 2 + 6 * n, lambda v: [C(0, 64)] * 2 + [C(1, 64)] * n + [C(0, 64)] * (5 * n),
              assume=lambda v: T.and_(*[T.ult(v[f"which{k}"], C(len(cases), 3)) for k in range(n)]), modes=("numpy",),
              samples=10, wall=200, max_paths=2000,
              bounds=f"files of {n} entries, each any of {len(cases)} kinds of entries (other game's, unused, altering cave), every rate and level")


for game in GAMES:
    obs.append(selection(game, 3))


def species(kind, n):
    """the species of a slot"""
    slot = dict(KINDS)[kind] - 1 - n
    part = {"land_mons": ("land", slot), "water_mons": ("water", slot), "rock_smash_mons": ("rock", slot),
            "fishing_mons": ("fish_super", slot - 5)}[kind]
    src = HDR + f"""
def h(inp, out):
    s = NAMES[int(inp[0])]
    e = {{"map": "MAP_ROUTE103", "base_label": "gRoute103", {kind!r}: mons(20, [
        (2, 3, s if i == {slot} else "SPECIES_MEW") for i in range(dict(KINDS)[{kind!r}])])}}
    names, t = table("EMERALD", "e", [e])
    out[0] = t[0][{part[0]!r}][{part[1]}]["species"]
"""
    def spec(v):
        t = C(0, 16)
        for i, nm in enumerate(NAMES):
            t = T.ite(T.eq(v["s"], C(i, 8)), C(SP[nm], 16), t)
        return [t]
    return Ob(f"species[{kind} {slot}]", src, [("s", 8)], 1, spec, assume=lambda v: T.ult(v["s"], C(len(NAMES), 8)), modes=("numpy",),
              samples=5, max_values=256, max_paths=1000, bounds=f"the {len(NAMES)} species names in the shipped files")


for kind, _ in KINDS:
    obs.append(species(kind, 0))

CHECK = Check("C27", obs, assumptions=["reading a resource and parsing JSON give the document (both are stand-ins); the cache "
                                       "directory is the model of C31, initially empty",
                                       "documents have the shape of the shipped files: 12 land, 5 water, 5 rock smash, 10 fishing slots"],
              outside="the contents of the shipped data files; map names other than the listed ones; species not in the shipped files")
