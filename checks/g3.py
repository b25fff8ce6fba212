"""Gen 3 models and harness pieces."""
from checks.common import *

PRELOAD = ["numba_pokemon_prngs.lcrng", "numba_pokemon_prngs.data.personal", "numba_pokemon_prngs.data.encounter.encounter_area_3",
           "numba_pokemon_prngs.gen3.encounter_area_3", "numba_pokemon_prngs.gen3.wild_generator_3", "numba_pokemon_prngs.gen3.state"]
IMP = """import numpy as np
from numba_pokemon_prngs.options import USE_NUMBA
from numba_pokemon_prngs.lcrng import PokeRNGMod
from numba_pokemon_prngs.data.encounter.encounter_area_3 import EncounterArea3, Slot3
from numba_pokemon_prngs.data.personal import PersonalInfo3
from numba_pokemon_prngs.gen3 import encounter_area_3 as G
AREA = EncounterArea3.dtype
SLOT = Slot3.dtype
INFO = PersonalInfo3.dtype
if USE_NUMBA:
    import numba
    @numba.njit
    def recs(n, d):
        return np.zeros(n, d)
else:
    def recs(n, d):
        return np.zeros(n, d).view(np.recarray)
"""
# encounter type -> (id, slot list, slot count, cumulative chances, rate field)
ENC = {
    "GRASS": (0, "land", 12, (20, 40, 50, 60, 70, 80, 85, 90, 94, 98, 99, 100), "land_rate"),
    "ROCK_SMASH": (3, "rock", 5, (60, 90, 95, 99, 100), "rock_rate"),
    "SURFING": (4, "water", 5, (60, 90, 95, 99, 100), "water_rate"),
    "OLD_ROD": (6, "fish_old", 2, (70, 100), "fish_rate"),
    "GOOD_ROD": (7, "fish_good", 3, (60, 80, 100), "fish_rate"),
    "SUPER_ROD": (8, "fish_super", 5, (40, 80, 95, 99, 100), "fish_rate"),
}
LISTS = {"land": 12, "water": 5, "rock": 5, "fish_old": 2, "fish_good": 3, "fish_super": 5}
LEAD = {"NONE": 255, "CUTE_CHARM_F": 25, "CUTE_CHARM_M": 26, "MAGNET_PULL": 27, "STATIC": 28, "HARVEST": 29, "FLASH_FIRE": 30,
        "STORM_DRAIN": 31, "PRESSURE": 32, "SUCTION_CUPS": 33, "COMPOUND_EYES": 34, "ARENA_TRAP": 35}


def nxt(s):
    return lc_step("PokeRNGMod", s)


def hi16(s):
    return T.extract(s, 31, 16)


def rand(s, n):
    """(draw modulo n, new state)"""
    s = nxt(s)
    return T.urem(hi16(s), C(n, 16) if isinstance(n, int) else n), s


def slot_of(roll, cum):
    """index of the slot whose chance interval contains the roll"""
    r = C(len(cum) - 1, 8)
    for i in range(len(cum) - 2, -1, -1):
        r = T.ite(T.ult(roll, C(cum[i], roll.w)), C(i, 8), r)
    return r
