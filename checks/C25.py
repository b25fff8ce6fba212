"""Stats of gen 3 states."""
from checks.g3 import *

obs = []
NATURE_ORDER = (1, 2, 5, 3, 4)  # Atk Def Spe SpA SpD as positions in HP Atk Def SpA SpD Spe


def natured(stat, nature, i):
    """stat (32 bits) after the nature of the same index"""
    k = NATURE_ORDER.index(i)
    up = T.eq(T.udiv(nature, C(5, 8)), C(k, 8))
    down = T.eq(T.urem(nature, C(5, 8)), C(k, 8))
    pct = T.ite(T.and_(up, T.not_(down)), C(110, 32), T.ite(T.and_(down, T.not_(up)), C(90, 32), C(100, 32)))
    return T.udiv(T.mul(stat, pct), C(100, 32))


def full(v, i):
    raw = T.udiv(T.mul(T.add(T.mul(C(2, 32), T.zext(v["base"], 32)), T.zext(v["iv"], 32)), T.zext(v["level"], 32)), C(100, 32))
    if i == 0:
        return T.add(T.add(raw, T.zext(v["level"], 32)), C(10, 32))
    return natured(T.add(raw, C(5, 32)), T.resize(T.urem(v["pid"], C(25, 32)), 8, False), i)


for i in range(1, 6):
    obs.append(Ob(f"nature[{i}]", IMP + f"""from numba_pokemon_prngs.util import compute_stat
def h(inp, out):
    out[0] = compute_stat(np.uint16(inp[0]), np.uint8(inp[1]), np.uint8({i}))
""", [("stat", 10), ("nature", 5)], 1, lambda v, i=i: [natured(T.zext(v["stat"], 32), T.zext(v["nature"], 8), i)],
                  assume=lambda v: T.ult(v["nature"], C(25, 5)), bounds="every stat below 1024, every nature"))
BASE = ("hp", "attack", "defense", "special_attack", "special_defense", "speed")
for i in range(6):
    obs.append(Ob(f"stat[{BASE[i]}]", IMP + f"""from numba_pokemon_prngs.gen3.state import GeneratorState
def h(inp, out):
    arr = recs(1, INFO)
    info = arr[0]
    info.gender_ratio = np.uint8(127)
    info.{BASE[i]} = np.uint8(inp[1])
    ivs = np.zeros(6, np.uint8)
    ivs[{i}] = np.uint8(inp[2])
    pid = np.uint32(inp[0])
    st = GeneratorState(np.uint32(7), pid, np.uint16(25), np.uint8(0), ivs, np.uint8(0), np.uint8(inp[3]), np.uint8(0), info)
    out[0] = st.stats[{i}]
    out[1] = arr[0].gender_ratio
""", [("pid", 32), ("base", 8), ("iv", 5), ("level", 7)], 2, lambda v, i=i: [full(v, i), C(127, 8)],
                  assume=lambda v: T.and_(T.ule(C(1, 7), v["level"]), T.ule(v["level"], C(100, 7))),
                  bounds="every PID (nature), base stat, IV and level 1 to 100"))
CHECK = Check("C25", obs, [], ["effort values (the states have none)", "Shedinja's fixed HP", "stats of 1024 and more"])
