"""C30: the Legends Arceus slot whose weight interval contains the draw.

Draws and weights are multiples of fixed powers of two small enough that every product and sum is exact in the precision
the code uses, so the property is a statement about integers and does not prescribe an order of operations."""
from vlib.obl import Ob, Check
from vlib import terms as T

C = T.const
PRELOAD = ["numba_pokemon_prngs.enums", "numba_pokemon_prngs.data.encounter.encounter_area_la"]
HDR = """import numpy as np
from numba_pokemon_prngs.enums import LATime, LAWeather
from numba_pokemon_prngs.data.encounter.encounter_area_la import EncounterAreaLA
"""
WIDE, NARROW = (24, 12, 6), (8, 6, 3)   # bits of the draw, of a base weight, of a multiplier (in quarters)
obs = []


def slots(n, time, weather, tier, dom, modes):
    RB, BB, MB = dom
    ins = [("rand", RB)] + [(f"b{i}", BB) for i in range(n)]
    ins += [(f"m{i}_{k}", MB) for i in range(n) for k in range(13)]
    o = 1 + n
    src = HDR + f"""
def h(inp, out):
    area = EncounterAreaLA(np.uint64(77), np.uint64({n}))
    for i in range({n}):
        area.slots[i]["species"] = 10 + i
        area.slots[i]["min_level"] = 50 + i
        area.slots[i]["is_alpha"] = i & 1
        area.slots[i]["base_probability"] = np.uint32(inp[1 + i])
        for k in range(4):
            area.slots[i]["time_multipliers"][k] = np.float32(inp[{o} + 13 * i + k]) * np.float32(0.25)
        for k in range(9):
            area.slots[i]["weather_multipliers"][k] = np.float32(inp[{o} + 13 * i + 4 + k]) * np.float32(0.25)
    rand = np.float32(inp[0]) * np.float32(2.0 ** -{RB})
    s = area.calc_slot(rand, {time}, {weather})
    out[0] = s["species"]
    out[1] = s["min_level"]
    out[2] = s["is_alpha"]
    out[3] = s["base_probability"]
    s = area.calc_slot(rand, {time}, {weather})
    out[4] = s["species"]
    out[5] = area.table_id
    for i in range({n}):
        out[6 + i] = area.slots[i]["species"]
        out[{6 + n} + i] = area.slots[i]["base_probability"]
"""

    def cums(v):
        W = 60
        acc, out = C(0, W), []
        for i in range(n):
            tm, wm = v[f"m{i}_{time}"], v[f"m{i}_{4 + weather}"]
            p = T.mul(T.mul(T.zext(v[f"b{i}"], W), T.zext(tm, W)), T.zext(wm, W))
            acc = T.add(acc, p)
            out.append(acc)
        return out

    def spec(v):
        cs = cums(v)
        draw = T.mul(T.zext(v["rand"], 60), cs[-1])
        i = C(n - 1, 64)
        b = T.zext(v[f"b{n - 1}"], 64)
        for k in range(n - 2, -1, -1):
            c = T.ult(draw, T.shl_c(cs[k], RB))
            i = T.ite(c, C(k, 64), i)
            b = T.ite(c, T.zext(v[f"b{k}"], 64), b)
        sp = T.add(i, C(10, 64))
        return [sp, T.add(i, C(50, 64)), T.and_(i, C(1, 64)), b, sp, C(77, 64)] + [C(10 + k, 64) for k in range(n)] + [
            T.zext(v[f"b{k}"], 64) for k in range(n)]

    def assume(v):
        return T.or_(*[T.and_(*[T.not_(T.eq(v[x], C(0, v[x].w))) for x in (f"b{i}", f"m{i}_{time}", f"m{i}_{4 + weather}")])
                       for i in range(n)])
    return Ob(f"calc_slot[{n} slots, time {time}, weather {weather}, {RB}-bit draw]", src, ins, 6 + 2 * n, spec, assume=assume, tier=tier, samples=60,
              bounds=f"{n} slots, every draw k/2^{RB}, base weights below {1 << BB}, multipliers 0 to {((1 << MB) - 1) / 4} in "
              "quarters, not all weights zero", wall=200, max_paths=4000, timeout=60, pool=200, feas_timeout=1.0, modes=modes)


BOTH = ("numpy", "numba")
for n, t, w in [(1, 0, 0)] + [(2, w % 4, w) for w in range(9)] + [(3, 1, 3), (4, 2, 5), (5, 3, 7)]:
    obs.append(slots(n, t, w, "quick" if n < 4 else "thorough", NARROW, BOTH))
for n, t, w in [(1, 0, 0), (2, 1, 3), (3, 2, 6), (4, 0, 8), (5, 3, 2)]:
    obs.append(slots(n, t, w, "quick" if n < 4 else "thorough", WIDE, ("numpy",)))

CHECK = Check("C30", obs, assumptions=["weights and draws on which single precision (numba mode) or double precision "
                                       "(numpy mode) is exact: compiled code computes in single precision"],
              outside="draws or multipliers that are not multiples of the stated powers of two; areas of more than five slots; "
              "rounding at an interval's edge, where the two modes may differ")
