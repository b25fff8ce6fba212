"""C29: the Legends Arceus encounter tables are the records with levels and multipliers resolved."""
from vlib.obl import Ob, Check
from vlib import terms as T

C = T.const
PRELOAD = ["numba_pokemon_prngs.enums", "numba_pokemon_prngs.data.encounter.encounter_area_3",
           "numba_pokemon_prngs.data.encounter.encounter_area_la", "numba_pokemon_prngs.data.fbs.encounter_la",
           "numba_pokemon_prngs.fnv"]
KEYS = [0x1FE79A5E1FFE1C69, (1 << 64) - 1, 3]
SPEC = [(25, 0), (422, 1), (550, 2), (59, 1)]        # (species, form) with their own multipliers and alpha level
MB = 5                                               # multipliers (k - 4) / 4, k of MB bits

HDR = f"""import numpy as np
from checks import fsmodel as M
from numba_pokemon_prngs.enums import LAArea
BI = __builtins__
SYM = M.symbolic(np)
KEYS = {KEYS!r}
SPEC = {SPEC!r}
AREAS = [LAArea.OBSIDIAN_FIELDLANDS, LAArea.CRIMSON_MIRELANDS, LAArea.CORONET_HIGHLANDS, LAArea.COBALT_COASTLANDS,
         LAArea.ALABASTER_ICELANDS]

class Rec:
    def __init__(self, **k):
        for n in k:
            setattr(self, n, k[n])

def mult(x):
    return (np.float32(x) - np.float32(4.0)) * np.float32(0.25)

def mults(xs):
    return tuple([mult(x) for x in xs])

def i32(x):
    return np.int32(np.uint32(x))

def slot(species, form, gender=0, ivs=0, lo=0, hi=0, prob=1, alpha=False, t=None, w=None):
    return Rec(species=species, form=form, gender=gender, guaranteed_ivs=ivs, override_min_level=lo, override_max_level=hi,
               base_probability=prob, is_alpha=alpha, encounter_eligibility=Rec(
                   time_of_day_multipliers=t or (-1.0,) * 4, weather_multipliers=w or (-1.0,) * 9))

def table(k, tables, mul, misc):
    docs = {{f"ha_area{{AREAS[k]:02d}}_encounter.bin": Rec(encounter_tables=tables),
            "poke_encount.bin": Rec(multiplier_lookup={{s: Rec(time_of_day_multipliers=mul[s][0], weather_multipliers=mul[s][1])
                                                       for s in SPEC}}),
            "poke_misc.bin": Rec(misc_lookup={{s: Rec(alpha_level_index=misc[s]) for s in SPEC}})}}
    disk = M.Disk()
    # computed, then read back from the cache
    first = M.load(BI, M.Proc(disk), None, SYM, docs)["load_encounter_tables_la"](AREAS[k])
    again = M.load(BI, M.Proc(disk), None, SYM, docs)["load_encounter_tables_la"](AREAS[k])
    return first, again

PLAIN = {{s: ((-1.0,) * 4, (1.0,) + (-1.0,) * 8) for s in SPEC}}
MISC = {{s: 1 for s in SPEC}}
"""
obs = []


# ---- the plain fields and the levels
def levels(n, tier):
    per = [("form_given", 1), ("gender", 8), ("ivs", 8), ("ivs_given", 1), ("lo", 32), ("hi", 32), ("prob", 31), ("alpha", 1)]
    ins = [("tmin", 7), ("tmax", 7), ("boost", 3)] + [(f"{a}{i}", w) for i in range(n) for a, w in per]
    P = len(per)
    src = HDR + f"""
def h(inp, out):
    slots = []
    for i in range({n}):
        o = 3 + {P} * i
        form = 1
        if i == 0:
            # no form recorded: the species' base form
            form = None if inp[o] == 0 else 0
        ivs = inp[o + 2]
        if inp[o + 3] == 0:
            ivs = None
        slots.append(slot(SPEC[i][0], form, inp[o + 1], ivs, i32(inp[o + 4]), i32(inp[o + 5]), inp[o + 6], bool(inp[o + 7] != 0)))
    misc = dict(MISC)
    for i in range({n}):
        misc[SPEC[i]] = (int(inp[2]) + i) % 5 + 1
    tables = [Rec(table_id=KEYS[0], min_level=1, max_level=2, encounter_slots=[]),
              Rec(table_id=KEYS[1], min_level=inp[0], max_level=inp[1], encounter_slots=slots)]
    first, again = table(0, tables, PLAIN, misc)
    o = 0
    for t in (first, again):
        out[o] = len(t)
        e = t[np.uint64(KEYS[1])]
        out[o + 1] = e.table_id
        out[o + 2] = len(e.slots)
        out[o + 3] = len(t[np.uint64(KEYS[0])].slots)
        o = o + 4
        for i in range({n}):
            s = e.slots[i]
            for f in ("species", "form", "gender", "guaranteed_ivs", "base_probability", "is_alpha", "min_level", "max_level"):
                out[o] = s[f]
                o = o + 1
"""

    def spec(v):
        one = [C(2, 64), C(KEYS[1], 64), C(n, 64), C(0, 64)]
        for i in range(n):
            al = T.eq(v[f"alpha{i}"], C(1, 1))
            idx = T.urem(T.add(T.zext(v["boost"], 8), C(i, 8)), C(5, 8))
            boost = T.ite(al, T.ite(T.ult(idx, C(3, 8)), C(15, 8), C(20, 8)), C(0, 8))

            def lvl(o, base):
                ok = T.and_(T.not_(T.eq(o, C(0, 32))), T.ult(o, C(101, 32)))
                return T.add(T.ite(ok, T.extract(o, 7, 0), T.zext(base, 8)), boost)
            one += [C(SPEC[i][0], 64), C(SPEC[i][1], 64), v[f"gender{i}"],
                    T.ite(T.eq(v[f"ivs_given{i}"], C(1, 1)), v[f"ivs{i}"], C(0, 8)), v[f"prob{i}"], v[f"alpha{i}"],
                    lvl(v[f"lo{i}"], v["tmin"]), lvl(v[f"hi{i}"], v["tmax"])]
        return one * 2
    return Ob(f"fields and levels[{n} slots]", src, ins, 2 * (4 + 8 * n), spec,
              assume=lambda v: T.and_(T.ult(v["boost"], C(5, 3)), T.ult(v["tmin"], C(101, 7)), T.ult(v["tmax"], C(101, 7))),
              modes=("numpy",), samples=10, wall=200, tier=tier,
              bounds=f"a table of {n} slots and an empty one, every 32-bit level override, every table level up to 100, every "
              "alpha level index, form and IV counts recorded or not")


obs.append(levels(1, "quick"))
obs.append(levels(2, "quick"))
obs.append(levels(3, "thorough"))


# ---- multipliers
def multipliers(i, tier="quick"):
    names = [f"{a}{k}" for a, c in (("t", 4), ("w", 9), ("st", 4), ("sw", 9)) for k in range(c)]
    src = HDR + f"""
def h(inp, out):
    i = {i}
    mul = dict(PLAIN)
    mul[SPEC[i]] = (mults(inp[13:17]), mults(inp[17:26]))
    tables = [Rec(table_id=KEYS[2], min_level=1, max_level=2, encounter_slots=[
        slot(SPEC[3][0], SPEC[3][1]), slot(SPEC[i][0], SPEC[i][1], t=mults(inp[0:4]), w=mults(inp[4:13]))])]
    first, again = table(i, tables, mul, MISC)
    o = 0
    for t in (first, again):
        e = t[np.uint64(KEYS[2])]
        for s in (e.slots[0], e.slots[1]):
            for f, n in (("time_multipliers", 4), ("weather_multipliers", 9)):
                for k in range(n):
                    out[o] = int(s[f][k] * np.float32(4.0))
                    o = o + 1
"""

    def spec(v):
        one = [C(4, 8)] * 13
        for a, c in (("t", 4), ("w", 9)):
            for k in range(c):
                own, sp = v[f"{a}{k}"], v[f"s{a}{k}"]
                four = C(4, MB)
                one.append(T.ite(T.ult(own, four), T.ite(T.ult(sp, four), four, T.sub(sp, four)), T.sub(own, four)))
        return one * 2
    return Ob(f"multipliers[{SPEC[i][0]}-{SPEC[i][1]}]", src, [(n, MB) for n in names], 52, spec, modes=("numpy",), samples=10, wall=200,
              tier=tier, bounds=f"every multiplier (k-4)/4 below {(1 << MB) / 4 - 1} of the slot and of its species; negative means not given")


for i in range(3):
    obs.append(multipliers(i))

# ---- which species' data a slot uses
obs.append(Ob("species data", HDR + """
def h(inp, out):
    mul = {s: ((float(k), -1.0, -1.0, -1.0), (1.0,) + (float(2 * k),) * 8) for k, s in enumerate(SPEC)}
    misc = {}
    for k in range(len(SPEC)):
        misc[SPEC[k]] = 5 if int(inp[3]) == k else 3
    slots = []
    for k in range(3):
        s = SPEC[int(inp[k])]
        slots.append(slot(s[0], s[1], alpha=True, lo=10 + k, hi=20 + k))
    tables = [Rec(table_id=KEYS[0], min_level=50, max_level=60, encounter_slots=slots[:2]),
              Rec(table_id=KEYS[1], min_level=70, max_level=80, encounter_slots=slots[2:])]
    first, again = table(4, tables, mul, misc)
    o = 0
    for t in (first, again):
        for s in (t[np.uint64(KEYS[0])].slots[0], t[np.uint64(KEYS[0])].slots[1], t[np.uint64(KEYS[1])].slots[0]):
            out[o] = s["species"]
            out[o + 1] = s["min_level"]
            out[o + 2] = s["max_level"]
            out[o + 3] = int(s["time_multipliers"][0])
            out[o + 4] = int(s["time_multipliers"][3])
            out[o + 5] = int(s["weather_multipliers"][0])
            out[o + 6] = int(s["weather_multipliers"][8])
            o = o + 7
""", [("a", 2), ("b", 2), ("c", 2), ("high", 2)], 42, lambda v: [
    t for _ in range(2) for k, a in enumerate(("a", "b", "c")) for t in (
        T.ite(T.eq(v[a], C(0, 2)), C(25, 16), T.ite(T.eq(v[a], C(1, 2)), C(422, 16), T.ite(T.eq(v[a], C(2, 2)), C(550, 16), C(59, 16)))),
        T.add(C(10 + k, 8), T.ite(T.eq(v[a], v["high"]), C(20, 8), C(15, 8))),
        T.add(C(20 + k, 8), T.ite(T.eq(v[a], v["high"]), C(20, 8), C(15, 8))),
        v[a], C(1, 8), C(1, 8), T.mul(T.zext(v[a], 8), C(2, 8)))], modes=("numpy",), samples=10, wall=200,
    bounds="two tables with two and one alpha slots, each of four species"))

CHECK = Check("C29", obs, assumptions=["the records are what C28 decodes (stand-ins); the cache directory is the model of C31, initially "
                                       "empty, so the second load reads it back"],
              outside="the contents of the shipped data files; a slot whose species has no record; multipliers that are not multiples of a quarter")
