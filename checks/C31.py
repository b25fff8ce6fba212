"""C31: whatever happens to a run while it stores a derived table, the next run gets the whole table."""
from vlib.obl import Ob, Check
from vlib import terms as T
from checks import fsmodel as M

C = T.const
PRELOAD = ["numba_pokemon_prngs.enums", "numba_pokemon_prngs.data.encounter.encounter_area_3",
           "numba_pokemon_prngs.data.encounter.encounter_area_la", "numba_pokemon_prngs.data.fbs.encounter_la",
           "numba_pokemon_prngs.fnv"]
STEPS = 20

COMMON = """import numpy as np
from checks import fsmodel as M
from numba_pokemon_prngs.enums import Game, LAArea
BI = __builtins__
SYM = M.symbolic(np)
G3 = [Game.RUBY, Game.SAPPHIRE, Game.EMERALD, Game.FIRE_RED, Game.LEAF_GREEN]
LA = [LAArea.OBSIDIAN_FIELDLANDS, LAArea.CRIMSON_MIRELANDS, LAArea.CORONET_HIGHLANDS, LAArea.COBALT_COASTLANDS,
      LAArea.ALABASTER_ICELANDS]
KEYS = [0, 0x1FE79A5E1FFE1C69, 0xFFFFFFFFFFFFFFFF]

class Tables:
    # what the loaders compute: a table whose contents are symbolic and differ per argument
    def __init__(self, np, vals):
        self.np, self.vals = np, vals

    def compute(self, g, name, arg):
        if name == "load_encounter_tables_la":
            d = g["TypedDict"](key_type=np.uint64, value_type=g["EncounterAreaLA"])
            for n in range(2):
                e = g["EncounterAreaLA"](np.uint64(KEYS[n + 1]), 2)
                e.slots[1]["species"] = self.vals[n]
                e.slots[0]["max_level"] = LA.index(arg)
                d[np.uint64(KEYS[n + 1])] = e
            return d
        a = np.zeros(3, np.uint64)
        a[0] = self.vals[0]
        a[1] = self.vals[1]
        a[2] = G3.index(arg)
        return ("A", "B"), a

    def work(self, name, k):
        def w(g):
            return g[name]((LA if name == "load_encounter_tables_la" else G3)[k])
        return w

    def show(self, name, r):
        # [first, second, which argument]
        if name == "load_encounter_tables_la":
            if len(r) != 2:
                return [999999, 999999, 99]
            a = r[np.uint64(KEYS[1])]
            b = r[np.uint64(KEYS[2])]
            if int(a.table_id) != KEYS[1] or int(b.table_id) != KEYS[2] or len(a.slots) != 2 or len(b.slots) != 2:
                return [999999, 999999, 98]
            return [a.slots[1]["species"], b.slots[1]["species"], b.slots[0]["max_level"]]
        if not isinstance(r, tuple) or r[0] != ("A", "B"):
            return [999999, 999999, 97]
        return [r[1][0], r[1][1], r[1][2]]
"""

obs = []
IN = [("t0", 16), ("t1", 16)]
for name in M.cached_names():
    def runs(n):
        return [(f"{a}{i}", w) for i in range(n) for a, w in (("at", 5), ("kind", 2), ("keep", 4))]

    def asm(n):
        return lambda v: T.and_(*[T.and_(T.ult(v[f"at{i}"], C(STEPS, 5)), T.ult(v[f"kind{i}"], C(3, 2)),
                                         T.ult(v[f"keep{i}"], C(M.TOTAL + 1, 4))) for i in range(n)])

    def crash(nruns, tier):
        tail = "\n".join(f"""
    s, r, c = M.run(BI, SYM, disk, T.compute, T.work("{name}", 0), at=inp[{3 + 3 * i}], kind=inp[{4 + 3 * i}], keep=inp[{5 + 3 * i}])
    if s == "ok":
        x = T.show("{name}", r)
        for k in range(3):
            out[{3 * i} + k] = x[k]
    else:
        for k in range(2):
            out[{3 * i} + k] = inp[k]
        out[{3 * i + 2}] = 0""" for i in range(nruns))
        src = COMMON + f"""
def h(inp, out):
    disk = M.Disk()
    T = Tables(np, [inp[0], inp[1]])
    if inp[2] != 0:
        s, r, c = M.run(BI, SYM, disk, T.compute, T.work("{name}", 0))
{tail}
    s, r, c = M.run(BI, SYM, disk, T.compute, T.work("{name}", 0))
    x = T.show("{name}", r)
    for k in range(3):
        out[{3 * nruns} + k] = x[k]
    s, r, c = M.run(BI, SYM, disk, T.compute, T.work("{name}", 0))
    x = T.show("{name}", r)
    for k in range(3):
        out[{3 * nruns + 3} + k] = x[k]
    out[{3 * nruns + 6}] = c
"""
        n = nruns + 2
        return Ob(f"interrupted {nruns}x[{name}]", src, IN + [("init", 1)] + runs(nruns), 3 * n + 1,
                  lambda v: [v["t0"], v["t1"], C(0, 8)] * n + [C(0, 8)], assume=asm(nruns), modes=("numpy",), tier=tier,
                  max_paths=20000, samples=40, wall=200, weight=3,
                  bounds=f"{nruns} interrupted runs, each at any of {STEPS} file system steps, killed / KeyboardInterrupt / "
                  "OSError, any persisted prefix length; cache initially absent or complete; every table content")
    obs.append(crash(1, "quick"))
    obs.append(crash(2, "quick"))

    # a run that starts while another stores
    for nsw, tier in ((2, "quick"), (3, "thorough")):
        obs.append(Ob(f"concurrent {nsw} switches[{name}]", COMMON + f"""
def h(inp, out):
    disk = M.Disk()
    T = Tables(np, [inp[0], inp[1]])
    S = M.Sched([inp[3 + k] for k in range({nsw})])
    res = S.both(lambda: M.run(BI, SYM, disk, T.compute, T.work("{name}", 0), sched=S, keep=inp[2]),
                 lambda: M.run(BI, SYM, disk, T.compute, T.work("{name}", 0), sched=S, keep=inp[2]))
    res.append(M.run(BI, SYM, disk, T.compute, T.work("{name}", 0)))
    for i in range(3):
        x = T.show("{name}", res[i][1])
        for k in range(3):
            out[3 * i + k] = x[k]
""", IN + [("keep", 4)] + [(f"s{k}", 6) for k in range(nsw)], 9, lambda v: [v["t0"], v["t1"], C(0, 8)] * 3,
                      assume=lambda v, nsw=nsw: T.and_(T.ult(v["keep"], C(M.TOTAL + 1, 4)), *[
                          T.ult(v[f"s{k}"], C(2 * STEPS, 6)) for k in range(nsw)], *[
                              T.ult(v[f"s{k}"], v[f"s{k + 1}"]) for k in range(nsw - 1)]),
                      modes=("numpy",), max_paths=20000, samples=20, wall=200, tier=tier, weight=2,
                      bounds=f"two runs, control changing hands before any {nsw} of {2 * STEPS} steps, any visible prefix of "
                      "unflushed data; cache initially empty"))

    # entries of different arguments are different
    obs.append(Ob(f"arguments[{name}]", COMMON + f"""
def h(inp, out):
    disk = M.Disk()
    T = Tables(np, [inp[0], inp[1]])
    i = int(inp[2])
    j = int(inp[3])
    M.run(BI, SYM, disk, T.compute, T.work("{name}", i), at=inp[4], kind=inp[5], keep=inp[6])
    for n, k in enumerate((j, i, j)):
        s, r, c = M.run(BI, SYM, disk, T.compute, T.work("{name}", k))
        x = T.show("{name}", r)
        for m in range(3):
            out[3 * n + m] = x[m]
""", IN + [("i", 3), ("j", 3), ("at0", 5), ("kind0", 2), ("keep0", 4)], 9,
                  lambda v: [t for n in ("j", "i", "j") for t in (v["t0"], v["t1"], v[n])],
                  assume=lambda v: T.and_(T.ult(v["i"], C(5, 3)), T.ult(v["j"], C(5, 3)), asm(1)(v)), modes=("numpy",),
                  max_paths=20000, samples=20, wall=200,
                  bounds="every pair of the five games / areas, the first run interrupted at any step"))

# two loaders share the directory
if len(M.cached_names()) > 1:
    a, b = M.cached_names()[:2]
    obs.append(Ob("loaders", COMMON + f"""
def h(inp, out):
    disk = M.Disk()
    T = Tables(np, [inp[0], inp[1]])
    n = 0
    for name in ("{a}", "{b}", "{a}", "{b}"):
        s, r, c = M.run(BI, SYM, disk, T.compute, T.work(name, int(inp[2])))
        x = T.show(name, r)
        for m in range(3):
            out[n + m] = x[m]
        n = n + 3
""", IN + [("i", 3)], 12, lambda v: [v["t0"], v["t1"], v["i"]] * 4, assume=lambda v: T.ult(v["i"], C(5, 3)),
                  modes=("numpy",), bounds="both loaders, each twice"))

# every field of every slot survives the cache
FIELDS = [("species", 16), ("gender", 8), ("form", 8), ("min_level", 8), ("max_level", 8), ("guaranteed_ivs", 8),
          ("base_probability", 32), ("is_alpha", 8)]
SL = [(f"{f}{n}", w) for n in range(2) for f, w in FIELDS] + [(f"{m}{n}_{k}", 16) for n in range(2) for m, c in (
    ("time", 4), ("weather", 9)) for k in range(c)]
if "load_encounter_tables_la" in M.cached_names():
    obs.append(Ob("contents[load_encounter_tables_la]", COMMON + f"""
F = {[f for f, _ in FIELDS]!r}
def h(inp, out):
    disk = M.Disk()
    n = int(inp[0])

    def compute(g, name, arg):
        d = g["TypedDict"](key_type=np.uint64, value_type=g["EncounterAreaLA"])
        e = g["EncounterAreaLA"](np.uint64(KEYS[2]), n)
        for s in range(n):
            for k in range(len(F)):
                e.slots[s][F[k]] = inp[1 + s * len(F) + k]
            for k in range(4):
                e.slots[s]["time_multipliers"][k] = inp[{1 + 2 * len(FIELDS)} + 13 * s + k]
            for k in range(9):
                e.slots[s]["weather_multipliers"][k] = inp[{1 + 2 * len(FIELDS)} + 13 * s + 4 + k]
        d[np.uint64(KEYS[2])] = e
        return d
    for r in range(3):
        st, d, c = M.run(BI, SYM, disk, compute, lambda g: g["load_encounter_tables_la"](LA[0]))
        e = d[np.uint64(KEYS[2])]
        o = {42 + 3} * r
        out[o] = len(d)
        out[o + 1] = e.table_id
        out[o + 2] = len(e.slots)
        for s in range(n):
            for k in range(len(F)):
                out[o + 3 + s * len(F) + k] = e.slots[s][F[k]]
            for k in range(4):
                out[o + {3 + 16} + 13 * s + k] = int(e.slots[s]["time_multipliers"][k])
            for k in range(9):
                out[o + {3 + 16} + 13 * s + 4 + k] = int(e.slots[s]["weather_multipliers"][k])
""", [("n", 2)] + SL, 45 * 3, lambda v: [
        t for _ in range(3) for t in [C(1, 8), C((1 << 64) - 1, 64), v["n"]] + [
            T.ite(T.ult(C(int(i >= (8 if i < 16 else 29)), 2), v["n"]), v[nm], C(0, w)) for i, (nm, w) in enumerate(SL)]],
        assume=lambda v: T.ult(v["n"], C(3, 2)), modes=("numpy",), samples=20, wall=200,
        bounds="one area of 0 to 2 slots, every field; multipliers whole numbers below 65536"))

CHECK = Check("C31", obs, assumptions=[
    "file system model: operations are atomic steps, rename replaces atomically, a killed process leaves an arbitrary prefix of unflushed data",
    "pickle.loads accepts exactly complete pickles; loads(dumps(v)) is v",
    "one write per file; a machine crash that reorders data and rename on disk is outside (the code does not fsync)"],
    outside="what the loaders compute; power loss with reordered writes")
