"""Gen 3 slot chances and encounter rates."""
from checks.g3 import *

obs = []
for e, (eid, lst, n, cum, rate) in ENC.items():
    fill = "".join(f"    for i in range({k}):\n        a.{l}[i].species = np.uint16({100 * j} + i)\n        a.{l}[i].min_level = np.uint8(i + 1)\n"
                   for j, (l, k) in enumerate(LISTS.items()))
    base = 100 * list(LISTS).index(lst)

    def spec(v, cum=cum, base=base):
        r, s = rand(v["s"], 100)
        i = slot_of(r, cum)
        return [T.add(T.zext(i, 16), C(base, 16)), T.add(i, C(1, 8)), s]
    obs.append(Ob(f"slot[{e}]", IMP + f"""
def h(inp, out):
    a = recs(1, AREA)[0]
{fill}    r = PokeRNGMod(np.uint32(inp[0]))
    s = G.calculate_hslot(a, r, {eid})
    out[0] = s.species
    out[1] = s.min_level
    out[2] = r.seed
""", [("s", 32)], 3, spec, bounds="every seed (so every roll); slots of all lists told apart by their contents"))

obs.append(Ob("rate", IMP + """
def h(inp, out):
    a = recs(1, AREA)[0]
    a.land_rate = np.uint8(inp[0])
    a.water_rate = np.uint8(inp[1])
    a.rock_rate = np.uint8(inp[2])
    a.fish_rate = np.uint8(inp[3])
    out[0] = G.get_encounter_rate(a, 0)
    out[1] = G.get_encounter_rate(a, 3)
    out[2] = G.get_encounter_rate(a, 4)
    out[3] = G.get_encounter_rate(a, 6)
    out[4] = G.get_encounter_rate(a, 7)
    out[5] = G.get_encounter_rate(a, 8)
""", [("land", 8), ("water", 8), ("rock", 8), ("fish", 8)], 6, lambda v: [v["land"], v["rock"], v["water"], v["fish"], v["fish"], v["fish"]],
              bounds="every rate of every method"))
CHECK = Check("C20", obs, outside="encounter types gen 3 does not have")
