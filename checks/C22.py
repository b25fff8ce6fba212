"""Type-attracting leads in gen 3."""
from checks.g3 import *

obs = []
ATTRACT = {"MAGNET_PULL": 8, "STATIC": 12, "HARVEST": 11, "FLASH_FIRE": 9, "STORM_DRAIN": 10}
GAMES = {"EMERALD": 4, "FIRE_RED": 8}
KINDS = 3
SPECIES = (304, 201 | 27 << 11, 129, 386)     # one beyond a byte, one with a form in the upper bits


def build(lst, n, kinds):
    s = "    info = recs(387, INFO)\n"
    for k in range(kinds):
        s += f"    info[{SPECIES[k] & 0x7FF}].type_1 = np.uint8(inp[{1 + 2 * k}])\n    info[{SPECIES[k] & 0x7FF}].type_2 = np.uint8(inp[{2 + 2 * k}])\n"
    s += f"""    arr = recs(1, AREA)
    a = arr[0]
    for i in range({n}):
        a.{lst}[i].species = np.uint16({SPECIES[:kinds]}[i % {kinds}])
        a.{lst}[i].min_level = np.uint8(i + 1)
"""
    return s


def spec(v, n, kinds, cum, ty, checked=True):
    has = [T.or_(T.eq(v[f"t{k}"], C(ty, 5)), T.eq(v[f"u{k}"], C(ty, 5))) for k in range(kinds)] if ty is not None else [T.FALSE] * kinds
    slot = [has[i % kinds] for i in range(n)]
    cnt = C(0, 16)
    for x in slot:
        cnt = T.add(cnt, T.zext(x, 16))
    none = T.eq(cnt, C(0, 16))
    s = v["s"]
    res_c = res_s = None
    c, s1 = rand(s, 2) if checked else (None, s)
    hit = T.and_(T.eq(c, C(0, 16)), T.not_(none)) if checked else T.FALSE
    # attracted: the k-th matching slot
    k, s2 = rand(s1, cnt)
    pick = C(0, 8)
    for i in range(n - 1, -1, -1):
        before = C(0, 16)
        for x in slot[:i]:
            before = T.add(before, T.zext(x, 16))
        pick = T.ite(T.and_(slot[i], T.eq(before, k)), C(i, 8), pick)
    r, s3 = rand(s1, 100)
    return [cnt, T.add(T.ite(hit, pick, slot_of(r, cum)), C(1, 8)), T.ite(hit, s2, s3), C(0, 8)]


def add(e, lead, kinds, g, tier="quick"):
    eid, lst, n, cum, _ = ENC[e]
    ty = ATTRACT.get(lead)
    obs.append(Ob(f"lead[{lead},{e},{g}]", IMP + "def h(inp, out):\n" + build(lst, n, kinds) + f"""
    m = G.get_modified_slots(a, {eid}, {LEAD[lead]}, {GAMES[g]}, info)
    out[0] = len(m)
    r = PokeRNGMod(np.uint32(inp[0]))
    s = G.calculate_hslot_lead(a, r, {eid}, {LEAD[lead]}, m)
    out[1] = s.min_level
    out[2] = r.seed
    out[3] = arr[0].land_rate
""", [("s", 32)] + [(x, 5) for k in range(kinds) for x in (f"t{k}", f"u{k}")], 4,
        lambda v: spec(v, n, kinds, cum, ty, lead in ("MAGNET_PULL", "STATIC")), merge=False, tier=tier,
        bounds=f"every seed, every pair of types for the {kinds} species found in the {n} slots"))


def listed(e, lead, kinds, g):
    """the slots with the type, in order"""
    eid, lst, n, _, _ = ENC[e]
    ty = ATTRACT[lead]

    def sp(v):
        has = [T.or_(T.eq(v[f"t{k}"], C(ty, 5)), T.eq(v[f"u{k}"], C(ty, 5))) for k in range(kinds)]
        res, cnt = [C(0, 8)] * n, C(0, 8)
        for i in range(n):
            res = [T.ite(T.and_(has[i % kinds], T.eq(cnt, C(k, 8))), C(i + 1, 8), r) for k, r in enumerate(res)]
            cnt = T.add(cnt, T.zext(has[i % kinds], 8))
        return [cnt] + res
    obs.append(Ob(f"list[{lead},{e},{g}]", IMP + "def h(inp, out):\n" + build(lst, n, kinds).replace("inp[1", "inp[0").replace("inp[2", "inp[1") .replace("inp[3", "inp[2").replace("inp[4", "inp[3").replace("inp[5", "inp[4").replace("inp[6", "inp[5") + f"""
    m = G.get_modified_slots(a, {eid}, {LEAD[lead]}, {GAMES[g]}, info)
    out[0] = len(m)
    for i in range(len(m)):
        out[1 + i] = m[i].min_level
    if arr[0].land_rate:
        out[0] = 99
""", [(x, 5) for k in range(kinds) for x in (f"t{k}", f"u{k}")], n + 1, sp, merge=False,
        bounds=f"every pair of types for the {kinds} species found in the {n} slots"))


add("OLD_ROD", "STATIC", 2, "EMERALD")
add("OLD_ROD", "STATIC", 2, "FIRE_RED", "thorough")
add("GOOD_ROD", "MAGNET_PULL", 3, "EMERALD")
add("SUPER_ROD", "STATIC", 3, "EMERALD")
add("SURFING", "MAGNET_PULL", 3, "EMERALD")
add("ROCK_SMASH", "MAGNET_PULL", 2, "EMERALD")
add("GRASS", "STATIC", 3, "EMERALD")
add("GRASS", "MAGNET_PULL", 2, "EMERALD", "thorough")
add("GRASS", "NONE", 1, "EMERALD")
add("SURFING", "PRESSURE", 1, "EMERALD")
for e, lead in (("GRASS", "HARVEST"), ("SURFING", "STORM_DRAIN"), ("ROCK_SMASH", "FLASH_FIRE"), ("GRASS", "MAGNET_PULL"), ("SUPER_ROD", "STATIC")):
    listed(e, lead, 3, "EMERALD")
CHECK = Check("C22", obs, [], ["species numbers above the table sizes", "slot contents other than up to three distinct species"])
