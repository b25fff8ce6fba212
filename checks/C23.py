"""Gen 3 wild generation."""
from checks.g3 import *
from checks.C24 import shiny, gender

obs = []
WILD = IMP + "from numba_pokemon_prngs.gen3.wild_generator_3 import WildGenerator3\n" + """if not USE_NUMBA:
    # what follows from PID and IVs alone is C24's and C25's; leaving it out here keeps the paths few
    from numba_pokemon_prngs.gen3 import wild_generator_3 as W
    class Plain(W.GeneratorState):
        def update_stats(self, info):
            self.gender = info.gender_ratio
    W.GeneratorState = Plain
"""
# the draws themselves as inputs: every sequence of 16-bit draws, not only those the generator produces
DRAWS = """
    from numba_pokemon_prngs.gen3 import wild_generator_3 as W
    class Draws(PokeRNGMod):
        values = []
        low = 0
        def __init__(self, seed):
            self.seed = int(seed)
        def re_init(self, seed):
            self.seed = int(seed)
        def next(self):
            self.seed += 1
            return (np.uint32(self.values[self.seed - 1]) << np.uint32(16)) | np.uint32(self.low)
        def jump(self, n):
            self.seed += int(n)
            return self.seed
        advance = jump
    W.PokeRNGMod = Draws
"""


class Pos:
    """a position in the given draws, where the other obligations have a generator state"""

    def __init__(self, k, d):
        self.k, self.d = k, d


def nxt(s):
    return Pos(s.k + 1, s.d) if isinstance(s, Pos) else lc_step("PokeRNGMod", s)


def hi16(s):
    # a path the assumption rules out may read beyond the draws
    return (s.d[s.k - 1] if s.k <= len(s.d) else C(0, 16)) if isinstance(s, Pos) else T.extract(s, 31, 16)


def rand(s, n):
    s = nxt(s)
    return T.urem(hi16(s), C(n, 16) if isinstance(n, int) else n), s


METHOD = {"METHOD_1": 1, "METHOD_2": 3, "METHOD_4": 4}
GAMES = {"RUBY": 1, "EMERALD": 4, "FIRE_RED": 8}
KINDS = 2
SPECIES = (304, 386)      # beyond a byte
FORMS = (0, 3)            # in the upper bits of a slot's species
CHARM = (25, 26)  # cute charm: every slot has the first species, to keep the conditions readable for the solver


def src(enc, method, lead, game, n, fields, loc=0, ini=0, delay=0, ratios=None, draws=0):
    one_kind = lead in CHARM and ratios is None
    in_slot = tuple(a | b << 11 for a, b in zip(SPECIES, FORMS))
    eid, lst, cnt, _, rate = ENC[enc]
    given = f"    Draws.values = [inp[5 + k] for k in range({draws})]\n    Draws.low = inp[0]\n" if draws else ""
    s = WILD + (DRAWS if draws else "") + f"""def h(inp, out):
{given}    info = recs(387, INFO)
    for k in range({KINDS}):
        sp = {SPECIES}[k]
        info[sp].gender_ratio = np.uint8({'inp[1 + k]' if ratios is None else f'{ratios}[k]'})
        info[sp].hp = np.uint8(10 + k)
        info[sp].ability_1 = np.uint8(20 + k)
        info[sp].ability_2 = np.uint8(30 + k)
        info[sp].type_1 = np.uint8(8 + 4 * k)
        info[sp].type_2 = np.uint8(8 + 4 * k)
    arr = recs(1, AREA)
    a = arr[0]
    a.location = np.uint16({loc})
    a.{rate} = np.uint8(inp[4])
    for i in range({cnt}):
        a.{lst}[i].species = np.uint16({in_slot[0] if one_kind else f'{in_slot}[i % {KINDS}]'})
        a.{lst}[i].min_level = np.uint8(4 * i + 1)
        a.{lst}[i].max_level = np.uint8(4 * i + 4)
    g = WildGenerator3(np.uint8({METHOD[method]}), np.uint8({eid}), np.uint8({lead}), np.uint8({GAMES[game]}), np.uint16(inp[3]), np.uint16(0))
    g.personal_info_table = info
    r = g.generate(np.uint32({'0' if draws else 'inp[0]'}), np.uint32({delay}), np.uint32({ini}), np.uint32({n}), a)
    out[0] = len(r)
    k = 1
    for st in r:
        out[k] = st.advance
        out[k + 1] = st.pid
        out[k + 2] = np.uint32(st.species) | (np.uint32(st.form) << np.uint32(16))
        out[k + 3] = st.level
        out[k + 4] = st.shiny
        if not USE_NUMBA:
            out[k + 5] = st.gender
        else:
            out[k + 5] = info[st.species].gender_ratio
        out[k + 6] = st.ability_index
        for i in range(6):
            out[k + 7 + i] = st.ivs[i]
        k += 13
    if arr[0].location != {loc}:
        out[0] = 99
"""
    return s


INS = [("s", 32), ("r0", 8), ("r1", 8), ("tsv", 16), ("rate", 8)]


def u16(s):
    s = nxt(s)
    return hi16(s), s


def one(v, s, enc, method, lead, game, rerolls, loc):
    """(reported, enough rerolls, the 12 fields after the advance) of the encounter at state s"""
    eid, _, cnt, cum, _ = ENC[enc]
    ok = T.TRUE
    one_kind = lead in CHARM and "fixed" not in v
    if enc == "ROCK_SMASH" and game != "FIRE_RED":
        c, s = rand(s, 2880)
        ok = T.ult(c, T.mul(T.zext(v["rate"], 16), C(16, 16)))
    if game != "EMERALD":
        lead = LEAD["NONE"]  # lead abilities matter in Emerald only
    branches = []  # (condition, slot, state)
    if lead in (LEAD["MAGNET_PULL"], LEAD["STATIC"]):
        # species 1 is steel, species 2 electric: every second slot
        first = 0 if lead == LEAD["MAGNET_PULL"] else 1
        c, s1 = rand(s, 2)
        k, s2 = rand(s1, (cnt + 1 - first) // 2)
        pulled = T.eq(c, C(0, 16))
        branches.append((pulled, T.add(T.mul(T.extract(k, 7, 0), C(2, 8)), C(first, 8)), s2))
        roll, s3 = rand(s1, 100)
        branches.append((T.not_(pulled), slot_of(roll, cum), s3))
    else:
        roll, s = rand(s, 100)
        branches.append((T.TRUE, slot_of(roll, cum), s))
    out = None
    for cond, slot, s in reversed(branches):
        fit, f = after_slot(v, slot, s, method, lead, game, rerolls, loc, one_kind)
        out = (fit, f) if out is None else (T.ite(cond, fit, out[0]), [T.ite(cond, x, y) for x, y in zip(f, out[1])])
    return ok, out[0], out[1]


def after_slot(v, slot, s, method, lead, game, rerolls, loc, one_kind=False):
    kind = C(0, 1) if one_kind else T.extract(slot, 0, 0)
    ratio = T.ite(T.eq(kind, C(0, 1)), v["r0"], v["r1"])
    lo = T.add(T.mul(slot, C(4, 8)), C(1, 8))
    l, s = rand(s, 4)
    level = T.add(lo, T.extract(l, 7, 0))
    if lead == LEAD["PRESSURE"]:
        c, s = rand(s, 2)
        level = T.ite(T.eq(c, C(0, 16)), T.add(lo, C(3, 8)), T.ite(T.eq(l, C(0, 16)), level, T.sub(level, C(1, 8))))
    charm = lead in (LEAD["CUTE_CHARM_F"], LEAD["CUTE_CHARM_M"])
    if charm:
        both = T.and_(T.ult(C(0, 8), ratio), T.ult(ratio, C(254, 8)))
        c, s1 = rand(s, 3)
        ways = [(T.not_(both), T.FALSE, s), (both, T.ne(c, C(0, 16)), s1)]
    else:
        ways = [(T.TRUE, T.FALSE, s)]
    out = None
    for cond, flag, s in ways:
        fit, f = after_charm(v, flag, ratio, s, method, lead, game, rerolls, loc)
        f = [T.ite(T.eq(kind, C(0, 1)), C(SPECIES[0] | FORMS[0] << 16, 32), C(SPECIES[1] | FORMS[1] << 16, 32)), level, ratio, kind] + f
        out = (fit, f) if out is None else (T.ite(cond, fit, out[0]), [T.ite(cond, x, y) for x, y in zip(f, out[1])])
    fit, (spe, level, ratio, kind, pid, *iv) = out
    ab = T.add(T.ite(T.eq(T.extract(pid, 0, 0), C(1, 1)), C(30, 8), C(20, 8)), T.zext(kind, 8))
    return fit, [pid, spe, level, shiny(pid, v["tsv"]), ratio, ab] + iv


def after_charm(v, flag, ratio, s, method, lead, game, rerolls, loc):
    if loc in SAFARI[game]:
        s = nxt(s)  # pokeblock
    if lead < 25:
        c, s1 = rand(s, 2)
        nat, s2 = rand(s1, 25)
        sync = T.eq(c, C(0, 16))
        a = after_nature(v, C(lead, 16), flag, ratio, s1, method, lead, rerolls)
        b = after_nature(v, nat, flag, ratio, s2, method, lead, rerolls)
        return T.ite(sync, a[0], b[0]), [T.ite(sync, x, y) for x, y in zip(a[1], b[1])]
    nature, s = rand(s, 25)
    return after_nature(v, nature, flag, ratio, s, method, lead, rerolls)


def after_nature(v, nature, flag, ratio, s, method, lead, rerolls):
    pids = []
    for _ in range(rerolls + 1):
        lo, s = u16(s)
        hi, s = u16(s)
        pid = T.concat(hi, lo)
        hit = T.eq(T.urem(pid, C(25, 32)), T.zext(nature, 32))
        if flag is not T.FALSE:
            male = T.not_(T.ult(T.extract(pid, 7, 0), ratio))
            hit = T.and_(hit, T.or_(T.not_(flag), male if lead == LEAD["CUTE_CHARM_F"] else T.not_(male)))
        pids.append((hit, pid, s))
    res = None
    for hit, pid, s in reversed(pids):
        if method == "METHOD_2":
            s = nxt(s)
        a, s = u16(s)
        if method == "METHOD_4":
            s = nxt(s)
        b, s = u16(s)
        iv = [T.extract(a, 4, 0), T.extract(a, 9, 5), T.extract(a, 14, 10), T.extract(b, 9, 5), T.extract(b, 14, 10), T.extract(b, 4, 0)]
        f = [pid] + iv
        res = f if res is None else [T.ite(hit, x, y) for x, y in zip(f, res)]
    return T.or_(*[h for h, _, _ in pids]), res


SAFARI = {"RUBY": (90, 187, 89, 186, 92, 189, 91, 188), "EMERALD": (73, 98, 74, 20, 97, 72), "FIRE_RED": ()}


def spec(v, n, ini, delay, *a):
    s = v["s"]
    for _ in range(ini + delay):
        s = nxt(s)
    outs, total = [], C(0, 8)
    for i in range(n):
        ok, _, f = one(v, s, *a)
        outs.append((ok, [C(ini + i, 32)] + f))
        total = T.add(total, T.zext(ok, 8))
        s = nxt(s)
    assert n <= 2
    if n == 1:
        return [total] + [T.ite(outs[0][0], x, C(0, x.w)) for x in outs[0][1]]
    (ok0, f0), (ok1, f1) = outs
    first = [T.ite(ok0, x, T.ite(ok1, y, C(0, x.w))) for x, y in zip(f0, f1)]
    return [total] + first + [T.ite(T.and_(ok0, ok1), y, C(0, y.w)) for y in f1]


def within(v, n, ini, delay, *a):
    """every reported encounter needs at most the given number of PID rerolls"""
    s, c = v["s"], []
    for _ in range(ini + delay):
        s = nxt(s)
    for i in range(n):
        ok, fit, f = one(v, s, *a)
        c.append(T.or_(T.not_(ok), fit))
        if isinstance(s, Pos):
            # shininess (C24's) would only multiply the paths
            c.append(T.eq(f[3], C(0, f[3].w)))
        s = nxt(s)
    return T.and_(*c)


def add(enc, method, lead, game, n=1, rerolls=1, loc=0, ini=0, delay=0, tier="quick", ratios=None, draws=0, **kw):
    lead = LEAD.get(lead, lead)
    args = (n, ini, delay, enc, method, lead, game, rerolls, loc)
    name = f"wild[{enc},{method},lead={lead},{game},loc={loc},{ini}+{delay}+{n}]"
    if any(o.name == name for o in obs):
        name = name[:-1] + f",rerolls={rerolls}]"
    opts = dict(merge=True, unroll=14, pool=400, feas_timeout=2.0, bounds=f"{n} advances from {ini}, delay {delay}, at most {rerolls} PID rerolls")
    opts.update(kw)

    def given(v):
        # both species in the slots, with fixed gender ratios
        if draws:
            v = {**v, "s": Pos(0, [v[f"d{k}"] for k in range(draws)])}
        return v if ratios is None else {**v, "r0": C(ratios[0], 8), "r1": C(ratios[1], 8), "fixed": True}
    ins = INS
    if draws:
        name, opts["modes"] = name.replace("wild[", "wild draws["), ("numpy",)
        opts["bounds"] += "; every sequence of draws"
        ins = [("low", 16)] + INS[1:] + [(f"d{k}", 16) for k in range(draws)]
        opts.setdefault("max_paths", 6000)
        opts["merge"] = False
        opts["bounds"] += " none of which is shiny"
    if ratios:
        name, opts["bounds"] = name[:-1] + f",ratios={ratios}]", opts["bounds"] + f"; gender ratios {ratios}"
    obs.append(Ob(name, src(enc, method, lead, game, n, None, loc, ini, delay, ratios, draws), ins, 1 + 13 * n,
                  lambda v: spec(given(v), *args), tier=tier, assume=lambda v: within(given(v), *args), **opts))


for m in METHOD:
    add("OLD_ROD", m, "NONE", "EMERALD")
for e, m, g in [("GRASS", "METHOD_1", "FIRE_RED"), ("SURFING", "METHOD_2", "RUBY"), ("GOOD_ROD", "METHOD_4", "RUBY"),
                ("SUPER_ROD", "METHOD_1", "EMERALD"), ("ROCK_SMASH", "METHOD_1", "FIRE_RED")]:
    add(e, m, "NONE", g)
add("OLD_ROD", "METHOD_1", 0, "EMERALD")
add("GRASS", "METHOD_2", 3, "EMERALD")
add("SURFING", "METHOD_1", 24, "EMERALD")
add("OLD_ROD", "METHOD_1", 3, "RUBY")
add("GRASS", "METHOD_1", "PRESSURE", "EMERALD")
add("SURFING", "METHOD_4", "MAGNET_PULL", "EMERALD")
add("GOOD_ROD", "METHOD_1", "STATIC", "EMERALD")
add("OLD_ROD", "METHOD_1", "CUTE_CHARM_F", "EMERALD", rerolls=0)
add("SURFING", "METHOD_2", "CUTE_CHARM_M", "EMERALD", rerolls=0)
add("OLD_ROD", "METHOD_1", "CUTE_CHARM_M", "FIRE_RED")
add("OLD_ROD", "METHOD_1", "CUTE_CHARM_F", "EMERALD", rerolls=0, n=2, ratios=(127, 255), draws=12, wall=240)
add("SURFING", "METHOD_1", "CUTE_CHARM_M", "EMERALD", rerolls=1, ratios=(31, 254), draws=14, wall=240)
add("GRASS", "METHOD_4", "MAGNET_PULL", "EMERALD", rerolls=1, n=1, draws=14, wall=240)
add("GRASS", "METHOD_1", 7, "EMERALD", rerolls=2, n=1, draws=16, wall=240)
add("GOOD_ROD", "METHOD_2", "PRESSURE", "EMERALD", rerolls=0, n=2, draws=14, wall=240)
add("ROCK_SMASH", "METHOD_1", "NONE", "RUBY", rerolls=0, n=2, draws=14, wall=240)
for loc, g in [(73, "EMERALD"), (90, "RUBY"), (90, "EMERALD"), (73, "FIRE_RED")]:
    add("OLD_ROD", "METHOD_1", "NONE", g, loc=loc)
add("OLD_ROD", "METHOD_1", "NONE", "EMERALD", ini=3, delay=2)
add("OLD_ROD", "METHOD_1", "NONE", "EMERALD", n=2, ini=1, modes=("numba",))
add("OLD_ROD", "METHOD_1", "NONE", "EMERALD", n=2, ini=1, rerolls=0)
add("ROCK_SMASH", "METHOD_1", "NONE", "EMERALD")
add("ROCK_SMASH", "METHOD_1", "NONE", "RUBY", n=2, modes=("numba",), tier="thorough")
add("ROCK_SMASH", "METHOD_1", "NONE", "RUBY", n=2, rerolls=0)
add("OLD_ROD", "METHOD_1", "NONE", "EMERALD", rerolls=3, tier="thorough")
CHECK = Check("C23", obs, assumptions=[
    "the personal table is replaced by two species whose types, abilities and gender ratios are given; the ratios are symbolic",
    "numpy mode: GeneratorState.update_stats is replaced by one that records the gender ratio (its result is C24's and C25's)"],
    outside=["more PID rerolls or advances than stated", "Unown", "leads whose effect is not a slot, level, nature or gender choice"])
