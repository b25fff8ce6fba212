"""C28: reading a FlatBuffer gives back what was encoded, and the defaults where fields are absent.

The encoder (checks/fbmodel.py) is written from the format; the field numbers of the Legends Arceus tables below are
this check's own statement of the layout.  Field values are symbolic, and so is which fields are absent."""
from vlib.obl import Ob, Check
from vlib import terms as T

C = T.const
PRELOAD = ["numba_pokemon_prngs.data.fbs.flatbuffer_object", "numba_pokemon_prngs.data.fbs.encounter_la"]
HDR = """import numpy as np
from checks import fbmodel as F
from numba_pokemon_prngs.data.fbs import flatbuffer_object as O, encounter_la as L
"""
obs = []
NONE, INT, BOOL = 0, 1, 2


def finite(t):
    """a bit pattern that is no NaN"""
    e, m = (8, 23) if t.w == 32 else (11, 52)
    return T.or_(T.ne(T.extract(t, t.w - 2, m), C((1 << e) - 1, e)), T.eq(T.extract(t, m - 1, 0), C(0, m)))


def ext(t, signed):
    return T.sext(t, 64) if signed else T.zext(t, 64)


LAYOUTS = [(sh, bw) for sh in (False, True) for bw in (False, True)]


def lay(k):
    return f"shared={LAYOUTS[k][0]}, backwards={LAYOUTS[k][1]}"


# ---- single accessors: four fields, each present or absent, vtable of any length, any field read
for kind, bits, signed in [(f"{s}{n}", n, s == "i") for n in (8, 16, 32, 64) for s in "ui"]:
    for form in ("at", "init", "enum", "init enum"):
        call = {"at": f"o.read_int(O.{kind.upper()}, 4 + 2 * pos, d)",
                "init": f"o.read_init_int(O.{kind.upper()}, default=d)",
                "enum": f"o.read_int_enum(O.{kind.upper()}, 4 + 2 * pos, conv, d)",
                "init enum": f"o.read_init_int_enum(O.{kind.upper()}, conv, default=d)"}[form]
        lk = len(obs) % 4
        src = HDR + f"""
def conv(x):
    return (x & 0xFFFFFFFFFFFFFFFF) ^ 0x5A

def h(inp, out):
    e = F.Enc(np, {lay(lk)}, cut=inp[9])
    buf, pos0 = e.root([(i, "{kind}", inp[i], inp[4 + i]) for i in range(4)])
    o = O.FlatBufferObject(buf)
    pos = int(inp[8])
    d = 12345 if inp[10] else None
    if {form.startswith("init")}:
        o.read_init_padding(pos)
    r = F.word({call})
    out[0] = r[0]
    out[1] = r[1]
    r = F.word(o.read_init_int(O.{kind.upper()}, 777))
    out[2] = r[0]
    out[3] = r[1]
    q = O.FlatBufferObject(buf, pos0)
    r = F.word(q.read_int(O.{kind.upper()}, 4 + 2 * pos, 778))
    out[4] = r[0]
    out[5] = r[1]
"""

        def spec(v, signed=signed, form=form):
            def field(i):
                r = C(0, 65)
                for k in range(4):
                    val = T.concat(C(1, 1), ext(v[f"x{k}"], signed))
                    r = T.ite(T.and_(T.eq(i, C(k, i.w)), T.eq(v[f"p{k}"], C(1, 1)), T.ult(C(k, 3), v["cut"])), val, r)
                return T.eq(T.extract(r, 64, 64), C(1, 1)), T.extract(r, 63, 0)
            pos = T.zext(v["pos"], 4)
            ok, val = field(pos)
            if "enum" in form:
                val = T.xor(val, C(0x5A, 64))
            d = T.eq(v["dflt"], C(1, 1))
            nxt = T.add(pos, C(1, 4)) if form.startswith("init") else C(0, 4)
            ok2, val2 = field(nxt)
            ok3, val3 = field(pos)
            return [T.ite(ok, C(INT, 64), T.ite(d, C(INT, 64), C(NONE, 64))), T.ite(ok, val, T.ite(d, C(12345, 64), C(0, 64))),
                    C(INT, 64), T.ite(ok2, val2, C(777, 64)), C(INT, 64), T.ite(ok3, val3, C(778, 64))]
        obs.append(Ob(f"integer field[{kind} {form}]", src, [(f"x{k}", bits) for k in range(4)] + [(f"p{k}", 1) for k in range(4)]
                      + [("pos", 3), ("cut", 3), ("dflt", 1)], 6, spec,
                      assume=lambda v: T.and_(T.ult(v["pos"], C(6, 3)), T.ult(v["cut"], C(5, 3))), modes=("numpy",), samples=20,
                      bounds="table of four fields of every value, any of them absent, vtable of any length from 0 to 4 fields, "
                      "any of the positions 0 to 5, with and without default"))

for kind, bits in (("f32", 32), ("f64", 64)):
    for form in ("at", "init"):
        lk = len(obs) % 4
        call = {"at": f"o.read_float(O.{kind.upper()}, 4 + 2 * pos, d)", "init": f"o.read_init_float(O.{kind.upper()}, default=d)"}[form]
        src = HDR + f"""
def h(inp, out):
    e = F.Enc(np, {lay(lk)}, cut=inp[7])
    buf, pos0 = e.root([(i, "{kind}", inp[i], inp[3 + i]) for i in range(3)])
    o = O.FlatBufferObject(buf)
    pos = int(inp[6])
    d = 1.5 if inp[8] else None
    if {form == "init"}:
        o.read_init_padding(pos)
    r = {call}
    if r is None:
        out[0] = 0
        out[1] = 0
    else:
        out[0] = 1
        out[1] = F.bits(np, r, {bits})
    out[2] = F.bits(np, o.read_init_float(O.{kind.upper()}, 2.5), {bits})
"""

        def spec(v, bits=bits, form=form):
            from vlib.terms import f2b
            pos = T.zext(v["pos"], 4)

            def field(i):
                r = C(0, bits + 1)
                for k in range(3):
                    r = T.ite(T.and_(T.eq(i, C(k, 4)), T.eq(v[f"p{k}"], C(1, 1)), T.ult(C(k, 3), v["cut"])),
                              T.concat(C(1, 1), v[f"x{k}"]), r)
                return T.eq(T.extract(r, bits, bits), C(1, 1)), T.extract(r, bits - 1, 0)
            ok, val = field(pos)
            d = T.eq(v["dflt"], C(1, 1))
            ok2, val2 = field(T.add(pos, C(1, 4)) if form == "init" else C(0, 4))
            return [T.ite(T.or_(ok, d), C(1, 64), C(0, 64)),
                    T.zext(T.ite(ok, val, T.ite(d, f2b(1.5, bits), C(0, bits))), 64), T.zext(T.ite(ok2, val2, f2b(2.5, bits)), 64)]
        obs.append(Ob(f"float field[{kind} {form}]", src, [(f"x{k}", bits) for k in range(3)] + [(f"p{k}", 1) for k in range(3)]
                      + [("pos", 3), ("cut", 3), ("dflt", 1)], 3, spec,
                      assume=lambda v: T.and_(T.ult(v["pos"], C(5, 3)), T.ult(v["cut"], C(4, 3)), *[finite(v[f"x{k}"]) for k in range(3)]),
                      modes=("numpy",), samples=20,
                      bounds="table of three fields of every value but NaN, any absent, vtable of any length, any position, "
                      "with and without default"))

# ---- sub-tables, vectors of tables, strings, three-dimensional vectors
PARTS = {
    "object": (0, "o.read_object(Sub, 4, d)", "o.read_init_object(Sub, d)"),
    "array": (1, "o.read_object_array(Sub, 6)", "o.read_init_object_array(Sub)"),
    "string": (2, "o.read_string(8, d)", "o.read_init_string(d)"),
    "vec3f": (3, "o.read_vec3f(10, d)", "o.read_init_vec3f(d)"),
}
SHOW = {
    "object": """
    if r is not None:
        out[0] = 1
        out[1] = r.a
        out[2] = r.b & 0xFFFFFFFFFFFFFFFF
""", "array": """
    out[0] = len(r)
    for k in range(len(r)):
        out[1 + 2 * k] = r[k].a
        out[2 + 2 * k] = r[k].b & 0xFFFFFFFFFFFFFFFF
""", "string": """
    if r is not None:
        out[0] = 1 + len(r)
        for k in range(len(r)):
            out[1 + k] = ord(r[k])
""", "vec3f": """
    if r is not None:
        out[0] = 1
        t = r.as_tuple()
        for k in range(3):
            out[1 + k] = 1 if t[k] is None else F.bits(np, t[k], 32)
        out[4] = len(t)
        out[5] = F.bits(np, r.x, 32) if r.x is not None else 1
        out[6] = F.bits(np, r.z, 32)
"""}


def composite(part, form, lk):
    slot, at, init = PARTS[part]
    # inputs: presence of the field, presence of the field after it, its value, then what the part needs
    ins = [("p", 1), ("pn", 1), ("end", 16)]
    pre, enc = "", {0: "[(0, 'u32', 1)]", 1: "F.Vec([[(0, 'u32', 1)]])", 2: "F.Vec([65])", 3: "[(i, 'f32', 0x40000000) for i in range(3)]"}
    if part == "object":
        ins += [("a0", 32), ("b0", 64), ("q0", 1)]
        enc[0] = "sub(inp, 3)"
    elif part == "array":
        for k in range(3):
            ins += [(f"a{k}", 32), (f"b{k}", 64), (f"q{k}", 1)]
        ins.append(("n", 2))
        enc[1] = "F.Vec([sub(inp, 3), sub(inp, 6), sub(inp, 9)], inp[12])"
    elif part == "string":
        ins += [("n", 2)] + [(f"c{k}", 11) for k in range(3)]
        pre = """
    text = []
    for k in range(int(inp[3])):
        c = inp[4 + k]
        if c < 128:
            text.append(c)
        else:
            text.append(np.uint64(0xC0) | (c >> np.uint64(6)))
            text.append(np.uint64(0x80) | (c & np.uint64(63)))
"""
        enc[2] = "F.Vec(text)"
    else:
        ins += [(f"f{k}", 32) for k in range(3)] + [("fy", 1)]
        enc[3] = "[(i, 'f32', inp[3 + i], inp[6] if i == 1 else None) for i in range(3)]"
    kind = {0: "tab", 1: "vec", 2: "str", 3: "tab"}
    fields = ", ".join(f"({k}, '{kind[k]}', {enc[k]}" + (", inp[0])" if k == slot else ")") for k in range(4))
    src = HDR + f"""
class Sub(O.FlatBufferObject):
    def __init__(self, buf, offset):
        super().__init__(buf, offset)
        self.a = self.read_init_int(O.U32, 5)
        self.b = self.read_init_int(O.I64, 6)

def sub(inp, k):
    return [(0, "u32", inp[k], inp[k + 2]), (1, "i64", inp[k + 1])]

def h(inp, out):
{pre}
    e = F.Enc(np, {lay(lk)})
    buf, pos0 = e.root([{fields}, (4, "u16", 7), ({slot + 5}, "u16", inp[2], inp[1])])
    o = O.FlatBufferObject(buf)
    d = None
    if {form == "init"}:
        o.read_init_padding({slot})
    r = {init if form == "init" else at}
{SHOW[part]}
    if {form == "init"}:
        o.read_init_padding(4)
        out[8] = o.read_init_int(O.U16, 99)
    else:
        out[8] = o.read_int(O.U16, {4 + 2 * (slot + 5)}, 99)
"""

    def spec(v):
        on = T.eq(v["p"], C(1, 1))
        z = C(0, 64)
        out = [z] * 8
        if part == "object":
            out[:3] = [T.zext(v["p"], 64), T.ite(T.eq(v["q0"], C(1, 1)), T.zext(v["a0"], 64), C(5, 64)), v["b0"]]
        elif part == "array":
            out[0] = n = T.zext(v["n"], 64)
            for k in range(3):
                c = T.ult(C(k, 64), n)
                out[1 + 2 * k] = T.ite(c, T.ite(T.eq(v[f"q{k}"], C(1, 1)), T.zext(v[f"a{k}"], 64), C(5, 64)), z)
                out[2 + 2 * k] = T.ite(c, v[f"b{k}"], z)
        elif part == "string":
            out[0] = T.add(T.zext(v["n"], 64), C(1, 64))
            for k in range(3):
                out[1 + k] = T.ite(T.ult(C(k, 2), v["n"]), T.zext(v[f"c{k}"], 64), z)
        else:
            y = T.ite(T.eq(v["fy"], C(1, 1)), T.zext(v["f1"], 64), C(1, 64))
            x, zz = T.zext(v["f0"], 64), T.zext(v["f2"], 64)
            out[:7] = [C(1, 64), x, y, zz, C(3, 64), x, zz]
        return [T.ite(on, x, z) for x in out] + [T.ite(T.eq(v["pn"], C(1, 1)), T.zext(v["end"], 64), C(99, 64))]
    return Ob(f"{part}[{form}, {lay(lk)}]", src, ins, 9, spec, assume=lambda v: T.and_(
        T.TRUE, *[finite(t) for n, t in v.items() if n in ("f0", "f1", "f2")]), modes=("numpy",), max_paths=20000, samples=20, wall=250,
        bounds="one field of the kind, present or absent" + {"array": ", up to three elements", "string":
                                                             ", up to three characters below U+0800"}.get(part, ""))


for part in PARTS:
    for form in ("at", "init"):
        for lk in range(4):
            obs.append(composite(part, form, lk))

# ---- the Legends Arceus layouts: (attribute, kind, default, path); a path is a slot, or slots of nested tables ("t")
# and one-or-more element arrays of which the first element counts ("v"), then a slot
def mult(base, path, n0):
    return ([(f"{base}time_of_day_multipliers[{k}]", "f32", 0.0, path + (n0 + k,)) for k in range(4)]
            + [(f"{base}weather_multipliers[{k + 1}]", "f32", 0.0, path + (n0 + 4 + k,)) for k in range(8)])


RECORDS = {
    "EncounterMultiplier8a": [("species", "i32", None, (0,)), ("form", "i32", 0, (1,))] + mult("", (), 2),
    "PokeMisc8a": [("species", "i32", None, (0,)), ("form", "i32", 0, (1,)), ("alpha_level_index", "i32", 0, (6,))],
    "PlacementSpawner8a": [("spawner_id", "u64", None, (0,)), ("group_id", "u64", None, (1,)),
                           ("coordinates.x", "f32", None, ("v2", "t7", 0)), ("coordinates.y", "f32", None, ("v2", "t7", 1)),
                           ("coordinates.z", "f32", None, ("v2", "t7", 2)), ("min_spawn_count", "i32", None, (7,)),
                           ("max_spawn_count", "i32", None, (8,)), ("is_mass_outbreak", "bool", None, (10,)),
                           ("is_water", "bool", None, (11,)), ("is_sky", "bool", None, (12,)),
                           ("encounter_table_id", "u64", None, ("v20", 0))],
    "EncounterTable8a": [("table_id", "u64", None, (0,)), ("min_level", "i32", None, (1,)), ("max_level", "i32", None, (2,))],
    "EncounterSlot8a": [("species", "i32", None, (0,)), ("gender", "i32", 0, (2,)), ("form", "i32", None, (3,)),
                        ("guaranteed_ivs", "i32", None, (25,)), ("base_probability", "i32", None, (29,)),
                        ("override_min_level", "i32", 0, (30,)), ("override_max_level", "i32", 0, (31,))]
    + mult("encounter_eligibility.", ("t45",), 7)
    + [("is_alpha", "or", None, ("t46", 0)), (None, "or", None, ("t46", 1))],
    "NewHugeOutbreakSecondWave8a": [("encounter_table_id", "u64", None, (7,))],
    "NewHugeOutbreakGroupLotteryDetail8a": [("hash", "u64", None, (0,))],
    "NewHugeOutbreakGroup8a": [("hash", "u64", None, (0,)), ("first_wave_encounter_table_id", "u64", None, (2,))],
    "NewHugeOutbreakGroupLottery8a": [("hash", "u64", None, (0,))],
}
WIDTH = {"i32": 32, "u64": 64, "f32": 32, "bool": 8, "or": 8}
STORED = {"bool": "i8", "or": "i8"}


def encoded(rec, value, present=None, arrays=()):
    """source of the list of fields of a record; unknown fields hold junk"""
    tree = {}
    for i, (_, kind, _, path) in enumerate(RECORDS[rec]):
        t = tree
        for p in path[:-1]:
            t = t.setdefault(p, {})
        t[path[-1]] = i
    for slot, e in arrays:
        tree[slot] = e

    def go(t, depth, junk):
        parts, used = [], set()
        for p, x in t.items():
            slot = p if isinstance(p, int) else int(p[1:])
            used.add(slot)
            if isinstance(x, dict):
                if p[0] == "t":
                    parts.append(f"({slot}, 'tab', {go(x, depth + 1, junk)})")
                else:
                    parts.append(f"({slot}, 'vec', F.Vec([{go(x, depth + 1, junk)}, {go(x, depth + 1, True)}]))")
            elif isinstance(x, str):
                parts.append(f"({slot}, 'vec', {x})")
            else:
                k = RECORDS[rec][x][1]
                val = "0x0123456789ABCDEF" if junk else value(x)
                parts.append(f"({slot}, '{STORED.get(k, k)}', {val}" + (f", {present(x)})" if present and not junk else ")"))
        for slot in range(max(used) + 3):
            if slot not in used:
                parts.append(f"({slot}, 'u64', {0x1111111111111111 * (slot % 13 + 1) & 0x7FFFFFFFFFFFFFFF})")
        return "[" + ", ".join(parts) + "]"
    return go(tree, 0, False)


EMPTY = "F.Vec([])"
ARRAYS = {"EncounterTable8a": [(3, EMPTY)], "NewHugeOutbreakGroup8a": [(1, EMPTY)],
          "NewHugeOutbreakGroupLottery8a": [(1, EMPTY), (2, EMPTY), (3, EMPTY)]}


def layout(rec, lk, tier):
    leaves = RECORDS[rec]
    n = len(leaves)
    shown = [(i, l) for i, l in enumerate(leaves) if l[0]]
    body = "".join(f"""
    r = x.{a}
    out[{2 * j}], out[{2 * j + 1}] = F.word(r) if {kind != "f32"} or r is None else (1, F.bits(np, r, 32))
    """ for j, (i, (a, kind, _, _)) in enumerate(shown))
    if "weather_multipliers" in "".join(str(l[0]) for l in leaves):
        base = "x.encounter_eligibility." if rec == "EncounterSlot8a" else "x."
        body += f"""
    out[{2 * len(shown)}] = F.bits(np, {base}weather_multipliers[0], 32)
    out[{2 * len(shown) + 1}] = 100 * len({base}weather_multipliers) + len({base}time_of_day_multipliers)
"""
        extra = [T.zext(T.f2b(1.0, 32), 64), C(904, 64)]
    else:
        extra = []
    src = HDR + f"""
def h(inp, out):
    e = F.Enc(np, {lay(lk)})
    e.alloc(4)
    p = e.table({encoded(rec, lambda i: f"inp[{i}]", lambda i: f"inp[{n}] != {i} and inp[{n + 1}] != {i}", ARRAYS.get(rec, ()))})
    x = L.{rec}(e.finish(), p)
{body}
"""

    def spec(v):
        def here(i):
            return T.and_(T.ne(v["s0"], C(i, 6)), T.ne(v["s1"], C(i, 6)))
        out = []
        for i, (_, kind, d, _) in shown:
            x = v[f"x{i}"]
            if kind == "or":
                t = T.or_(*[T.and_(here(k), T.ne(v[f"x{k}"], C(0, 8))) for k in range(n) if leaves[k][1] == "or"])
                out += [C(BOOL, 64), T.zext(t, 64)]
                continue
            val = T.zext(T.ne(x, C(0, 8)), 64) if kind == "bool" else ext(x, kind == "i32")
            if d is None:
                tag, dv = NONE, C(0, 64)
            else:
                tag, dv = INT, T.zext(T.f2b(d, 32), 64) if kind == "f32" else C(d, 64)
            out += [T.ite(here(i), C(BOOL if kind == "bool" else INT, 64), C(tag, 64)), T.ite(here(i), val, dv)]
        return out + extra
    return Ob(f"layout[{rec}, {lay(lk)}]", src, [(f"x{i}", WIDTH[l[1]]) for i, l in enumerate(leaves)] + [("s0", 6), ("s1", 6)],
              2 * len(shown) + len(extra), spec,
              assume=lambda v: T.and_(T.ule(v["s0"], v["s1"]), T.ule(v["s1"], C(n, 6)), *[
                  finite(v[f"x{i}"]) for i, l in enumerate(leaves) if l[1] == "f32"]),
              modes=("numpy",), max_paths=20000, samples=20, wall=300, tier=tier, weight=2,
              bounds=f"every value of every field, any two of the {n} fields absent")


for j, rec in enumerate(RECORDS):
    for lk in range(4):
        obs.append(layout(rec, lk, "quick" if lk == j % 4 else "thorough"))


# ---- whole files: arrays of records and the lookup tables made from them
BASE = 0x1FE79A5E1FFE1C60


def whole(name, table, listing, lookup, rec, key, ident, form=False, tier="quick"):
    """up to three records; the key of each is one of four, all different; look up each of the four keys"""
    leaves = RECORDS[rec]
    ki = [i for i, l in enumerate(leaves) if l[0] == key][0]
    ii = [i for i, l in enumerate(leaves) if l[0] == ident][0]
    base = 400 if leaves[ki][1] == "i32" else BASE
    fi = [i for i, l in enumerate(leaves) if l[0] == "form"][0] if form else None

    def record(k):
        def value(i):
            if i == fi:
                return f"inp[{7 + k}]"
            return f"inp[{1 + k}] + np.uint64({base})" if i == ki else f"inp[{4 + k}]" if i == ii else "3"
        return encoded(rec, value, (lambda i: f"(inp[{7 + k}] != 0)" if i == fi else "None") if form else None, ARRAYS.get(rec, ()))
    src = HDR + f"""
def h(inp, out):
    e = F.Enc(np)
    buf, pos0 = e.root([(0, "vec", F.Vec([{', '.join(record(k) for k in range(3))}], inp[0])), (1, "u64", 99)])
    x = L.{table}(buf)
    out[0] = len(x.{listing})
    for k in range(len(x.{listing})):
        out[1 + k] = F.word(x.{listing}[k].{ident})[1]
    for k in range(4):
        for f in range({2 if form else 1}):
            r = x.{lookup}.get({f"({base} + k, f)" if form else f"{base} + k"})
            if r is not None:
                out[4 + {2 if form else 1} * k + f] = 1
                out[{12 if form else 8} + {2 if form else 1} * k + f] = F.word(r.{ident})[1]
    out[{20 if form else 12}] = len(x.{lookup})
"""
    nf = 2 if form else 1

    def spec(v):
        n = T.zext(v["n"], 64)
        w = WIDTH[leaves[ii][1]]
        out = [n] + [T.ite(T.ult(C(k, 64), n), ext(v[f"i{k}"], w == 32), C(0, 64)) for k in range(3)]
        has, val = [], []
        for k in range(4):
            for f in range(nf):
                h, x = T.FALSE, C(0, 64)
                for j in range(3):
                    c = T.and_(T.ult(C(j, 64), n), T.eq(v[f"k{j}"], C(k, 2)), *([T.eq(v[f"f{j}"], C(f, 1))] if form else []))
                    h, x = T.or_(h, c), T.ite(c, ext(v[f"i{j}"], w == 32), x)
                has.append(T.zext(h, 64))
                val.append(x)
        return out + has + val + [n]

    def assume(v):
        d = [T.or_(T.ne(v[f"k{i}"], v[f"k{j}"]), *([T.ne(v[f"f{i}"], v[f"f{j}"])] if form else [])) for i in range(3) for j in range(i)]
        return T.and_(*d)
    ins = [("n", 2)] + [(f"k{k}", 2) for k in range(3)] + [(f"i{k}", WIDTH[leaves[ii][1]]) for k in range(3)]
    ins += [(f"f{k}", 1) for k in range(3)] if form else []
    return Ob(f"file[{name}]", src, ins, 4 + 8 * nf + 1, spec, assume=assume, modes=("numpy",), max_paths=20000, samples=20, wall=250,
              bounds="files of up to three records with different keys" + (", two forms (form 0 encoded as absent)" if form else ""),
              tier=tier)


obs.append(whole("misc", "PokeMisc8aTable", "misc_list", "misc_lookup", "PokeMisc8a", "species", "alpha_level_index", form=True))
obs.append(whole("spawners by id", "PlacementSpawner8aTable", "spawners", "spawner_table_lookup", "PlacementSpawner8a",
                 "spawner_id", "max_spawn_count"))
obs.append(whole("spawners by group", "PlacementSpawner8aTable", "spawners", "spawner_by_group", "PlacementSpawner8a",
                 "group_id", "min_spawn_count"))
obs.append(whole("encounter tables", "EncounterTable8aTable", "encounter_tables", "encounter_table_lookup", "EncounterTable8a",
                 "table_id", "min_level"))
obs.append(whole("outbreak groups", "NewHugeOutbreakGroupTable8a", "groups", "group_lookup", "NewHugeOutbreakGroup8a", "hash",
                 "first_wave_encounter_table_id"))

obs.append(Ob("file[encounter multipliers]", HDR + f"""
def h(inp, out):
    e = F.Enc(np)
    buf, pos0 = e.root([(0, "vec", F.Vec([{', '.join(encoded("EncounterMultiplier8a", lambda i, k=k: ["inp[%d]" % (1 + k), "inp[%d]" % (3 + k), "inp[%d]" % (5 + k)][min(i, 2)],
                                                              lambda i, k=k: f"(inp[{3 + k}] != 0)" if i == 1 else "None") for k in range(2))}], inp[0]))])
    x = L.EncounterMultiplier8aTable(buf)
    out[0] = len(x.encounter_multipliers)
    out[1] = len(x.multiplier_lookup)
    for s in range(2):
        for f in range(2):
            r = x.multiplier_lookup.get((s, f))
            if r is not None:
                out[2 + 2 * s + f] = F.bits(np, r.time_of_day_multipliers[0], 32)
""", [("n", 2), ("s0", 1), ("s1", 1), ("f0", 1), ("f1", 1), ("m0", 32), ("m1", 32)], 6, lambda v: [T.zext(v["n"], 64)] * 2 + [
    T.zext(T.ite(T.and_(T.ult(C(1, 2), v["n"]), T.eq(v["s1"], C(s, 1)), T.eq(v["f1"], C(f, 1))), v["m1"],
                 T.ite(T.and_(T.ult(C(0, 2), v["n"]), T.eq(v["s0"], C(s, 1)), T.eq(v["f0"], C(f, 1))), v["m0"], C(0, 32))), 64)
    for s in range(2) for f in range(2)],
    assume=lambda v: T.and_(T.ule(v["n"], C(2, 2)), T.or_(T.ne(v["s0"], v["s1"]), T.ne(v["f0"], v["f1"])), finite(v["m0"]), finite(v["m1"])),
    modes=("numpy",), samples=20, wall=250, bounds="files of up to two records of two species and two forms (form 0 encoded as absent)"))


# ---- arrays inside records
def one(rec, key, src_i):
    ki = [i for i, l in enumerate(RECORDS[rec]) if l[0] == key][0]
    return encoded(rec, lambda i: f"inp[{src_i}]" if i == ki else "3", None, ARRAYS.get(rec, ()))


def inner(name, root, rec, slots, attr_rec, key, width, exprs):
    """a file with one record that holds arrays (of up to two elements) in the given slots"""
    ns = len(slots)
    arrays = []
    for j, slot in enumerate(slots):
        els = ", ".join(one(attr_rec, key, ns + 2 * j + k) for k in range(2))
        arrays.append((slot, f"F.Vec([{els}], inp[{j}])"))
    src = HDR + f"""
def h(inp, out):
    e = F.Enc(np)
    buf, pos0 = e.root([(0, "vec", F.Vec([{encoded(rec, lambda i: "3", None, arrays)}]))])
    x = L.{root}(buf)
    o = 0
    for lst in {exprs[0]}:
        out[o] = len(lst)
        for k in range(len(lst)):
            out[o + 1 + k] = F.word(lst[k].{key})[1]
        o += 3
    full = {exprs[1]}
    out[o] = len(full)
    for k in range(len(full)):
        out[o + 1 + k] = F.word(full[k].{key})[1]
"""

    def spec(v):
        out, full = [], []
        tot = C(0, 64)
        for j in range(ns):
            n = T.zext(v[f"n{j}"], 64)
            out.append(n)
            for k in range(2):
                out.append(T.ite(T.ult(C(k, 64), n), ext(v[f"h{j}_{k}"], width == 32), C(0, 64)))
                full.append((T.ult(C(k, 64), n), T.add(tot, C(k, 64)), ext(v[f"h{j}_{k}"], width == 32)))
            tot = T.add(tot, n)
        out.append(tot)
        for p in range(2 * ns):
            x = C(0, 64)
            for c, at, val in full:
                x = T.ite(T.and_(c, T.eq(at, C(p, 64))), val, x)
            out.append(x)
        return out
    ins = [(f"n{j}", 2) for j in range(ns)] + [(f"h{j}_{k}", width) for j in range(ns) for k in range(2)]
    return Ob(f"nested[{name}]", src, ins, 3 * ns + 1 + 2 * ns, spec, assume=lambda v: T.and_(
        T.TRUE, *[T.ult(v[f"n{j}"], C(3, 2)) for j in range(ns)], *distinct(v, ns, width)), modes=("numpy",), samples=20, wall=250,
        bounds="a file of one record, its arrays of up to two elements each")


def distinct(v, ns, width):
    if width == 32:
        return []
    # keys of a lookup table: small, all different
    hs = [v[f"h{j}_{k}"] for j in range(ns) for k in range(2)]
    return [T.eq(h, C(BASE + i, 64)) if i % 2 else T.or_(T.eq(h, C(BASE + i, 64)), T.eq(h, C(BASE + 0x100 + i, 64))) for i, h in enumerate(hs)]


obs.append(inner("slots of a table", "EncounterTable8aTable", "EncounterTable8a", [3], "EncounterSlot8a", "species", 32,
                 ("[x.encounter_tables[0].encounter_slots]", "x.encounter_table_lookup[3].encounter_slots")))
obs.append(inner("second waves of a group", "NewHugeOutbreakGroupTable8a", "NewHugeOutbreakGroup8a", [1],
                 "NewHugeOutbreakSecondWave8a", "encounter_table_id", 64,
                 ("[x.groups[0].wave_details]", "x.group_lookup[3].wave_details")))
obs.append(inner("group lottery", "NewHugeOutbreakGroupLotteryTable8a", "NewHugeOutbreakGroupLottery8a", [1, 2, 3],
                 "NewHugeOutbreakGroupLotteryDetail8a", "hash", 64,
                 ("[x.lottery_groups[0].table_common, x.lottery_groups[0].table_rare_1, x.lottery_groups[0].table_rare_2]",
                  "x.lottery_group_lookup[3].full_table")))
obs.append(inner("group lottery lookup", "NewHugeOutbreakGroupLotteryTable8a", "NewHugeOutbreakGroupLottery8a", [1, 2, 3],
                 "NewHugeOutbreakGroupLotteryDetail8a", "hash", 64,
                 ("[x.lottery_groups[0].table_common, x.lottery_groups[0].table_rare_1, x.lottery_groups[0].table_rare_2]",
                  "[x.lottery_groups[0].full_table_lookup[d.hash] for d in x.lottery_groups[0].full_table]")))

CHECK = Check("C28", obs, assumptions=["the flatbuffers package is the reference reader of offsets; its number decoding is modelled "
                                       "(little endian), the rest of it runs as it is"],
              outside="NaN payloads; more than two absent fields of one record; buffers over 64 KiB; malformed buffers")
