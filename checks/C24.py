"""PID-derived attributes of gen 3 states."""
from checks.g3 import *

obs = []
UT = IMP + "from numba_pokemon_prngs.gen3 import util as U\n"
ST = IMP + """from numba_pokemon_prngs.gen3.state import GeneratorState
def h(inp, out):
    arr = recs(1, INFO)
    info = arr[0]
    info.gender_ratio = np.uint8(inp[1])
    info.ability_1 = np.uint8(inp[2])
    info.ability_2 = np.uint8(inp[3])
    ivs = np.empty(6, np.uint8)
    for i in range(6):
        ivs[i] = np.uint8(inp[4 + i])
    pid = np.uint32(inp[0])
    st = GeneratorState(np.uint32(7), pid, np.uint16(25), np.uint8(0), ivs, np.uint8(pid & np.uint32(1)), np.uint8(50), np.uint8(0), info)
"""
SIN = [("pid", 32), ("ratio", 8), ("a1", 8), ("a2", 8)] + [(f"iv{i}", 5) for i in range(6)]
ENDING = "    out[{n}] = arr[0].ability_1\n"
ORDER = (0, 1, 2, 5, 3, 4)  # HP Atk Def Spe SpA SpD


def gender(pid, ratio):
    low = T.extract(pid, 7, 0)
    g = T.ite(T.ult(low, ratio), C(1, 8), C(0, 8))
    for r, k in ((0, 0), (254, 1), (255, 2)):
        g = T.ite(T.eq(ratio, C(r, 8)), C(k, 8), g)
    return g


def shiny(pid, t):
    x = T.xor(T.xor(T.extract(pid, 31, 16), T.extract(pid, 15, 0)), t)
    return T.ite(T.eq(x, C(0, 16)), C(2, 8), T.ite(T.ult(x, C(8, 16)), C(1, 8), C(0, 8)))


def ivs_of(v):
    return [T.zext(v[f"iv{i}"], 8) for i in range(6)]


def power(v):
    """(six bits of the type sum, six bits of the strength sum), HP first"""
    iv = [v[f"iv{i}"] for i in ORDER]
    return T.concat(*[T.extract(x, 0, 0) for x in reversed(iv)]), T.concat(*[T.extract(x, 1, 1) for x in reversed(iv)])


def tabled(idx, f, w=8):
    r = C(f(63), w)
    for i in range(62, -1, -1):
        r = T.ite(T.eq(idx, C(i, 6)), C(f(i), w), r)
    return r


def hp_post(v, out):
    a, b = power(v)
    return [("type", T.eq(T.resize(out[0], 8, False), T.extract(T.udiv(T.mul(T.zext(a, 16), C(15, 16)), C(63, 16)), 7, 0))),
            ("strength", T.eq(T.resize(out[1], 16, False), T.mul(C(63, 16), T.add(C(30, 16), T.udiv(T.mul(T.zext(b, 16), C(40, 16)), C(63, 16))))))]


def characteristic(v):
    iv = [v[f"iv{i}"] for i in ORDER]
    res = None
    for e in range(5, -1, -1):
        best, idx = C(0, 5), C(e, 8)
        for i in range(6):
            k = (e + i) % 6
            g = T.ult(best, iv[k])
            best, idx = T.ite(g, iv[k], best), T.ite(g, C(k, 8), idx)
        c = T.add(T.mul(idx, C(5, 8)), T.zext(T.urem(best, C(5, 5)), 8))
        res = c if res is None else T.ite(T.eq(T.urem(v["pid"], C(6, 32)), C(e, 32)), c, res)
    return res


obs.append(Ob("gender", UT + "def h(inp, out):\n    out[0] = U.get_gender(np.uint32(inp[0]), np.uint8(inp[1]))\n", [("pid", 32), ("ratio", 8)], 1,
              lambda v: [gender(v["pid"], v["ratio"])], bounds="every PID and gender ratio"))
obs.append(Ob("shiny", UT + "def h(inp, out):\n    out[0] = U.get_shiny(np.uint32(inp[0]), np.uint16(inp[1]))\n", [("pid", 32), ("tsv", 16)], 1,
              lambda v: [shiny(v["pid"], v["tsv"])], bounds="every PID and trainer id xor secret id"))
obs.append(Ob("unown-letter", UT + "def h(inp, out):\n    out[0] = U.unown_check(np.uint32(inp[0]), np.uint8(inp[1]))\n", [("pid", 32), ("form", 8)], 1,
              lambda v: [T.eq(T.urem(T.concat(T.extract(v["pid"], 25, 24), T.extract(v["pid"], 17, 16), T.extract(v["pid"], 9, 8), T.extract(v["pid"], 1, 0)), C(28, 8)), v["form"])],
              bounds="every PID and form number"))
obs.append(Ob("state-identity", ST + """    out[0] = st.pid
    out[1] = st.nature
    out[2] = st.gender
    out[3] = st.ability
    out[4] = st.ability_index
    out[5] = st.advance
    out[6] = st.species
    for i in range(6):
        out[7 + i] = st.ivs[i]
""" + ENDING.format(n=13), SIN, 14, lambda v: [v["pid"], T.urem(v["pid"], C(25, 32)), gender(v["pid"], v["ratio"]), T.extract(v["pid"], 0, 0),
              T.ite(T.eq(T.extract(v["pid"], 0, 0), C(0, 1)), v["a1"], v["a2"]), C(7, 32), C(25, 16)] + ivs_of(v) + [v["a1"]],
              bounds="every PID, IV set, gender ratio and pair of abilities"))
obs.append(Ob("hidden-power", ST + "    out[0] = st.hidden_power\n    out[1] = st.hidden_power_strength * 63\n" + ENDING.format(n=2), SIN, 3,
              post=hp_post, bounds="every PID and IV set"))
obs.append(Ob("characteristic", ST.replace("np.uint8(inp[1])", "np.uint8(127)", 1) + "    out[0] = st.characteristic\n" + ENDING.format(n=1), SIN, 2,
              lambda v: [characteristic(v), v["a1"]], bounds="every PID and IV set"))
CHECK = Check("C24", obs, [], ["IVs above 31"])
