"""Gen 3 encounter levels."""
from checks.g3 import *

obs = []


def level(v, pressure):
    span = T.add(T.sub(T.zext(v["hi"], 16), T.zext(v["lo"], 16)), C(1, 16))
    r, s = rand(v["s"], span)
    if not pressure:
        return [T.add(T.zext(v["lo"], 16), r), s]
    p, s = rand(s, 2)
    low = T.ite(T.eq(r, C(0, 16)), r, T.sub(r, C(1, 16)))
    return [T.ite(T.eq(p, C(0, 16)), T.zext(v["hi"], 16), T.add(T.zext(v["lo"], 16), low)), s]


for p in (0, 1):
    src = IMP + f"""
def h(inp, out):
    slots = recs(1, SLOT)
    s = slots[0]
    s.min_level = np.uint8(inp[1])
    s.max_level = np.uint8(inp[2])
    r = PokeRNGMod(np.uint32(inp[0]))
    out[0] = G.calculate_level(s, r, {bool(p)})
    out[1] = r.seed
"""
    ok = lambda v: T.ule(v["lo"], v["hi"])  # noqa: E731
    ins = [("s", 32), ("lo", 8), ("hi", 8)]
    obs.append(Ob(f"value[pressure={p}]", src, ins, 2, lambda v, p=p: level(v, p), assume=ok,
                  bounds="every seed, every 0 <= minimum <= maximum <= 255"))
    obs.append(Ob(f"range[pressure={p}]", src, ins, 2, assume=ok, post=lambda v, o: [
        ("minimum <= level", T.ule(z64(v["lo"]), o[0])), ("level <= maximum", T.ule(o[0], z64(v["hi"])))],
                  bounds="every seed, every 0 <= minimum <= maximum <= 255"))
CHECK = Check("C21", obs, outside="slots whose minimum exceeds their maximum")
