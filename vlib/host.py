"""Decides the obligations of one property in one mode of the package (numpy = uncompiled, source-level
engine; numba = compiled, IR-level engine).  Started as its own process so that each mode imports the
real package exactly as a user of that mode would."""
import argparse
import importlib
import json
import os
import random
import re
import resource
import select
import signal
import sys
import time
import traceback

sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")

from . import terms as T  # noqa: E402
from . import solve  # noqa: E402
from .ctx import CTX, EngineError, PathLimit  # noqa: E402

REPO = os.environ.get("VERIF_REPO", "/repo")


def short(e, n=300):
    s = f"{type(e).__name__}: {e}"
    return s if len(s) <= n else s[:n] + "..."


# ------------------------------------------------------------------ real code
# The package's __init__ reads a resource the repository does not ship, so it cannot be imported; its modules can.
BARE = "numba_pokemon_prngs.data.encounter"


def prepare_real():
    """the real package on sys.path; data.encounter needs a file the repository does not ship"""
    sys.path.insert(0, REPO)
    import types
    import numpy as np
    import numba_pokemon_prngs.data  # noqa: F401
    name = BARE
    if name not in sys.modules:
        m = types.ModuleType(name)
        m.__path__ = [os.path.join(REPO, *name.split("."))]
        m.__package__ = name
        sys.modules[name] = m
    return np


def real_fn(src, mode):
    import numpy as np
    g = {"__name__": "verif_harness"}
    exec(compile(src, "<harness>", "exec"), g)
    h = g["h"]
    ir = None
    if mode == "numba":
        import numba
        h = numba.njit(numba.void(numba.uint64[::1], numba.uint64[::1]))(h)
        ir = list(h.inspect_llvm().values())[0]

    def call(vals, nout):
        inp = np.array(vals, dtype=np.uint64)
        if not len(vals):
            inp = np.zeros(1, np.uint64)
        out = np.zeros(nout, np.uint64)
        try:
            with np.errstate(all="ignore"):
                h(inp, out)
        except Exception as e:  # noqa: BLE001 - an outcome
            return ("exc", type(e).__name__, short(e))
        return ("ok", [int(x) for x in out])

    return call, ir


# ------------------------------------------------------------------ exploration
def explore_numpy(ob, world):
    from . import symnp as S
    from . import instrument as I
    w = world()
    I.RT.encoded = set()
    mod = w.harness(ob.src, "h_" + re.sub(r"\W", "_", ob.name))

    def run():
        terms = [T.zext(t, 64) for t in ob.vars()] or [T.const(0, 64)]
        inp = S._new(terms, S.rnp.dtype("uint64"), (len(terms),))
        out = S.zeros(ob.nout, S.uint64)
        mod.h(inp, out)
        return list(out._s.cells)

    r = CTX.explore(run)
    return r, sorted(x for x in I.RT.encoded if not x.startswith("h_"))


def explore_numba(ob, ir):
    from . import llvm as L
    m = L.Module(ir)
    entry = next(n for n in m.order if not n.startswith(("@_ZN7cpython", "@cfunc", '@"_Dtor', "@NRT")))
    seen = set()

    def run():
        terms = [T.zext(t, 64) for t in ob.vars()] or [T.const(0, 64)]
        try:
            return L.run_array_harness(m, entry, terms, ob.nout)
        finally:
            seen.update(getattr(L.run_array_harness, "encoded", ()))

    r = CTX.explore(run)
    fns = set()
    for n in seen:
        fns.add(_demangle(n))
    for n in m.gtext:  # numba's environments name the functions inlined into the module
        if "NumbaEnv" in n:
            fns.add(_demangle(n.replace("08NumbaEnv", "")))
    return r, sorted(f for f in fns if "numba_pokemon_prngs" in f), sum(len(x) for x in m.ftext.values())


def _demangle(n):
    out = []
    s = n.lstrip("@").strip('"')
    m = re.match(r"_ZN", s)
    i = m.end() if m else 0
    while i < len(s):
        m = re.match(r"(\d+)", s[i:])
        if not m:
            break
        k = int(m.group(1))
        i += m.end()
        out.append(s[i:i + k])
        i += k
    return ".".join(re.sub(r"_[0-9a-f]{2}", lambda x: chr(int(x.group(0)[1:], 16)), p) if "_3c" in p else p
                    for p in out) or s


# ------------------------------------------------------------------ one obligation
def decide(ob, mode, seed, tier, world):
    t0 = time.time()
    rng = random.Random(f"{seed}/{ob.name}/{mode}")
    res = {"ob": ob.name, "mode": mode, "bounds": ob.bounds, "status": None, "cex": [], "notes": [], "paths": 0,
           "bounded_paths": 0, "traces": 0, "samples": [], "encoded": [], "goals": 0, "decisions": 0}
    solve.DEADLINE[0] = t0 + ob.wall * (4 if tier == "thorough" else 1) - 5
    timeout = ob.timeout * (5 if tier == "thorough" else 1)
    assume = ob.assume_t()
    raises = ob.raises_t()
    # vacuity
    r, env0 = solve.check_sat([assume], 20)
    if r != "sat":
        res["status"] = "vacuous" if r == "unsat" else "inconclusive"
        res["notes"].append("the assumption is unsatisfiable" if r == "unsat" else "the assumption was not decided")
        return res
    # the real code on sampled inputs: judged against the specification, later against the engine
    call = ir = None
    load_err = None
    try:
        call, ir = real_fn(ob.src, mode)
    except Exception as e:  # noqa: BLE001
        load_err = short(e, 600)
    n = ob.samples * (4 if tier == "thorough" else 1)
    envs = solve.sample_envs(assume, ob.vars(), n, rng)
    for e in (ob.extra_samples or []):
        if T.evaluate([assume], {**{k: 0 for k, _ in ob.ins}, **e})[0]:
            envs.append({**{k: 0 for k, _ in ob.ins}, **e})
    if load_err is not None:
        # the harness cannot even be compiled or imported: the code raises for every input
        res["status"] = "violated"
        res["cex"].append({"env": {k: int(v) for k, v in (envs[0] if envs else {}).items()}, "why": "load: " + load_err,
                           "by": "load"})
        return res
    traces = []
    for e in envs:
        vals = [e.get(k, 0) & T.mask(w) for k, w in ob.ins]
        out = call(vals, ob.nout)
        bad = ob.judge(e, out)
        traces.append((e, out, bad))
    res["samples"] = [{"in": {k: hex(v) for k, v in e.items()}, "out": [hex(x) for x in o[1]] if o[0] == "ok" else o[1]}
                      for e, o, _ in traces[:2]]
    sampled_bad = [(e, b) for e, _, b in traces if b]
    # symbolic exploration
    CTX.reset(assume=assume, unroll=ob.unroll, max_paths=ob.max_paths, merge=ob.merge,
              deadline=solve.DEADLINE[0] - 3, max_values=ob.max_values,
              pool=solve.sample_envs(assume, ob.vars(), ob.pool, rng) if ob.pool else (), feas_timeout=ob.feas_timeout, quick=bool(ob.pool))
    try:
        if mode == "numpy":
            paths, enc = explore_numpy(ob, world)
        else:
            paths, enc, res["ir_lines"] = explore_numba(ob, ir)
    except (EngineError, RecursionError) as e:
        res["status"] = "inconclusive"
        res["notes"].append("not followed: " + short(e))
        if sampled_bad:
            e, b = sampled_bad[0]
            res["cex"].append({"env": e, "why": "; ".join(b[:3]), "by": "sampled trace (symbolic execution gave up)"})
        res["traces"] = len(traces)
        res["explore_s"] = round(time.time() - t0, 2)
        res["stats"] = solve.STATS.as_dict()
        return res
    except Exception as e:  # noqa: BLE001 - a failure of the engine itself
        res["status"] = "inconclusive"
        res["notes"].append("engine: " + short(e) + " | " + traceback.format_exc(limit=-3)[-600:])
        if sampled_bad:
            e, b = sampled_bad[0]
            res["cex"].append({"env": e, "why": "; ".join(b[:3]), "by": "sampled trace (symbolic execution gave up)"})
        res["stats"] = solve.STATS.as_dict()
        return res
    res["encoded"] = enc
    res["paths"] = len(paths)
    res["decisions"] = CTX.decisions + sum(len(getattr(p, "args", ())) for p, _ in paths)
    res["explore_s"] = round(time.time() - t0, 2)
    # translator validation: the engine's result on each trace equals the real code's
    nval = 0
    for e, out, bad in traces:
        ev = {k: e.get(k, 0) & T.mask(w) for k, w in ob.ins}
        hit = None
        for pc, oc in paths:
            if pc is T.TRUE or T.evaluate([pc], ev)[0]:
                hit = oc
                break
        if hit is None or hit[0] == "bound":
            continue
        if hit[0] == "ok":
            roots = hit[1]
            if any(t.op == "var" and t.p not in ev for t in T.free_vars(roots)):
                mine = None
            else:
                mine = ("ok", T.evaluate(roots, ev))
        else:
            mine = ("exc", type(hit[1]).__name__)
        if mine is not None and (mine[0] != out[0] or mine[0] == "ok" and mine[1] != out[1]):
            if not bad:
                res["status"] = "inconclusive"
                res["notes"].append(f"engine disagrees with the real code on {ev}: {str(mine)[:200]} / {str(out)[:200]}")
        else:
            nval += 1
    res["traces"] = nval
    # the deciding queries
    unknown = 0
    pairs_all = []
    for pc, oc in paths:
        base = T.and_(assume, pc)
        if oc[0] == "bound":
            res["bounded_paths"] += 1
            continue
        if oc[0] == "exc":
            r, env = solve.check_sat([base, T.not_(raises)], timeout)
            res["goals"] += 1
            if r == "sat":
                res["cex"].append({"env": env, "why": "raises " + short(oc[1], 160), "by": "solver"})
            elif r == "unknown":
                unknown += 1
            continue
        if raises is not T.FALSE:
            r, env = solve.check_sat([base, raises], timeout)
            res["goals"] += 1
            if r == "sat":
                res["cex"].append({"env": env, "why": "no exception where one is required", "by": "solver"})
            elif r == "unknown":
                unknown += 1
            base = T.and_(base, T.not_(raises))
            if base is T.FALSE:
                continue
        if ob.pool and solve.skeleton_unsat([base]):
            continue
        goals = ob.goals(oc[1])
        res["goals"] += len(goals)
        flat = solve.simplify_under(base, [x for _, a, b in goals for x in (a, b)])
        if any(a is not b for a, b in zip(flat[::2], flat[1::2])) and pc is not T.TRUE:
            flat = solve.pin_vars(base, flat)
        if ob.pool and any(a is not b for a, b in zip(flat[::2], flat[1::2])):
            pb, *pf = solve.push_ites([base] + flat)
            pf = solve.push_ites(solve.simplify_under(pb, pf))
            flat = [y for k in range(0, len(flat), 2) for y in (pf[k:k + 2] if pf[k] is pf[k + 1] else flat[k:k + 2])]
        known = CTX.ps.examples(base) if ob.pool else ()
        outs = solve.prove_eqs(list(zip(flat[::2], flat[1::2])), base, timeout, rng, known=known)
        for (lab, a, b), (st, env) in zip(goals, outs):
            if st == "cex":
                by = env.pop("__by", "solver") if env else "solver"
                res["cex"].append({"env": env, "why": f"{lab} differs", "by": by})
            elif st == "unknown":
                unknown += 1
                res["notes"].append(f"{lab}: not decided in time")
        if len(res["cex"]) >= 3:
            break
    if not res["cex"] and sampled_bad:
        e, b = sampled_bad[0]
        res["cex"].append({"env": e, "why": "; ".join(b[:3]), "by": "sampled trace"})
    for c in res["cex"]:
        c["env"] = {k: int(v) for k, v in (c["env"] or {}).items() if isinstance(v, int)}
    if res["cex"]:
        res["status"] = "violated"
    elif res["status"] is None:
        res["status"] = "inconclusive" if unknown else "proved"
        if res["bounded_paths"] >= len(paths):
            res["status"] = "inconclusive"
            res["notes"].append("no path ends within the loop bound")
        if res["bounded_paths"] and not ob.bounds:
            res["notes"].append(f"{res['bounded_paths']} paths cut at the loop bound {ob.unroll}")
    res["stats"] = solve.STATS.as_dict()
    return res


# ------------------------------------------------------------------ pool
def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--prop", required=True)
    ap.add_argument("--mode", required=True)
    ap.add_argument("--tier", default="quick")
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--workers", type=int, default=4)
    ap.add_argument("--budget", type=float, default=600)
    ap.add_argument("--only", default="")
    ap.add_argument("--out", required=True)
    a = ap.parse_args()
    sys.setrecursionlimit(20000)
    chk = importlib.import_module(f"checks.{a.prop}").CHECK
    obs = [o for o in chk.obs if a.mode in o.modes and (o.tier == "quick" or a.tier == "thorough")
           and (not a.only or re.search(a.only, o.name))]
    t0 = time.time()
    results = []
    try:
        np = prepare_real()
        np.seterr(all="ignore")
        mods = getattr(importlib.import_module(f"checks.{a.prop}"), "PRELOAD", [])
        world = make_world(chk, a.mode, mods)
        fatal = None
    except BaseException as e:  # noqa: BLE001
        fatal = short(e, 500) + traceback.format_exc(limit=-4)[-800:]
    if fatal:
        # the package itself cannot be loaded in this mode: let every obligation report it through the real code
        results = [{"ob": o.name, "mode": a.mode, "status": "inconclusive", "cex": [
            {"env": {k: 0 for k, _ in o.ins}, "why": "package load: " + fatal[:200], "by": "load"}] if k == 0 else [],
            "notes": [fatal], "paths": 0} for k, o in enumerate(obs)]
        json.dump({"results": results, "wall": time.time() - t0}, open(a.out, "w"))
        return
    queue = sorted(obs, key=lambda o: -o.weight)
    running = {}
    while queue or running:
        while queue and len(running) < a.workers:
            o = queue.pop(0)
            if time.time() - t0 > a.budget:
                results.append({"ob": o.name, "mode": a.mode, "status": "inconclusive", "cex": [], "paths": 0,
                                "notes": ["not started: time budget of the check used up"]})
                continue
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                os.close(r)
                try:
                    os.setpgid(0, 0)
                    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
                    res = decide(o, a.mode, a.seed, a.tier, world)
                except BaseException as e:  # noqa: BLE001
                    res = {"ob": o.name, "mode": a.mode, "status": "inconclusive", "cex": [], "paths": 0,
                           "notes": ["checker: " + short(e) + traceback.format_exc(limit=-4)[-900:]]}
                res["wall"] = round(time.time() - t0, 2)
                with os.fdopen(w, "w") as f:
                    f.write(json.dumps(res, default=str))
                os._exit(0)
            os.close(w)
            running[r] = (pid, o, time.time(), [])
        if not running:
            continue
        rd, _, _ = select.select(list(running), [], [], 1.0)
        for fd in rd:
            pid, o, ts, buf = running[fd]
            b = os.read(fd, 1 << 16)
            if b:
                buf.append(b)
                continue
            os.close(fd)
            del running[fd]
            os.waitpid(pid, 0)
            try:
                res = json.loads(b"".join(buf))
            except ValueError:
                res = {"ob": o.name, "mode": a.mode, "status": "inconclusive", "cex": [], "paths": 0,
                       "notes": ["the worker ended without a result"]}
            res["took"] = round(time.time() - ts, 2)
            results.append(res)
        now = time.time()
        for fd, (pid, o, ts, buf) in list(running.items()):
            if now - ts > o.wall * (4 if a.tier == "thorough" else 1) + 10:
                try:
                    os.killpg(pid, signal.SIGKILL)
                except ProcessLookupError:
                    pass
                os.waitpid(pid, 0)
                os.close(fd)
                del running[fd]
                results.append({"ob": o.name, "mode": a.mode, "status": "inconclusive", "cex": [], "paths": 0,
                                "notes": ["time limit of the obligation"], "took": round(now - ts, 2)})
    json.dump({"results": results, "wall": time.time() - t0}, open(a.out, "w"), default=str)


def make_world(chk, mode, mods):
    if mode == "numba":
        T.z3mod()
        return None
    from . import instrument as I
    from . import symnp  # noqa: F401
    T.z3mod()
    w = I.World(REPO, bare=(BARE,))
    w.load("numba_pokemon_prngs")
    for m in mods:
        try:
            w.load(m)
        except Exception as e:  # noqa: BLE001
            print(f"preload of {m}: {short(e)}", file=sys.stderr)
    return lambda: w


if __name__ == "__main__":
    main()
