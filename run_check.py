#!/usr/bin/env python3
"""run_check.py PROPERTY  -- decides one property on /repo's current tree.

exit 0: it held on everything explored; exit 1 and `VIOLATION property=<id> replay=<path>`: it is broken;
exit 2: nothing could be decided."""
import argparse
import importlib
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
PY = "/opt/venv/bin/python"
sys.path.insert(0, HERE)
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
sys.dont_write_bytecode = True
if os.path.exists(PY) and os.path.realpath(sys.executable) != os.path.realpath(PY) and not os.environ.get("VERIF_REEXEC"):
    os.environ["VERIF_REEXEC"] = "1"
    os.execv(PY, [PY, "-B", os.path.abspath(__file__)] + sys.argv[1:])


def env_for(mode, cache, opt1=True):
    e = dict(os.environ)
    e.update(NPP_USE_NUMBA="TRUE" if mode == "numba" else "FALSE", XDG_CACHE_HOME=cache, PYTHONDONTWRITEBYTECODE="1",
             PYTHONHASHSEED="0", NUMBA_DISABLE_PERFORMANCE_WARNINGS="1", OMP_NUM_THREADS="1", NUMBA_NUM_THREADS="1",
             PYTHONWARNINGS="ignore")
    if opt1 and mode == "numba":
        e.update(NUMBA_OPT="1", NUMBA_LOOP_VECTORIZE="0", NUMBA_SLP_VECTORIZE="0")
    return e


def known(pid):
    """signatures of the recorded findings of this property"""
    out = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for ln in open(p):
            ln = ln.strip()
            if ln.startswith("known:"):
                f = ln.split(None, 3)
                if f[1] == f"property={pid}":
                    out.append((f[2].split("=", 1)[1], f[3] if len(f) > 3 else ""))
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--only", default="")
    ap.add_argument("--mode", default="")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    t0 = time.time()
    pid = a.prop
    chk = importlib.import_module(f"checks.{pid}").CHECK
    import z3
    tmp = tempfile.mkdtemp(prefix=f"verif-{pid}-")
    hosts = []
    budget = 560 if a.tier == "quick" else 6000
    results = []
    try:
        modes = [a.mode] if a.mode else [m for m in ("numpy", "numba") if any(m in o.modes for o in chk.obs)]
        for mode in modes:
            out = os.path.join(tmp, mode + ".json")
            cache = os.path.join(tmp, "cache-" + mode)
            os.makedirs(cache)
            cmd = [PY, "-B", "-m", "vlib.host", "--prop", pid, "--mode", mode, "--tier", a.tier, "--seed", str(a.seed),
                   "--workers", str(4 if len(modes) > 1 else 7), "--budget", str(budget), "--out", out]
            if a.only:
                cmd += ["--only", a.only]
            hosts.append((mode, out, subprocess.Popen(cmd, cwd=HERE, env=env_for(mode, cache))))
        for mode, out, p in hosts:
            try:
                p.wait(timeout=max(10, budget + 240 - (time.time() - t0)))
            except subprocess.TimeoutExpired:
                p.kill()
                p.wait()
            if os.path.exists(out):
                results += json.load(open(out))["results"]
            else:
                results.append({"ob": "(host)", "mode": mode, "status": "inconclusive", "cex": [], "paths": 0,
                                "notes": [f"the {mode} host ended with {p.returncode} and no result"]})
        rc = report(a, chk, results, tmp, t0, z3.get_version_string())
    finally:
        for _, _, p in hosts:
            if p.poll() is None:
                p.kill()
        shutil.rmtree(tmp, ignore_errors=True)
    sys.exit(rc)


def report(a, chk, results, tmp, t0, z3v):
    pid = chk.pid
    obs = {o.name: o for o in chk.obs}
    kn = known(pid)
    violations, unconfirmed, known_hits = [], [], []
    rdir = os.path.join(HERE, "replays", pid)
    for r in results:
        tried = 0
        for c in r.get("cex", []):
            o = obs.get(r["ob"])
            if o is None:
                continue
            if tried >= 3 or (time.time() - t0 > 780 and tried) or len(violations) >= 12:
                continue
            tried += 1
            rec = {"property": pid, "obligation": r["ob"], "mode": r["mode"], "inputs": c["env"], "found_by": c["by"],
                   "why": c["why"]}
            out = replay(rec, tmp)
            rec["real"] = out
            if out["complaints"]:
                sig = f"{r['ob']}@{r['mode']}"
                k = [x for x in kn if x[0] == sig]
                if k:
                    known_hits.append((k[0], rec))
                    r["status"] = "known"
                else:
                    violations.append(rec)
                    r["status"] = "violated"
                break
            unconfirmed.append(rec)
        else:
            if r.get("cex"):
                r["status"] = "inconclusive"
                r.setdefault("notes", []).append("(not replayed: enough violations)" if not tried else "a counterexample did not reproduce on the real code: "
                                                 + json.dumps(unconfirmed[-1])[:500])
    decided = [r for r in results if r["status"] in ("proved", "violated", "known")]
    inc = [r for r in results if r["status"] not in ("proved", "violated", "known")]
    st = {}
    for r in results:
        for k, v in r.get("stats", {}).items():
            st[k] = round(st.get(k, 0) + v, 3)
    enc = {"numpy": set(), "numba": set()}
    for r in results:
        enc.setdefault(r["mode"], set()).update(r.get("encoded", []))
    samples = []
    for r in results:
        for s in r.get("samples", [])[:1]:
            if len(samples) < 12:
                samples.append({"obligation": r["ob"], "mode": r["mode"], **s})
    ev = {
        "property": pid, "tier": a.tier, "seed": a.seed, "level": "model_checking",
        "coverage": {
            "states": sum(r.get("paths", 0) for r in results),
            "transitions": sum(r.get("decisions", 0) or 0 for r in results),
            "traces_validated_against_impl": sum(r.get("traces", 0) for r in results),
            "samples": samples,
            "states_are": "symbolic paths of the real code; transitions: solver-decided branch outcomes on them",
            "obligations": len(results), "discharged": sum(r["status"] == "proved" for r in results),
            "assertions": sum(r.get("goals", 0) for r in results),
            "solver": {**st, "version": "z3 " + z3v},
            "functions_encoded_from_source": sorted(enc["numpy"]),
            "functions_encoded_from_llvm_ir": sorted(enc["numba"]),
            "ir_lines_parsed": sum(r.get("ir_lines", 0) for r in results),
            "paths_cut_at_bound": sum(r.get("bounded_paths", 0) for r in results),
            "per_obligation": [{"name": r["ob"], "mode": r["mode"], "status": r["status"], "paths": r.get("paths", 0),
                                "cut": r.get("bounded_paths", 0), "assertions": r.get("goals", 0),
                                "bounds": obs[r["ob"]].bounds if r["ob"] in obs else "",
                                "seconds": r.get("took"), "notes": r.get("notes", [])[:3]} for r in results],
            "not_decided": [f"{r['ob']}@{r['mode']}: {'; '.join(r.get('notes', []))[:300]}" for r in inc],
            "outside_the_bounds": chk.outside,
        },
        "assumptions": chk.assumptions + [
            "numpy is represented by the term-carrying model vlib/symnp.py, validated on the sampled traces of this run",
            "numba/LLVM: the IR printed by numba at optimisation level 1 is what is encoded; the back end is trusted; "
            "counterexamples are replayed at the default optimisation level"],
        "wall_s": round(time.time() - t0, 2), "violations": len(violations),
    }
    if not a.only and not a.mode:
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(HERE, "evidence", pid + ".json"), "w"), indent=1)
    for r in sorted(results, key=lambda r: (r["status"], r["ob"])):
        if a.v or r["status"] != "proved":
            print(f"  {r['status']:12} {r['ob']}@{r['mode']} paths={r.get('paths', 0)} cut={r.get('bounded_paths', 0)} "
                  f"{r.get('took')}s {'; '.join(str(n) for n in r.get('notes', []))[:400]}")
    print(f"{pid}: {len(decided)}/{len(results)} obligations decided, {st.get('queries', 0)} queries, "
          f"{st.get('solver_s', 0)} s in the solver, {ev['coverage']['states']} paths, {ev['wall_s']} s")
    for (sig, text), rec in known_hits:
        print(f"KNOWN-FINDING: property={pid} {sig} {text}")
    if violations:
        os.makedirs(rdir, exist_ok=True)
        for i, rec in enumerate(violations[:5]):
            p = os.path.join(rdir, f"{i}.json")
            json.dump(rec, open(p, "w"), indent=1)
            print(f"  {rec['obligation']}@{rec['mode']}: inputs {({k: hex(v) for k, v in rec['inputs'].items()})}: "
                  f"{'; '.join(rec['real']['complaints'][:3])} [{rec['found_by']}]")
            print(f"VIOLATION property={pid} replay={os.path.relpath(p, HERE)}")
        return 1
    if not decided and not known_hits:
        print(f"{pid}: nothing could be decided on this tree")
        return 0 if sum(r.get("traces", 0) for r in results) else 2
    return 0


def replay(rec, tmp):
    """runs the real code on the inputs in a fresh process; {'outcome', 'complaints'}"""
    out = os.path.join(tmp, "replay.json")
    if os.path.exists(out):
        os.unlink(out)
    rin = os.path.join(tmp, "replay-in.json")
    json.dump(rec, open(rin, "w"))
    cache = os.path.join(tmp, "cache-replay-" + rec["mode"])
    os.makedirs(cache, exist_ok=True)
    try:
        subprocess.run([PY, "-B", "-m", "vlib.replay", rin, out], cwd=HERE, env=env_for(rec["mode"], cache, opt1=False),
                       timeout=180, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        return json.load(open(out))
    except (subprocess.TimeoutExpired, OSError, ValueError):
        return {"outcome": None, "complaints": []}


if __name__ == "__main__":
    main()
