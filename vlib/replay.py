"""python -m vlib.replay RECORD [OUT]: the real code, in its default configuration, on recorded inputs."""
import importlib
import json
import os
import sys
import threading

sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")


def main():
    rec = json.load(open(sys.argv[1]))
    os.environ.setdefault("NPP_USE_NUMBA", "TRUE" if rec["mode"] == "numba" else "FALSE")
    if (os.environ["NPP_USE_NUMBA"] == "TRUE") != (rec["mode"] == "numba"):
        os.environ["NPP_USE_NUMBA"] = "TRUE" if rec["mode"] == "numba" else "FALSE"
    from . import host
    chk = importlib.import_module(f"checks.{rec['property']}").CHECK
    ob = next(o for o in chk.obs if o.name == rec["obligation"])
    env = {k: int(v) for k, v in rec["inputs"].items()}
    try:
        host.prepare_real()
        call, _ = host.real_fn(ob.src, rec["mode"])
        out = call([env.get(k, 0) & ((1 << w) - 1) for k, w in ob.ins], ob.nout)
    except Exception as e:  # noqa: BLE001
        out = ("exc", type(e).__name__, "load: " + host.short(e))
    bad = ob.judge(env, out)
    res = {"outcome": out, "complaints": [b + (f" ({out[2][:200]})" if out[0] == "exc" else "") for b in bad]}
    if len(sys.argv) > 2:
        json.dump(res, open(sys.argv[2], "w"))
    else:
        print(f"{rec['property']} {rec['obligation']} ({rec['mode']}) inputs { {k: hex(v) for k, v in env.items()} }")
        print("real code:", out)
        print("property:", "; ".join(bad) if bad else "holds on this input")
        sys.exit(1 if bad else 0)


def deep():
    code = []

    def body():
        try:
            main()
        except SystemExit as e:
            code.append(e.code or 0)
        except BaseException:  # noqa: BLE001
            import traceback
            traceback.print_exc()
            code.append(3)
    sys.setrecursionlimit(400000)
    threading.stack_size(512 << 20)
    t = threading.Thread(target=body)
    t.start()
    t.join()
    sys.exit(code[0] if code else 0)


if __name__ == "__main__":
    deep()
