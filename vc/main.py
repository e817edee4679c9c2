"""Discharge the obligations of one property on one backend: main.py ID backend OUT [task...]."""
import importlib
import json
import os
import sys
import time
import warnings

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
warnings.simplefilter("ignore")
sys.setrecursionlimit(20000)


def main():
    prop, backend, out = sys.argv[1:4]
    only = sys.argv[4:]
    from vc import run

    m = importlib.import_module("vc.props." + prop.lower())
    tier = os.environ.get("VERIF_TIER", "quick")
    res = []
    seen = set()
    mon = sys.monitoring
    mon.use_tool_id(3, "vc")

    def start(code, off):
        if "/gpmp/" in code.co_filename and not code.co_qualname.startswith("<"):
            seen.add(code.co_filename.split("/gpmp/")[-1][:-3].replace("/", ".") + "." + code.co_qualname.replace(".<locals>", ""))
        return mon.DISABLE

    mon.register_callback(3, mon.events.PY_START, start)
    mon.set_events(3, mon.events.PY_START)
    for t in m.TASKS:
        if only and t.__name__ not in only:
            continue
        if backend not in getattr(t, "backends", ("numpy", "torch")):
            continue
        r = run.explore(t.__name__, t, backend, max_paths=getattr(t, "max_paths", 400), budget=getattr(t, "budget", 400.0))
        r.functions = set(seen)
        seen.clear()
        mon.restart_events()
        res.append(r.as_dict())
        with open(out + ".part", "w") as f:
            json.dump(res, f)
        os.replace(out + ".part", out)


if __name__ == "__main__":
    main()
