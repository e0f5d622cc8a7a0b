"""One shard of a driver: writes one JSON record per line.
usage: shard.py driver prop seed start count tier out"""
import importlib, json, os, sys, time, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from czt import *
drv, prop, seed, start, count, tier, out = sys.argv[1:8]
seed, start, count = int(seed), int(start), int(count)


def crash(e):
    traceback.print_exc()
    return dict(events=[dict(ev="crash", fn="crash", exc=type(e).__name__)])


def histories():
    try:
        mod = importlib.import_module(drv)
    except Exception as e:              # the library cannot even be imported
        yield start, crash(e)
        return
    it = None
    for i in range(start, start + count):
        # one history at a time, so that one that cannot be observed does not hide the others
        try:
            hs = list(mod.histories(prop, seed, i, 1))
        except Exception as e:
            hs = [crash(e)]
        for h in hs:
            for x in (h if isinstance(h, list) else [h]):
                yield i, x


with open(out, "w") as f:
    slow = 0
    for i, x in histories():
        x.setdefault("src", dict(driver=drv, prop=prop, seed=seed, index=i))
        f.write(json.dumps(x) + "\n")
        f.flush()
        bad = [e.get("exc") for e in x["events"]]
        slow += bad.count("TimeoutError")
        if slow >= 2 or bad.count("crash") > 20:
            break
