"""One worker process: runs its share of a property's families."""
import importlib
import json
import sys
import time
import traceback


def main():
    pid, tier, seed, idx, nworkers, out, cur, deadline, only = sys.argv[1:10]
    seed, idx, nworkers, deadline = int(seed), int(idx), int(nworkers), float(deadline)
    res = {"families": {}, "failures": [], "error": None}
    try:
        from . import core, env  # noqa: F401

        mod = importlib.import_module("vf.props." + pid)
        fams = mod.FAMILIES
        if only != "-":
            fams = [f for f in fams if f.name in only.split(",")]
        tasks = []
        for f in fams:
            for s in range(f.shards):
                tasks.append((-f.cost * f.n[tier] / f.shards, f.name, s, f))
        tasks.sort(key=lambda t: t[:3])
        load = [0.0] * nworkers
        mine = []
        for t in tasks:
            k = min(range(nworkers), key=lambda i: (load[i], i))
            load[k] += -t[0]
            if k == idx:
                mine.append(t)
        # cheap families first, so that every family gets a run before the deadline
        for _, name, s, f in reversed(mine):
            t0 = time.time()
            stats, failure = core.run_family(f, s, tier, seed, deadline, cur)
            d = stats.dump()
            d["rule"] = f.rule
            d["wall_s"] = round(time.time() - t0, 2)
            res["families"].setdefault(name, []).append(d)
            if failure:
                res["failures"].append(failure)
    except BaseException as e:  # pylint: disable=broad-except
        res["error"] = "%s\n%s" % (e, traceback.format_exc())
    with open(out, "w") as f:
        json.dump(res, f)


if __name__ == "__main__":
    main()
