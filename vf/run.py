"""Entry point: python -m vf.run <ID> <quick|thorough> [--only fam,..] | --replay FILE"""
import hashlib
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CRASH = {signal.SIGSEGV, signal.SIGABRT, signal.SIGBUS, signal.SIGFPE, signal.SIGILL}


def props():
    out = {}
    with open(os.path.join(HERE, "properties.jsonl")) as f:
        for line in f:
            if line.strip():
                d = json.loads(line)
                out[d["id"]] = d
    return out


def known_findings():
    p = os.path.join(HERE, "known_findings.json")
    if os.path.exists(p):
        with open(p) as f:
            return json.load(f)
    return {"findings": [], "fixed": []}


def replay(pid, path):
    import importlib

    from . import core, env  # noqa: F401

    with open(path) as f:
        d = json.load(f)
    mod = importlib.import_module("vf.props." + pid)
    fam = next(f for f in mod.FAMILIES if f.name == d["family"])
    _, v, _ = core.run_confirmed(fam, d["case"])
    if v is None:
        print("replay: property=%s holds on %s" % (pid, path))
        return 0
    print("replay: %s" % v)
    print("VIOLATION property=%s replay=%s" % (pid, path))
    return 1


def main():
    argv = sys.argv[1:]
    pid = argv[0]
    if argv[1] == "--replay":
        return replay(pid, argv[2])
    tier = argv[1] if argv[1] in ("quick", "thorough") else "quick"
    only = "-"
    if "--only" in argv:
        only = argv[argv.index("--only") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    nworkers = int(os.environ.get("VERIF_WORKERS", "0")) or max(1, min(8, os.cpu_count() or 1))
    soft = 330 if tier == "quick" else 5400
    hard = 780 if tier == "quick" else 7200
    tmp = tempfile.mkdtemp(prefix="vf_%s_" % pid)
    procs = []
    failures, errors, fams = [], [], {}
    try:
        for i in range(nworkers):
            out, cur = os.path.join(tmp, "o%d" % i), os.path.join(tmp, "c%d" % i)
            err = open(os.path.join(tmp, "e%d" % i), "wb")
            p = subprocess.Popen(
                [sys.executable, "-m", "vf.worker", pid, tier, str(seed), str(i),
                 str(nworkers), out, cur, str(t0 + soft), only],
                cwd=tmp, stdout=err, stderr=err,
                env=dict(os.environ, VF_INTRA="1" if i % 2 else "3"),
            )
            procs.append((p, out, cur, err.name))
        for p, out, cur, errf in procs:
            left = t0 + hard - time.time()
            try:
                p.wait(timeout=max(1, left))
            except subprocess.TimeoutExpired:
                p.kill()
                p.wait()
                case = open(cur).read() if os.path.exists(cur) else ""
                errors.append("worker timed out at case " + case[:2000])
                continue
            if not os.path.exists(out):
                sig = -p.returncode if p.returncode and p.returncode < 0 else 0
                if sig in CRASH and os.path.exists(cur):
                    d = json.load(open(cur))
                    failures.append({"family": d["family"], "case": d["case"],
                                     "message": "native crash (signal %d)" % sig})
                else:
                    tail = open(errf, errors="replace").read()[-3000:]
                    errors.append("worker died rc=%s\n%s" % (p.returncode, tail))
                continue
            d = json.load(open(out))
            if d["error"]:
                errors.append(d["error"])
            failures += d["failures"]
            for name, lst in d["families"].items():
                fams.setdefault(name, []).extend(lst)
    finally:
        for p, *_ in procs:
            if p.poll() is None:
                p.kill()
        shutil.rmtree(tmp, ignore_errors=True)

    nt, evals, samples, per, counters, rules = set(), 0, [], {}, {}, []
    for name in sorted(fams):
        lst = fams[name]
        evals += sum(x["evaluations"] for x in lst)
        here = set()
        for x in lst:
            here |= set(x["nontrivial"])
            for k, v in x["counters"].items():
                counters[name + "." + k] = counters.get(name + "." + k, 0) + v
        nt |= here
        samples += [s for x in lst for s in x["samples"]][:2]
        per[name] = {
            "evaluations": sum(x["evaluations"] for x in lst),
            "distinct_nontrivial": len(here),
            "wall_s": round(sum(x["wall_s"] for x in lst), 1),
            "time_limited": any(x["truncated"] for x in lst),
            "probabilistic_retries_ignored": sum(x["prob_ignored"] for x in lst),
        }
        rules.append("%s: %s" % (name, lst[0]["rule"]))
    findings = [k for k in known_findings()["findings"] if k["property"] == pid]
    for k in findings:
        print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    rc = 0
    shown = set()
    for fl in failures:
        h = hashlib.sha256(json.dumps(fl["case"], sort_keys=True).encode()).hexdigest()[:10]
        if fl["family"] in shown:
            continue
        shown.add(fl["family"])
        rdir = os.path.join(HERE, "replays")
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, "%s-%s-%s.json" % (pid, fl["family"], h))
        with open(path, "w") as f:
            json.dump(dict(fl, property=pid, seed=seed, tier=tier), f, indent=1)
        print("  %s: %s\n  case: %s" % (fl["family"], fl["message"],
                                       json.dumps(fl["case"])[:1500]))
        print("VIOLATION property=%s replay=%s" % (pid, path))
        rc = 1
    info = props().get(pid, {})
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": evals, "distinct_nontrivial": len(nt),
            "rule": "Cases are drawn by hypothesis strategies per family; a case is "
                    "non-trivial by the rule of its family. " + " | ".join(rules),
            "samples": samples, "families": per, "counters": counters,
        },
        "assumptions": [
            "single-process execution on TensorFlow CPU devices, honest parties",
            "bounds on shapes and magnitudes are those of the generators (DESIGN.md)",
        ],
        "wall_s": round(time.time() - t0, 2), "violations": len(failures),
    }
    if only == "-":
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
    print("%s %s: %d cases, %d distinct non-trivial, %d violations, %.1f s (%s)" % (
        pid, tier, evals, len(nt), len(failures), time.time() - t0, info.get("title", "")))
    for name in sorted(per):
        print("   %-34s %s" % (name, json.dumps(per[name])))
    if rc == 0 and errors:
        for e in errors:
            print("HARNESS ERROR: " + e)
        return 3
    if rc == 0 and evals == 0:
        print("HARNESS ERROR: no case ran")
        return 3
    return rc


if __name__ == "__main__":
    sys.exit(main())
