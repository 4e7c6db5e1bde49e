"""mkbug.py SPEC.py: turns a planted-bug spec into seeded/<id>/ and tries it.

SPEC defines ID, PROP, NEEDS, BREAKS, EDITS = [(file, old, new), ...], DEMO (python).
Applies the edits to /repo, builds, runs the tests, the demo and the check, undoes them.
"""
import json, os, subprocess, sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
spec = {}
exec(open(sys.argv[1]).read(), spec)
quick = "--notest" in sys.argv
d = os.path.join(V, "seeded", spec["ID"])
os.makedirs(d, exist_ok=True)
run = lambda c, **k: subprocess.run(c, shell=True, text=True, capture_output=True, **k)
assert not run("git -C /repo status --porcelain").stdout, "repo dirty"
open(d + "/demo.py", "w").write("import tfe_tf_compat  # noqa: F401\n" + spec["DEMO"].lstrip("\n"))
open(d + "/demo.sh", "w").write("""#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
export TF_CPP_MIN_LOG_LEVEL=3
cd /repo && exec python "$here/demo.py"
""")
json.dump({"property": spec["PROP"], "needs": spec["NEEDS"], "what_it_breaks": spec["BREAKS"]},
          open(d + "/meta.json", "w"), indent=1)
r = run("bash /opt/vp/build.sh; bash %s/demo.sh" % d)
print("demo on clean:", r.returncode, r.stdout[-300:] if r.returncode else "")
if r.returncode: print(r.stderr[-1500:])
try:
    for f, old, new in spec["EDITS"]:
        p = "/repo/" + f
        s = open(p).read()
        n = s.count(old)
        assert n == 1, (f, n, old)
        open(p, "w").write(s.replace(old, new))
    open(d + "/patch.diff", "w").write(run("git -C /repo diff").stdout)
    b = run("bash /opt/vp/build.sh")
    print("build", b.returncode)
    r = run("bash %s/demo.sh" % d)
    print("demo on bug:", r.returncode, (r.stdout + r.stderr)[-400:])
    if not quick:
        t = run("bash /opt/vp/test.sh /tmp/bugtest.json")
        res = json.load(open("/tmp/bugtest.json"))
        base = json.load(open("/opt/vp/BASELINE.json"))
        print("tests:", t.stdout.strip().splitlines()[-1])
    for prop in [spec["PROP"]] + [a for a in sys.argv[2:] if a[0] == "C"]:
        r = run("bash %s/check.sh %s quick" % (V, prop))
        print("check", prop, "rc", r.returncode, "\n".join(r.stdout.splitlines()[:6])[:1500])
finally:
    run("git -C /repo checkout -- .")
    run("bash /opt/vp/build.sh")
