"""Make a planted bug: python3 tools/seed.py SPEC.py ; SPEC defines ID, PROP, EDITS [(file under src, old, new)], DEMO, NEEDS, BREAKS.
Applies it to /repo, checks build, stable tests and demo, runs the property's check, undoes it."""
import json
import os
import subprocess
import sys

DEMO_SH = '''#!/bin/bash
# run with cwd at the repository; exit 0 when the behaviour is right
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
cp "$D/demo.py" "$T/demo.py"
SCRATCH="$T" jython -B "$T/demo.py" "$PWD/src"
'''
HEAD = '''import sys
sys.dont_write_bytecode = True
sys.path.insert(0, sys.argv[1])
'''


def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def one(spec):
    g = {}
    exec(compile(open(spec).read(), spec, "exec"), g)
    for b in g["BUGS"]:
        plant(b)


def plant(b):
    d = "/verif/seeded/" + b["id"]
    os.makedirs(d, exist_ok=True)
    assert sh("git -C /repo status --porcelain").stdout == "", "repo dirty"
    try:
        for f, a, n in b["edits"]:
            p = "/repo/src/" + f
            s = open(p, newline="").read()
            assert s.count(a) >= 1, (b["id"], f, a)
            open(p, "w", newline="").write(s.replace(a, n, 1))
        diff = sh("git -C /repo diff").stdout
        open(d + "/patch.diff", "w").write(diff)
        open(d + "/demo.py", "w").write(HEAD + b["demo"].lstrip("\n"))
        open(d + "/demo.sh", "w").write(DEMO_SH)
        os.chmod(d + "/demo.sh", 0o755)
        json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        bad = sh("bash %s/demo.sh" % d, cwd="/repo")
        t = sh("bash /tmp/t.sh").stdout.strip()
        c = sh("python3 check.py %s" % b["prop"], cwd="/verif", env=dict(os.environ, PYAN_CACHE="/tmp/pc"))
    finally:
        sh("git -C /repo checkout -- .")
    good = sh("bash %s/demo.sh" % d, cwd="/repo")
    print("%-8s demo patched=%d clean=%d tests=[%s] check=%d%s" % (
        b["id"], bad.returncode, good.returncode, t[:80], c.returncode, "" if c.returncode == 1 else "   <<< MISSED"))
    if good.returncode != 0:
        print(good.stdout[-600:])
    if bad.returncode == 0:
        print("   PATCHED DEMO PASSES", bad.stdout[-300:])
    sys.stdout.flush()


for x in sys.argv[1:]:
    one(x)
