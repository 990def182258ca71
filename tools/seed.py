"""developer tool for planted bugs: plant(...) applies an edit to /repo, requires that it
compiles, passes the existing tests and is shown by its demonstration, stores it under
seeded/<id>/ and restores the tree."""
import json
import os
import shutil
import subprocess
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# cwd: /repo, built.  exit 0: the demonstration sees correct behaviour
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 3
trap 'rm -rf "$t"' EXIT
gcc -w -O1 -Iinclude -Isrc -o "$t/demo" "$d/demo.c" _build/bin/libhev-task-system.a -lpthread || exit 3
timeout 60 "$t/demo"
'''


def sh(c, **k):
    return subprocess.run(c, shell=True, capture_output=True, text=True, **k)


def restore():
    sh("git -C /repo checkout -- .")


def tests_ok():
    b = sh("bash /opt/vp/build.sh")
    if b.returncode:
        print(b.stderr[-800:])
        return False
    sh("bash /opt/vp/test.sh /tmp/seed-o.json")
    o = json.load(open("/tmp/seed-o.json"))
    base = json.load(open("/opt/vp/BASELINE.json"))
    miss = set(base["stable"]) - set(o["passed"])
    if miss:
        print("  tests failing:", miss)
    return not miss


def plant(sid, prop, path, edits, needs, breaks, demo):
    """edits: [(old, new)] in path (or [(file, old, new)])"""
    d = os.path.join(ROOT, "seeded", sid)
    assert not sh("git -C /repo status --porcelain").stdout.strip(), "dirty /repo"
    try:
        for e in edits:
            f, old, new = e if len(e) == 3 else (path, e[0], e[1])
            p = os.path.join("/repo", f)
            s = open(p).read()
            assert s.count(old) == 1, (sid, f, s.count(old), old)
            open(p, "w").write(s.replace(old, new))
        diff = sh("git -C /repo diff").stdout
        os.makedirs(d, exist_ok=True)
        open(os.path.join(d, "patch.diff"), "w").write(diff)
        open(os.path.join(d, "demo.c"), "w").write(demo)
        open(os.path.join(d, "demo.sh"), "w").write(DEMO)
        os.chmod(os.path.join(d, "demo.sh"), 0o755)
        json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(os.path.join(d, "meta.json"), "w"), indent=1)
        ok = tests_ok()
        r = sh(f"bash {d}/demo.sh", cwd="/repo")
        bad = r.returncode
        det = sh(f"VERIF_SEED=1 python3-vt {ROOT}/dv/run.py {prop}") if ok and bad not in (0, 3) else None
    finally:
        restore()
    sh("bash /opt/vp/build.sh")
    r2 = sh(f"bash {d}/demo.sh", cwd="/repo")
    good = r2.returncode == 0
    verdict = ok and bad not in (0, 3) and good
    caught = det.stdout.strip().splitlines()[-1][:160] if det and det.stdout.strip() else (det.stderr[-300:] if det else "-")
    print(f"{sid}: tests {'ok' if ok else 'FAIL'}, demo with bug {bad}, without {r2.returncode} {r2.stdout[-200:] if not good else ''}{r2.stderr[-200:] if not good else ''} -> {'kept' if verdict else 'REJECTED'}; check: rc={det.returncode if det else '-'} {caught}")
    if not verdict:
        shutil.rmtree(d)
    return verdict
