#!/usr/bin/env python3
"""plant.py <id> [--checks C01,C02]: confirm a seeded change (applies, builds, passes the
stable tests, demo passes clean and fails patched) and say which checks catch it."""
import json, os, subprocess, sys
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"


def sh(cmd, timeout=1200, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, timeout=timeout, **kw)


def confirm(bug, checks=None, tests=True):
    d = os.path.join(VERIF, "seeded", bug)
    meta = json.load(open(os.path.join(d, "meta.json")))
    assert sh("git -C /repo status --porcelain").stdout == "", "repo not clean"
    out = {"clean_demo": sh(f"bash {d}/demo.sh", cwd=REPO, timeout=300).returncode}
    r = sh(f"git -C /repo apply {d}/patch.diff")
    if r.returncode:
        return {"apply": r.stderr}
    try:
        if tests:
            b = sh("bash /opt/vp/build.sh")
            out["build"] = b.returncode
            if b.returncode:
                out["log"] = (b.stdout + b.stderr)[-1500:]
                return out
            sh("bash /opt/vp/test.sh /tmp/plant/out.json")
            got = json.load(open("/tmp/plant/out.json"))
            base = json.load(open("/opt/vp/BASELINE.json"))
            want = base["stable"]
            out["lost_tests"] = [t for t in want if t not in got["passed"]]
        p = sh(f"bash {d}/demo.sh", cwd=REPO, timeout=300)
        out["patched_demo"] = p.returncode
        out["demo_says"] = (p.stdout + p.stderr)[-300:]
        for c in checks if checks is not None else [meta["property"]]:
            r = sh(f"python3 {VERIF}/tools/check.py {c}", cwd=VERIF)
            out[c] = (r.returncode, [x for x in r.stdout.split("\n") if x.startswith(("violated", "ERROR"))][:1])
    finally:
        sh("git -C /repo checkout -- .")
    return out


if __name__ == "__main__":
    a = sys.argv[1:]
    checks = None
    tests = True
    ids = []
    while a:
        x = a.pop(0)
        if x == "--checks":
            checks = a.pop(0).split(",")
        elif x == "--no-tests":
            tests = False
        else:
            ids.append(x)
    for i in ids:
        print(i, json.dumps(confirm(i, checks, tests), indent=1), flush=True)
