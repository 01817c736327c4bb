"""Confirms planted bugs and runs the checks against them, in a scratch copy of the repository.

    python3 tools/plant.py [--no-tests] [--no-check] [--checks C01,C02] [--all-checks] ID...

Confirms for each seeded/ID: the demo passes without the patch, the patch applies, builds, passes the stable tests,
the demo fails with it; then runs the check of its property (or the given ones) and prints whether it is caught.
Results go to .build/plant.jsonl (ignored by git).
"""
import argparse
import json
import os
import shutil
import subprocess
import sys
import time

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SW = os.environ.get("PLANT_DIR", "/tmp/plant")


def sh(cmd, cwd=None, timeout=900, env=None):
    p = subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True, timeout=timeout, env=env)
    return p.returncode, p.stdout + p.stderr


def prepare():
    if not os.path.exists(SW):
        shutil.copytree("/repo", SW, symlinks=True, ignore=shutil.ignore_patterns("_build", "*.so"))
    else:
        sh("git checkout -q -- . && git fetch -q /repo && git checkout -q FETCH_HEAD", cwd=SW)
    sh("git reset -q --hard && git fetch -q /repo && git checkout -q FETCH_HEAD", cwd=SW)
    for n in ("build", "test"):
        s = open("/opt/vp/%s.sh" % n).read().replace("/repo", SW).replace("/opt/vp/build.sh", SW + "/.build.sh")
        open(SW + "/.%s.sh" % n, "w").write(s)


def build():
    return sh("bash %s/.build.sh" % SW)


def demo(d):
    t = "/tmp/plantdemo.%d" % os.getpid()
    shutil.rmtree(t, ignore_errors=True)
    shutil.copytree(d, t, ignore=shutil.ignore_patterns("*.diff", "*.patch", "meta.json"))
    env = {k: v for k, v in os.environ.items() if not k.startswith("WV_")}
    try:
        return sh("bash %s/demo.sh" % t, cwd=SW, timeout=300, env=env)
    finally:
        shutil.rmtree(t, ignore_errors=True)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--no-tests", action="store_true")
    ap.add_argument("--no-check", action="store_true")
    ap.add_argument("--checks", default="")
    ap.add_argument("ids", nargs="*")
    a = ap.parse_args()
    ids = a.ids or sorted(os.listdir(V + "/seeded"))
    prepare()
    rc, out = build()
    assert rc == 0, out[-3000:]
    base = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    good = {}
    for i in ids:
        good[i] = demo(V + "/seeded/" + i)
    for i in ids:
        d = V + "/seeded/" + i
        meta = json.load(open(d + "/meta.json"))
        rec = {"id": i, "property": meta["property"], "time": time.time()}
        rec["demo_clean"] = good[i][0]
        if good[i][0] != 0:
            print(i, "DEMO FAILS ON THE CLEAN TREE\n", good[i][1][-1500:])
        sh("git checkout -q -- .", cwd=SW)
        rc, out = sh("git apply %s/patch.diff" % d, cwd=SW)
        if rc:
            print(i, "patch does not apply", out)
            continue
        rc, out = build()
        if rc:
            print(i, "build fails", out[-3000:])
            continue
        rc, out = demo(d)
        rec["demo_patched"] = rc
        if rc == 0:
            print(i, "DEMO PASSES WITH THE PATCH\n", out[-500:])
        if not a.no_tests:
            sh("bash %s/.test.sh /tmp/plant.json" % SW)
            r = json.load(open("/tmp/plant.json"))
            miss = sorted(base - set(r["passed"]))
            rec["tests_lost"] = miss
            if miss:
                print(i, "TESTS FAIL", miss[:5])
        if not a.no_check:
            rec["checks"] = {}
            for c in (a.checks.split(",") if a.checks else [meta["property"]]):
                t0 = time.time()
                rc, out = sh("python3-vt -m wv.main %s" % c, cwd=V, env=dict(os.environ, WV_REPO=SW, WV_BUILD=SW + "-build", WV_EVIDENCE=SW + "-ev"))
                v = [l for l in out.splitlines() if l.startswith("VIOLATION")]
                ln = out.splitlines()
                key = next((ln[k + 1].strip() for k, l in enumerate(ln) if l.startswith("VIOLATION") and k + 1 < len(ln)), "")
                rec["checks"][c] = [rc, len(v), key, round(time.time() - t0)]
        print(i, meta["property"], "clean=%s patched=%s lost=%s" % (rec["demo_clean"], rec.get("demo_patched"), len(rec.get("tests_lost", []))),
              rec.get("checks", ""), flush=True)
        with open(V + "/.build/plant.jsonl", "a") as f:
            f.write(json.dumps(rec) + "\n")
        sh("git checkout -q -- .", cwd=SW)


main()
