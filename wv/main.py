"""Entry point of every check:  python3-vt -m wv.main <property> [--tier T] [--replay FILE]"""
import argparse
import importlib
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time

from wv import build

VERIF = build.VERIF
PY = os.environ.get("WV_PYTHON", sys.executable)   # the interpreter itself: a shell cannot be preloaded
EVID = os.path.join(VERIF, os.environ.get("WV_EVIDENCE", "evidence"))
NW = int(os.environ.get("WV_WORKERS", "8"))
CASE_TIMEOUT = 200.0     # generous: ordinary cases take milliseconds, the longest a few seconds
QUICK_LIMIT = 780.0      # what a quick run may take in all, a hang included


def worker_env(variant, pkg, mod, tmp, w):
    env = {k: v for k, v in os.environ.items() if not k.startswith(("PYTHON", "ASAN", "UBSAN", "TSAN", "LD_"))}
    env["PYTHONPATH"] = pkg + ":" + VERIF
    env["WV_PKG"] = pkg
    env["PYTHONHASHSEED"] = "0"
    env["PYTHONDONTWRITEBYTECODE"] = "1"
    env["OPENBLAS_NUM_THREADS"] = env["OMP_NUM_THREADS"] = "1"
    pre = []
    if variant == "asan":
        pre += [build.san_lib("asan"), build.san_lib("stdc++")]     # __cxa_throw must be found at start
        env["ASAN_OPTIONS"] = ("detect_leaks=0:abort_on_error=1:handle_abort=0:handle_segv=1:"
                               "detect_stack_use_after_return=1:strict_string_checks=1:"
                               "allocator_may_return_null=1:max_allocation_size_mb=8000:"
                               "log_path=%s/san.%d" % (tmp, w))
        env["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=1:abort_on_error=1:log_path=%s/san.%d" % (tmp, w)
    if variant == "tsan":
        pre.append(build.san_lib("tsan"))
        env["TSAN_OPTIONS"] = ("halt_on_error=0:report_signal_unsafe=0:history_size=4:"
                               "exitcode=0:log_path=%s/san.%d" % (tmp, w))
    if getattr(mod, "JITTER", False):
        pre.append(build.build_shim())
        env["WV_JITTER_SEED"] = str(1000003 * (w + 1))
    if pre:
        env["LD_PRELOAD"] = ":".join(pre)
    if hasattr(mod, "environment"):
        env.update(mod.environment(variant, tmp, w))
    return env


_aslr = []


def no_aslr():
    if not _aslr:
        ok = subprocess.run(["setarch", "-R", "true"], capture_output=True).returncode == 0
        _aslr.append(["setarch", "-R"] if ok else [])
    return _aslr[0]


def read_records(path):
    recs = []
    try:
        for line in open(path):
            try:
                recs.append(json.loads(line))
            except ValueError:
                pass
    except FileNotFoundError:
        pass
    return recs


class Job:
    def __init__(self, prop, mod, variant, pkg, seed, tier, tmp, w, cases):
        self.out = os.path.join(tmp, "w%s-%s.jsonl" % (variant, w))
        self.err = os.path.join(tmp, "w%s-%s.err" % (variant, w))
        self.tmp, self.w, self.variant = tmp, w, variant
        cmd = [PY, "-m", "wv.worker", prop, "--variant", variant, "--seed", str(seed), "--tier", tier,
               "--out", self.out, "--cases", cases, "--worker", str(w if isinstance(w, int) else 0)]
        wi = w if isinstance(w, int) else 99
        if variant == "tsan":
            # ASLR with many random bits breaks the sanitizer's shadow layout
            env = worker_env(variant, pkg, mod, tmp, wi)
            cmd = no_aslr() + ["env", "LD_PRELOAD=" + env.pop("LD_PRELOAD")] + cmd
        else:
            env = worker_env(variant, pkg, mod, tmp, wi)
        self.log = open(self.err, "wb")
        self.p = subprocess.Popen(cmd, cwd=VERIF, env=env,
                                  stdout=self.log, stderr=self.log, stdin=subprocess.DEVNULL,
                                  start_new_session=True)
        self.hung = False
        self.size = -1
        self.touched = time.time()

    def poll(self, timeout):
        if self.p.poll() is not None:
            return True
        try:
            sz = os.path.getsize(self.out)
        except OSError:
            sz = 0
        if sz != self.size:
            self.size, self.touched = sz, time.time()
        elif time.time() - self.touched > timeout:
            self.hung = True
            try:
                os.killpg(self.p.pid, signal.SIGKILL)
            except OSError:
                pass
            self.p.wait()
            return True
        return False

    def kill(self):
        try:
            os.killpg(self.p.pid, signal.SIGKILL)
        except OSError:
            pass
        self.p.wait()

    def tail(self):
        s = ""
        try:
            with open(self.err, errors="replace") as f:
                s = f.read()
            m = list(re.finditer(r"runtime error:|ERROR: \w+Sanitizer|Assertion .* failed|terminate called|CHECK failed", s))
            if m:
                b = s.rfind("\n", 0, m[-1].start()) + 1
                s = s[b:b + 3500]
            else:
                s = s[-3000:]
        except OSError:
            pass
        wi = self.w if isinstance(self.w, int) else 99
        for f in sorted(os.listdir(self.tmp)):
            if f.startswith("san.%d." % wi):
                s += "\n" + open(os.path.join(self.tmp, f), errors="replace").read()[:6000]
        return s


DEADLINE = None


def run_jobs(jobs, timeout):
    live = list(jobs)
    while live:
        late = DEADLINE is not None and time.time() > DEADLINE
        live = [j for j in live if not j.poll(-1 if late else timeout)]
        if live:
            time.sleep(0.05)


def known_findings():
    """KNOWN lines: property=<id> key=<key prefix> <text>;  'fixed:' lines suppress nothing."""
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("known: "):
                f = line[len("known: "):].split(" ", 2)
                out.append((f[0].split("=", 1)[1], f[1].split("=", 1)[1], f[2] if len(f) > 2 else ""))
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--replay")
    ap.add_argument("--cases", type=int, help="override the number of cases")
    a = ap.parse_args()
    tier = "thorough" if a.tier == "thorough" else "quick"
    mod = importlib.import_module("wv.checks." + a.prop.lower())
    t0 = time.time()
    if tier == "quick" and not a.cases and not a.replay:
        global DEADLINE
        DEADLINE = t0 + QUICK_LIMIT
    os.makedirs(EVID, exist_ok=True)
    if a.replay:
        sys.exit(replay(a, mod))

    pkgs = {}
    try:
        for v in mod.VARIANTS:
            pkgs[v] = build.build(v)
    except build.BuildError as e:
        print("ERROR: %s" % e)
        sys.exit(3)
    tbuild = time.time() - t0
    tmp = tempfile.mkdtemp(prefix="wv-%s-" % a.prop)
    try:
        code = explore(a, mod, tier, pkgs, tmp, t0, tbuild)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    sys.exit(code)


def one_case(a, mod, variant, pkg, seed, tier, tmp, cases, tag):
    j = Job(a.prop, mod, variant, pkg, seed, tier, tmp, tag, cases)
    run_jobs([j], CASE_TIMEOUT)
    return j


def explore(a, mod, tier, pkgs, tmp, t0, tbuild):
    violations = []   # (key, variant, case, detail, worker range)
    errors, inconclusive = [], []
    done = {}         # (variant, i) -> record
    stats = {}
    samples = []
    tests = 0
    for variant in mod.VARIANTS:
        n = mod.CASES[tier]
        n = n[variant] if isinstance(n, dict) else n
        if a.cases:
            n = a.cases
        nw = min(NW, getattr(mod, "MAX_WORKERS", NW), n)
        jobs = [Job(a.prop, mod, variant, pkgs[variant], a.seed, tier, tmp, w, "%d:%d:%d" % (w, n, nw))
                for w in range(nw)]
        run_jobs(jobs, CASE_TIMEOUT)
        for j in jobs:
            w = j.w
            rest_from = None
            attempts = 0
            while True:
                recs = read_records(j.out)
                ended = any(r["k"] == "end" for r in recs)
                started = [r["i"] for r in recs if r["k"] == "start"]
                for r in recs:
                    if r["k"] == "done":
                        done[(variant, r["i"])] = r
                    elif r["k"] == "end":
                        for k, v in r["stats"].items():
                            if k.startswith("max_"):
                                stats[k] = max(stats.get(k, v), v)
                            else:
                                stats[k] = stats.get(k, 0) + v
                if ended and j.p.returncode == 0:
                    break
                # the worker died or hung
                last = started[-1] if started else None
                rc = j.p.returncode
                finished = {r["i"] for r in recs if r["k"] == "done"}
                if last is None or (last in finished and not ended and rc not in (-11, -6, -8, -7, -4)):
                    errors.append("worker %s/%s ended with %s before or between cases\n%s" % (variant, w, rc, j.tail()))
                    break
                tail = j.tail()
                late = DEADLINE is not None and time.time() > DEADLINE - CASE_TIMEOUT
                if j.hung and (late or any(v[0] == "hang" for v in violations)
                               or any(r["k"] == "done" and r["status"] == "violation" for r in recs)):
                    inconclusive.append("case %s did not finish (not repeated: a violation was found already, or no time is left)" % last)
                    break
                elif j.hung:
                    r2 = one_case(a, mod, variant, pkgs[variant], a.seed, tier, tmp, str(last), "re%s-%d" % (w, attempts))
                    if r2.hung:
                        violations.append(("hang", variant, last, "the case does not finish within %ds, twice\n%s"
                                           % (CASE_TIMEOUT, tail), None))
                    else:
                        inconclusive.append("case %s timed out once, finished when run again" % last)
                        for r in read_records(r2.out):
                            if r["k"] == "done":
                                done[(variant, r["i"])] = r
                elif rc in (-9, -15):
                    inconclusive.append("worker %s/%s was killed in case %s (%s)" % (variant, w, last, rc))
                else:
                    kind = "crash"
                    for mark in ("AddressSanitizer", "runtime error", "ThreadSanitizer", "Assertion"):
                        if mark in tail:
                            kind = {"runtime error": "UndefinedBehaviour", "Assertion": "assertion"}.get(mark, mark)
                            break
                    site = re.search(r"(?:/repo/|%s/)wicked/(\S+?\.(?:cc|h|hpp)):" % re.escape(build.REPO), tail)
                    if kind != "crash" and site:
                        kind += ":" + site.group(1)
                    violations.append((kind, variant, last,
                                       "the process ended with status %s in this case\n%s" % (rc, tail),
                                       "%d:%d:%d" % (w if isinstance(w, int) else last, last + 1, nw)))
                attempts += 1
                if attempts > 3 or len(violations) > 20:
                    break
                nxt = last + nw
                if nxt >= n:
                    break
                j2 = Job(a.prop, mod, variant, pkgs[variant], a.seed, tier, tmp, w, "%d:%d:%d" % (nxt, n, nw))
                # the same output file is appended to
                run_jobs([j2], CASE_TIMEOUT)
                j = j2
        if hasattr(mod, "after"):
            for v in mod.after(variant, tmp, stats):
                violations.append((v[0], variant, v[1], v[2], None))

    evaluations = 0
    sigs = set()
    for (variant, i), r in sorted(done.items()):
        st = r["status"]
        if st == "ok":
            evaluations += 1
            if r.get("nt"):
                sigs.add(r["sig"])
            if r.get("sample") and len(samples) < 6:
                samples.append({"case": i, "variant": variant, "observed": r["sample"]})
        elif st == "violation":
            evaluations += 1
            violations.append((r["key"], variant, i, r["detail"], None))
        elif st == "inconclusive":
            inconclusive.append("case %d: %s" % (i, r["detail"]))
        else:
            errors.append("case %d: %s" % (i, r["detail"]))
    known = [k for k in known_findings() if k[0] == a.prop]
    reported, suppressed = [], {}
    for v in violations:
        hit = next((k for k in known if v[0] == k[1]), None)
        if hit:
            suppressed.setdefault(hit, []).append(v)
        else:
            reported.append(v)
    need = getattr(mod, "MIN_NONTRIVIAL", {}).get(tier, 1)
    if a.cases:
        need = 1
    wall = time.time() - t0
    ev = {
        "property": a.prop, "tier": tier, "seed": a.seed, "level": "exploration",
        "coverage": {
            "evaluations": evaluations, "distinct_nontrivial": len(sigs), "rule": mod.RULE,
            "samples": samples or ["none"], "variants": list(mod.VARIANTS),
            "observed": {k: (round(v, 3) if isinstance(v, float) else v) for k, v in sorted(stats.items())},
            "inconclusive_cases": len(inconclusive), "build_s": round(tbuild, 1),
            "slowest_case_s": max([r.get("t", 0) for r in done.values()] or [0]),
        },
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "wall_s": round(wall, 2), "violations": len(reported),
    }
    path = os.path.join(EVID, a.prop + ".json")
    with open(path + ".tmp", "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(path + ".tmp", path)
    for old in os.listdir(EVID):
        if old.startswith("replay-%s-" % a.prop):
            os.unlink(os.path.join(EVID, old))
    print("%s %s seed=%d: %d cases, %d distinct non-trivial, %d inconclusive, build %.0fs, total %.0fs"
          % (a.prop, tier, a.seed, evaluations, len(sigs), len(inconclusive), tbuild, wall))
    for k, v in sorted(stats.items()):
        print("   %-36s %s" % (k, round(v, 3) if isinstance(v, float) else v))
    for s in inconclusive[:5]:
        print("   inconclusive: " + s.splitlines()[0])
    for k in known:
        if k in suppressed:
            print("KNOWN-FINDING: property=%s %s" % (a.prop, k[2]))
        elif hasattr(mod, "known_still_fails"):
            pass
    if reported:
        seen = {}
        for v in reported:
            seen.setdefault(v[0], []).append(v)
        n = 0
        for k, vs in seen.items():
            vs.sort(key=lambda v: v[2] < 0)  # cases that can be replayed first
            key, variant, case, detail, rng = vs[0]
            rp = "%s/replay-%s-%d.json" % (os.environ.get("WV_EVIDENCE", "evidence"), a.prop, n)
            n += 1
            json.dump({"property": a.prop, "key": key, "variant": variant, "seed": a.seed, "tier": tier,
                       "case": case, "history": rng, "count": len(vs), "detail": detail,
                       "command": "python3-vt -m wv.main %s --replay %s" % (a.prop, rp)},
                      open(os.path.join(VERIF, rp), "w"), indent=1)
            print("VIOLATION property=%s replay=%s" % (a.prop, rp))
            print("   [%s] x%d, case %s (%s)\n   %s" % (key, len(vs), case, variant,
                                                       "\n   ".join(detail.splitlines()[-45:])))
        return 1
    if errors:
        print("ERROR: " + "\n".join(errors[:3]))
        return 3
    if len(sigs) < need:
        print("ERROR: inconclusive, only %d distinct non-trivial cases (need %d)" % (len(sigs), need))
        return 3
    return 0


def replay(a, mod):
    r = json.load(open(a.replay if os.path.isabs(a.replay) else os.path.join(VERIF, a.replay)))
    variants = mod.VARIANTS if getattr(mod, "COMPARES_VARIANTS", False) else [r["variant"]]
    for cases in [str(r["case"])] + ([r["history"]] if r.get("history") else []):
        tmp = tempfile.mkdtemp(prefix="wv-replay-")
        try:
            for v in variants:
                j = one_case(a, mod, v, build.build(v), r["seed"], r["tier"], tmp, cases, 0)
                bad = [(x["key"], x["i"], x["detail"]) for x in read_records(j.out) if x.get("status") == "violation"]
                if hasattr(mod, "after"):
                    bad += list(mod.after(v, tmp, {}))
                for _, _, detail in bad:
                    print("VIOLATION property=%s replay=%s\n%s" % (a.prop, a.replay, detail))
                if j.p.returncode not in (0, None):
                    print("process status %s\n%s" % (j.p.returncode, j.tail()))
                if bad or j.p.returncode:
                    return 1
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
    print("not reproduced")
    return 0


if __name__ == "__main__":
    main()
