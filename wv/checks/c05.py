"""Threaded contraction is free of data races (ThreadSanitizer under random delays)."""
import os
import re

from wv import gen, jitter
from wv.core import Result

VARIANTS = ["tsan"]
JITTER = True
CASES = {"quick": 5000, "thorough": 120000}
MIN_NONTRIVIAL = {"quick": 1000, "thorough": 3000}
RULE = ("random operator expressions over all kinds of spaces are contracted with threads in a ThreadSanitizer build of the "
        "library under random delays, with all settings and print levels; every report whose stacks involve the library is a "
        "violation, and the timers are read after each contraction and compared with the steps that ran; non-trivial when "
        "at least two threads ran; distinct = distinct inputs and settings")
ASSUMPTIONS = ["ThreadSanitizer sees the library's code and the C++ headers compiled into it, not libstdc++'s shared object",
               "happens-before detection: a race is seen when both accesses run, whatever the order they run in"]


def environment(variant, tmp, w):
    return {"WV_JITTER_ALLOC": "0"}


def setup(ctx):
    ctx.jit = jitter.Stats()
    ctx.orders = set()
    ctx.out = os.dup(1)
    ctx.null = os.open(os.devnull, os.O_WRONLY)
    # the sanitizer writes its reports to this file as it finds them
    m = re.search(r"log_path=([^:]+)", os.environ.get("TSAN_OPTIONS", ""))
    ctx.report_file = "%s.%d" % (m.group(1), os.getpid()) if m else None
    ctx.report_seen = 0


def new_reports(ctx):
    """reports written since the last call that involve the library"""
    if not ctx.report_file or not os.path.exists(ctx.report_file):
        return []
    with open(ctx.report_file, errors="replace") as f:
        f.seek(ctx.report_seen)
        text = f.read()
        ctx.report_seen = f.tell()
    return list(reports(text))


def run_case(ctx, rng, i):
    w = ctx.w
    general = rng.random() < 0.6
    spaces = gen.general_spaces(rng) if general else gen.sd_spaces(rng)
    gen.add_spaces(w, spaces)
    total = rng.choice([4, 6, 6, 8]) if general else rng.choice([6, 8, 10, 12])
    E, parts = None, []
    for _ in range(rng.choice([1, 1, 2])):
        ops = []
        while not ops:
            ops = gen.rand_product(rng, spaces, total, nmax=4)
        f = gen.rand_factor(rng)
        parts.append((f, ops))
        e = gen.scale(w, gen.make_product(w, spaces, ops), *f)
        E = e if E is None else E + e
        ctx.log(gen.show_product(spaces, ops))
    tot = max(sum(sum(c) + sum(a) for _, c, a in p) for _, p in parts)
    lo = rng.choice([0, 0, 0, 2])
    hi = rng.choice([tot, tot, tot, lo])
    wt = w.WickTheorem()
    wt.set_single_threaded(False)
    canon = rng.random() < 0.7
    wt.do_canonicalize_graph(canon)
    if rng.random() < 0.3:
        wt.set_max_cumulant(rng.randint(0, 3))
    loud = rng.random() < 0.25
    if loud:
        wt.set_print(rng.choice([w.PrintLevel.basic, w.PrintLevel.summary, w.PrintLevel.detailed, w.PrintLevel.all]))
    ctx.log("contract(%d, %d) loud=%s canon=%s" % (lo, hi, loud, canon))
    ctx.jit.read()
    os.dup2(ctx.null, 1)
    try:
        n = len(wt.contract(E, lo, hi))
        before = dict(wt.timers())
        m = len(wt.contract(E, lo, hi))
    finally:
        os.dup2(ctx.out, 1)
    for key, rep in new_reports(ctx):
        ctx.fail(key, rep)
    if n != m:
        ctx.fail("unstable", "two identical threaded contractions give %d and %d terms" % (n, m))
    t = ctx.jit.read()
    ctx.count("threads_started", t[0])
    ctx.count("delays_injected", t[3])
    ctx.count("locks_in_threads", t[1])
    ctx.top("threads_alive_at_once", t[4])
    if t[0] > 1:
        ctx.orders.add(t[5])
        ctx.count("contractions_with_threads")
    # timers
    after = dict(wt.timers())
    want = {"step 1", "step 2", "step 3"} | ({"canonicalize_contraction_graph", "evaluate_contraction"} if n else set())
    for k in want:
        if k not in before or k not in after:
            ctx.fail("timers", "timer %r is missing from %s" % (k, sorted(after)))
    for k in before:
        if not (after.get(k, -1) >= before[k] >= 0):
            ctx.fail("timers", "timer %r went from %s to %s" % (k, before[k], after.get(k)))
    ctx.count("timer_readings")
    return Result((parts, lo, hi, canon, loud), t[0] > 1)


OURS = re.compile(r"_wicked\.cpython|/wicked/")


def reports(text):
    for rep in re.split(r"={18}\n", text):
        if "WARNING: ThreadSanitizer" not in rep or not OURS.search(rep):
            continue
        kind = re.search(r"ThreadSanitizer: ([\w ()-]+?)(?: \(pid|$)", rep).group(1).strip()
        where = re.search(r"#\d+ [^\n]*?(?:^|[ /])wicked/(\w+/[\w.]+?):\d+", rep, re.M)
        yield ("%s in %s" % (kind, where.group(1) if where else "?")).replace(" ", "-"), rep[:6000]


def after(variant, tmp, stats):
    """reports of the sanitizer, also those outside of the contractions"""
    out, seen = [], set()
    for f in sorted(os.listdir(tmp)):
        if not f.startswith("san."):
            continue
        text = open(os.path.join(tmp, f), errors="replace").read()
        stats["sanitizer_reports"] = stats.get("sanitizer_reports", 0) + text.count("WARNING: ThreadSanitizer")
        for key, rep in reports(text):
            if key not in seen:
                seen.add(key)
                out.append((key, -1, rep))
    stats.setdefault("sanitizer_reports", 0)
    return out
