"""Contraction results do not depend on execution mode or history."""
import os
from fractions import Fraction

from wv import fock, gen, jitter, sem
from wv.core import Result

VARIANTS = ["plain"]
JITTER = True
CASES = {"quick": 9000, "thorough": 250000}
MIN_NONTRIVIAL = {"quick": 2000, "thorough": 8000}
RULE = ("each random operator expression is contracted single threaded on a fresh engine, and again with threads under random "
        "delays, at every print level, on reused engines with a random history of other contractions, settings and library "
        "calls; results must be identical (same text), inputs unchanged, and equal in value with graph canonicalization off; "
        "non-trivial when the threaded run started at least two threads and the result is not empty; distinct = distinct inputs")
ASSUMPTIONS = ["schedules are sampled with random delays at thread start, at locks and at allocations"]


def setup(ctx):
    ctx.jit = jitter.Stats()
    ctx.engines = []
    ctx.orders = set()
    # the engine prints with C++ streams
    ctx.out = os.dup(1)
    ctx.null = os.open(os.devnull, os.O_WRONLY)


class Muted:
    def __init__(self, ctx):
        self.ctx = ctx

    def __enter__(self):
        os.dup2(self.ctx.null, 1)

    def __exit__(self, *a):
        os.dup2(self.ctx.out, 1)


LEVELS = ["no", "basic", "summary", "detailed", "all"]


def levels(w):
    return [getattr(w.PrintLevel, n) for n in dir(w.PrintLevel) if not n.startswith("_") and n not in ("name", "value")]


def build(ctx, rng, spaces, general, big=False):
    w = ctx.w
    total = (8 if general else 12) if big else rng.choice([4, 6, 6]) if general else rng.choice([6, 8, 8, 10])
    E, parts = None, []
    for _ in range(rng.choice([1, 1, 2])):
        ops = []
        while not ops:
            ops = gen.rand_product(rng, spaces, total, nmax=4)
            if big and sum(sum(c) + sum(a) for _, c, a in ops) < total - 1:
                ops = []
        f = gen.rand_factor(rng)
        parts.append((f, ops))
    return parts


def make(w, spaces, parts):
    E = None
    for f, ops in parts:
        e = gen.scale(w, gen.make_product(w, spaces, ops), *f)
        E = e if E is None else E + e
    return E


def run_case(ctx, rng, i):
    w = ctx.w
    general = rng.random() < 0.5
    spaces = gen.general_spaces(rng) if general else gen.sd_spaces(rng)
    gen.add_spaces(w, spaces)
    labels = [s.label for s in spaces]
    many = i % 61 == 7
    if many:
        # hundreds of contractions
        spaces = [fock.Space("a", "fermion", "general", 3)] if general else spaces
        gen.add_spaces(w, spaces)
        labels = [s.label for s in spaces]
    parts = build(ctx, rng, spaces, general, many)
    for f, ops in parts:
        ctx.log("%s * %s" % (Fraction(*f), gen.show_product(spaces, ops)))
    E = make(w, spaces, parts)
    E2 = make(w, spaces, parts)
    text = str(E)
    tot = max(sum(sum(c) + sum(a) for _, c, a in p) for _, p in parts)
    lo = rng.choice([0, 0, 0, 2])
    hi = rng.choice([tot, tot, lo, lo + 2])
    f = gen.rand_factor(rng)
    fr = w.rational(*f)

    def reference():
        wt = w.WickTheorem()
        wt.set_single_threaded(True)
        return str(wt.contract(fr, E, lo, hi))

    ref = reference()
    ctx.log("spaces %s window %d..%d factor %s" % (labels, lo, hi, f))

    def compare(what, r):
        ctx.count("results_compared")
        s = str(r)
        if s != ref:
            ctx.fail("mode-dependent", "%s gives a different result\nreference:\n%s\ngot:\n%s" % (what, ref[:3000], s[:3000]))
        if str(E) != text or not (E == E2):
            ctx.fail("input-modified", "%s modified its input:\n%s\nbefore:\n%s" % (what, E, text))

    # threads under random delays, several schedules
    threads = 0
    ctx.jit.read()
    reused = w.WickTheorem()
    for k in range(rng.choice([2, 3])):
        wt = reused if rng.random() < 0.6 else w.WickTheorem()
        wt.set_single_threaded(False)
        compare("threaded contraction", wt.contract(fr, E, lo, hi))
        t = ctx.jit.read()
        threads = max(threads, t[0])
        ctx.top("threads_of_a_contraction", t[0])
        ctx.count("threads_started", t[0])
        ctx.count("delays_injected", t[3])
        ctx.top("threads_alive_at_once", t[4])
        if t[0] > 1:
            if t[5] not in ctx.orders:
                ctx.orders.add(t[5])
                ctx.count("distinct_thread_start_orders")
    # print levels, both modes
    lv = levels(w)
    with Muted(ctx):
        rs = []
        big = ref.count("\n") > 60
        for p in rng.sample(lv, 1 if many else 2 if big else len(lv)):
            wt = w.WickTheorem()
            wt.set_print(p)
            wt.set_single_threaded(rng.random() < 0.5)
            rs.append((p, wt.contract(fr, E, lo, hi)))
    for p, r in rs:
        compare("print level %s" % p, r)
    # an engine with a history
    old = rng.choice(ctx.engines) if ctx.engines and rng.random() < 0.8 else w.WickTheorem()
    for _ in range(rng.randint(0, 4)):
        r = rng.random()
        if r < 0.35:
            p2 = build(ctx, rng, spaces, general)
            old.set_max_cumulant(rng.randint(0, 4))
            old.do_canonicalize_graph(rng.random() < 0.5)
            old.contract(make(w, spaces, p2), 0, rng.randint(0, 4))
            ctx.log("history: another contraction")
        elif r < 0.5:
            E.canonicalize
            w.expression("1/2 T^{%s0}_{%s1}" % (labels[0], labels[-1])).canonicalize()
            ctx.log("history: expressions")
        elif r < 0.6:
            c = [ch for ch in "abcdefghijklmnopqrstuvwxyzABCDEFG" if ch not in labels][0]
            ctx.raises(lambda: w.add_space(labels[0], "fermion", "general", []), "accepted", "duplicate space")
            ctx.log("history: rejected space")
        elif r < 0.7:
            gen.add_spaces(w, spaces)
            ctx.log("history: spaces registered again")
        elif r < 0.8:
            w.bch_series(E, E, 1) if sum(len(p) for _, p in parts) < 6 else None
            ctx.log("history: bch_series")
        elif r < 0.9:
            old.contract(E, 5, 2)
        else:
            try:
                old.contract("nonsense", 0, 0)
            except TypeError:
                pass
    old.set_max_cumulant(100)
    old.do_canonicalize_graph(True)
    old.set_single_threaded(rng.random() < 0.5)
    compare("an engine with a history", old.contract(fr, E, lo, hi))
    compare("a copy of the input", old.contract(fr, E2, lo, hi))
    ctx.engines.append(old)
    del ctx.engines[:-5]
    # a later space that the operators do not use
    if rng.random() < 0.3 and len(spaces) < 4:
        c = [ch for ch in "abcdefghijklmnopqrstuvwxyzABCDEFG" if ch not in labels][0]
        w.add_space(c, rng.choice(["fermion", "boson"]), rng.choice(["occupied", "unoccupied", "general"]), ["zz%d" % k for k in range(3)])
        # only the stored operators are used: their text does not mention the new space
        compare("after registering an unrelated space", old.contract(fr, E, lo, hi))
        compare("operators made after registering an unrelated space", old.contract(fr, make(w, spaces, parts), lo, hi))
        gen.add_spaces(w, spaces)
    # graph canonicalization off: same value
    wt = w.WickTheorem()
    wt.do_canonicalize_graph(False)
    wt.set_single_threaded(rng.random() < 0.5)
    r0 = wt.contract(fr, E, lo, hi)
    if str(r0) != ref:
        ctx.count("canonicalization_off_different_form")
        r1 = w.WickTheorem().contract(fr, E, lo, hi)
        t0, t1 = sem.terms(w, r0), sem.terms(w, r1)
        cost = sum(max(spaces[k].n for k in range(len(spaces))) ** len(t.ops) for t in t0 + t1)
        if cost < 2_000_000:
            m = fock.Model(spaces, rng)
            v = m.random_vector()
            if not (m.apply_expression(t0, v) == m.apply_expression(t1, v)).all():
                ctx.fail("canonicalize-graph-value", "graph canonicalization changes the value\non:\n%s\noff:\n%s"
                         % (sem.show(t1, labels), sem.show(t0, labels)))
            ctx.count("canonicalization_off_values_compared")
    else:
        ctx.count("canonicalization_off_same_text")
    ctx.count("terms", ref.count("\n") + 1 if ref else 0)
    return Result((labels, parts, lo, hi), threads > 1 and bool(ref),
                  "%s\n-> %d terms, the same from %d threads" % ("\n".join(ctx.trace[:4]), ref.count("\n") + 1, threads)
                  if threads > 1 and ref else None)
