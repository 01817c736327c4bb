"""Contraction filters select exactly and contraction is linear."""
from fractions import Fraction

from wv import diagrams, gen, sem
from wv.core import Result

VARIANTS = ["plain"]
CASES = {"quick": 6000, "thorough": 150000}
MIN_NONTRIVIAL = {"quick": 1500, "thorough": 15000}
RULE = ("random sums of operator products over random sets of spaces; the unrestricted contraction is filtered in Python by "
        "rank and by cumulant rank and compared with the restricted contraction; scaled, split and summed inputs are compared "
        "with scaled and summed results; in 20 % of the cases the diagrams and weights of a larger product inside a random rank "
        "window and cumulant limit are compared with those enumerated in Python; non-trivial when the restriction both keeps and drops terms or the sum has several "
        "non-zero summands; distinct = distinct inputs")
ASSUMPTIONS = ["fermionic spaces; tensors named lambda<k>, gamma1, eta1 are not used as user labels"]


def lam(t):
    """largest cumulant rank in a term (gamma1 and eta1 have rank one)"""
    k = 0
    for x in t.tensors:
        if x.label in ("gamma1", "eta1"):
            k = max(k, 1)
        elif x.label.startswith("lambda") and x.label[6:].isdigit():
            k = max(k, int(x.label[6:]))
    return k


def run_case(ctx, rng, i):
    w = ctx.w
    general = rng.random() < 0.6
    spaces = gen.general_spaces(rng) if general else gen.sd_spaces(rng)
    gen.add_spaces(w, spaces)
    if rng.random() < 0.2:
        d = diagrams.case(ctx, rng, spaces, general)
        return Result(("diagrams", *d[0]), d[1]) if d else Result("small", False)
    labels = [s.label for s in spaces]
    wt = w.WickTheorem()
    wt.set_single_threaded(rng.random() < 0.6)
    canon = rng.random() > 0.15
    wt.do_canonicalize_graph(canon)
    total = rng.choice([4, 6, 6, 8]) if general else rng.choice([6, 8, 10])
    E, parts, tot = None, [], 0
    for _ in range(rng.choice([1, 1, 2, 3])):
        ops = []
        while not ops:
            ops = gen.rand_product(rng, spaces, total, nmax=4)
        tot = max(tot, sum(sum(c) + sum(a) for _, c, a in ops))
        f = gen.rand_factor(rng)
        e = gen.scale(w, gen.make_product(w, spaces, ops), *f)
        parts.append((f, ops, e))
        E = e if E is None else E + e
        ctx.log("%s * %s" % (Fraction(*f), gen.show_product(spaces, ops)))
    full = sem.terms(w, wt.contract(E, 0, tot))
    F = sem.as_dict(full)
    ctx.log("spaces %s; contract(0,%d): %d terms" % ([(s.label, s.stype) for s in spaces], tot, len(F)))
    if len(F) != len(full):
        ctx.fail("repeated-term", "the result repeats a term or contains a zero term\n" + sem.show(full, labels))
    nontrivial = False

    def compare(what, got, want, key):
        ctx.count("results_compared")
        if got != want:
            d = {k: (got.get(k), want.get(k)) for k in set(got) | set(want) if got.get(k) != want.get(k)}
            k = sorted(d, key=repr)[0]
            ctx.fail(key, "%s: %d terms differ, first: %s is %s, expected %s" % (what, len(d), k, d[k][0], d[k][1]))

    # rank windows
    for _ in range(4):
        lo = rng.randint(-1, tot + 1)
        hi = lo + rng.choice([0, 0, 1, 2, 3, 100])
        got = sem.as_dict(sem.terms(w, wt.contract(E, lo, hi)))
        want = {k: c for k, c in F.items() if lo <= len(k[1]) <= hi}
        compare("window %d..%d" % (lo, hi), got, want, "window")
        nontrivial |= 0 < len(want) < len(F)
    if lo > 0:
        compare("empty window", sem.as_dict(sem.terms(w, wt.contract(E, 3, 2))), {}, "window")
    # the windows of all single ranks add up
    acc = w.Expression()
    for r in range(tot + 1):
        acc = acc + wt.contract(E, r, r)
    compare("sum of the single-rank windows", sem.as_dict(sem.terms(w, acc)), F, "window-sum")
    # maximum cumulant rank
    if general:
        maxl = max([lam(t) for t in full] or [0])
        for n in {rng.randint(0, 5), max(maxl - 1, 0), maxl, rng.choice([0, 1, 2])}:
            w2 = wt if rng.random() < 0.5 else w.WickTheorem()
            w2.do_canonicalize_graph(canon)
            w2.set_max_cumulant(n)
            lo, hi = rng.choice([(0, tot), (0, 0), (0, tot), (1, tot), (2, 2)])
            got = sem.as_dict(sem.terms(w, w2.contract(E, lo, hi)))
            want = {k: c for k, c in F.items() if lo <= len(k[1]) <= hi and lam_key(k) <= n}
            compare("set_max_cumulant(%d), window %d..%d" % (n, lo, hi), got, want, "max-cumulant")
            nontrivial |= 0 < len(want) < len(F)
            ctx.count("cumulant_limits_compared")
        wt.set_max_cumulant(100)
        compare("limit raised again", sem.as_dict(sem.terms(w, wt.contract(E, 0, tot))), F, "max-cumulant")
    # linearity
    f = gen.rand_factor(rng)
    fr = Fraction(*f)
    ef = gen.scale(w, E, *f)
    compare("prefactor %s" % fr, sem.as_dict(sem.terms(w, wt.contract(w.rational(*f), E, 0, tot))),
            {k: c * fr for k, c in F.items()}, "linear-factor")
    compare("scaled input %s" % fr, sem.as_dict(sem.terms(w, wt.contract(ef, 0, tot))),
            {k: c * fr for k, c in F.items()}, "linear-scale")
    compare("prefactor 0", sem.as_dict(sem.terms(w, wt.contract(w.rational(0), E, 0, tot))), {}, "linear-zero")
    acc = w.Expression()
    nz = 0
    for _, _, e in parts:
        r = wt.contract(e, 0, tot)
        nz += len(r) > 0
        acc = acc + r
    compare("sum of the contractions", sem.as_dict(sem.terms(w, acc)), F, "linear-sum")
    compare("input minus itself", sem.as_dict(sem.terms(w, wt.contract(E - E, 0, tot))), {}, "linear-sum")
    ctx.top("terms", len(F))
    return Result((labels, [(p[0], p[1]) for p in parts]), nontrivial or nz > 1)


def lam_key(k):
    r = 0
    for lab, up, lo in k[0]:
        if lab in ("gamma1", "eta1"):
            r = max(r, 1)
        elif lab.startswith("lambda") and lab[6:].isdigit():
            r = max(r, int(lab[6:]))
    return r
