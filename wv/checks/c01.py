"""Wick's theorem is exact for a single-determinant (occupied/unoccupied) vacuum."""
from fractions import Fraction

from wv import diagrams, fock, gen, sem, wickcheck
from wv.core import Result

VARIANTS = ["plain"]
CASES = {"quick": 8000, "thorough": 160000}
MIN_NONTRIVIAL = {"quick": 1500, "thorough": 15000}
RULE = ("random products and sums of normal-ordered operators over 1-4 occupied/unoccupied fermionic spaces "
        "(repeated labels, odd and number-changing operators, 1-3 bodies, 1-9 factors, some with hundreds of contractions) contracted and compared, modulo a "
        "prime, with the operator product acting on a random Fock-space vector (or on the reference state for narrow "
        "rank windows); products of up to 12 factors and 14 legs per operator are compared with the weights and signs of all "
        "their diagrams, enumerated by counting legs; a case is non-trivial when the product does not vanish and the result contains a contracted "
        "term; distinct = distinct products")
ASSUMPTIONS = ["fermionic spaces of at most 4 orbitals each; equality is tested modulo 1048573 on a random vector",
               "bosonic spaces are not contracted (the contraction engine handles fermions only)"]


def opt(ctx, rng, wt):
    wt.set_single_threaded(rng.random() < 0.5)
    if rng.random() < 0.2:
        wt.do_canonicalize_graph(False)


def run_case(ctx, rng, i):
    w = ctx.w
    wt = w.WickTheorem()
    opt(ctx, rng, wt)
    if rng.random() < 0.25:
        spaces = gen.sd_spaces(rng, many=0.25)
        gen.add_spaces(w, spaces)
        d = diagrams.case(ctx, rng, spaces, False)
        return Result(("diagrams", *d[0]), d[1]) if d else Result("small", False)
    kind = rng.random()
    if kind < 0.06:
        return large(ctx, rng, wt)
    if kind < 0.12:
        return many_terms(ctx, rng, wt)
    if kind < 0.55:
        return full_window(ctx, rng, wt)
    if kind < 0.85:
        return narrow_window(ctx, rng, wt)
    return chemistry(ctx, rng, wt)


def contract(ctx, wt, e, f, lo, hi):
    if f is None:
        return wt.contract(e, lo, hi)
    return wt.contract(ctx.w.rational(*f), e, lo, hi)


def sums(ctx, rng, spaces, total, nprod):
    w = ctx.w
    E = None
    opx = []
    for _ in range(nprod):
        ops = gen.rand_product(rng, spaces, total)
        while not ops:
            ops = gen.rand_product(rng, spaces, total)
        f = gen.rand_factor(rng)
        e = gen.make_product(w, spaces, ops)
        if f != (1, 1):
            e = gen.scale(w, e, *f)
        E = e if E is None else E + e
        opx.append((Fraction(*f), ops))
        ctx.log("%d/%d * %s" % (f[0], f[1], gen.show_product(spaces, ops)))
    return E, opx


def full_window(ctx, rng, wt):
    spaces = gen.sd_spaces(rng)
    gen.add_spaces(ctx.w, spaces)
    total = 8
    E, opx = sums(ctx, rng, spaces, total, rng.choice([1, 1, 1, 2]))
    f = gen.rand_factor(rng) if rng.random() < 0.5 else None
    hi = max(sum(sum(c) + sum(a) for _, c, a in p) for _, p in opx) + rng.choice([0, 0, 5])
    ctx.log("contract(%s, 0, %d) spaces %s" % (f, hi, [(s.label, s.stype, s.n) for s in spaces]))
    r = contract(ctx, wt, E, f, 0, hi)
    what = "full contraction"
    ts, nz = wickcheck.check_full(ctx, spaces, opx, r, Fraction(*(f or (1, 1))), rng, what)
    tot = max(sum(sum(c) + sum(a) for _, c, a in p) for _, p in opx)
    contracted = any(len(t.ops) < tot for t in ts)
    ctx.top("terms", len(ts))
    ctx.top("factors", max(len(p) for _, p in opx))
    return Result(("full", [(s.label, s.stype) for s in spaces], opx), nz and contracted,
                  "\n".join(ctx.trace) + "\n-> %d terms, equal on %d-dim space" % (len(ts), 1 << sum(s.n for s in spaces)))


def narrow_window(ctx, rng, wt):
    big = rng.random() < 0.4
    spaces = gen.sd_spaces(rng, big)
    gen.add_spaces(ctx.w, spaces)
    total = rng.choice([8, 10, 12])
    E, opx = sums(ctx, rng, spaces, total, rng.choice([1, 1, 2]))
    tot = max(sum(sum(c) + sum(a) for _, c, a in p) for _, p in opx)
    lo = rng.choice([0, 0, 0, 1, 2, 3, 4])
    hi = lo + rng.choice([0, 0, 1, 2])
    hi = min(hi, 6)
    f = gen.rand_factor(rng) if rng.random() < 0.3 else None
    ctx.log("contract(%s, %d, %d) spaces %s" % (f, lo, hi, [(s.label, s.stype, s.n) for s in spaces]))
    r = contract(ctx, wt, E, f, lo, hi)
    ts, nz = wickcheck.check_reference(ctx, spaces, opx, r, Fraction(*(f or (1, 1))), lo, hi, rng, "windowed contraction")
    ctx.top("operators_in_a_product", tot)
    return Result(("win", lo, hi, [(s.label, s.stype) for s in spaces], opx), nz and bool(ts))


def large(ctx, rng, wt):
    """many factors, many legs or many equivalent legs"""
    mode = rng.choice(["factors", "factors", "legs", "equivalent"])
    lo, hi = rng.choice([(0, 0), (0, 1), (0, 2), (1, 3), (2, 4)])
    if mode == "factors":
        n = rng.choice([6, 6, 7, 8, 9])
        spaces = gen.sd_spaces(rng, True)
        ops = gen.long_product(rng, spaces, n, rng.choice([8, 9, 10]))
        wt.do_canonicalize_graph(n == 6 and rng.random() < 0.5 and len(spaces) > 1)
    elif mode == "legs":
        # four to eight legs per operator in different spaces
        k = rng.choice([4, 4, 5])
        st = [rng.choice(["occupied", "unoccupied"]) for _ in range(k)]
        spaces = [fock.Space(l, "fermion", t, 2) for l, t in zip(rng.sample(gen.LETTERS, k), st)]
        y = rng.random() < 0.2
        side = [rng.choice([0, 1, 2, 2]) for _ in range(k)], [rng.choice([0, 0, 1]) if y else 0 for _ in range(k)]
        left = tuple(x if t == "occupied" else y for x, y, t in zip(*side, st)), tuple(y if t == "occupied" else x for x, y, t in zip(*side, st))
        ops = [("A", left[0], left[1]), (rng.choice("AB"), left[1], left[0])]
        if rng.random() < 0.5:
            j = rng.randrange(k)
            one = tuple(int(x == j) for x in range(k))
            zero = (0,) * k
            ops.insert(rng.choice([1, 1, 1, 0, 2]), ("C", *rng.choice([(one, one), (one, one), (one, zero), (zero, one)])))
        n = sum(sum(c) + sum(a) for _, c, a in ops)
        lo, hi = rng.choice([(0, 0), (0, 2), (1, 1), (2, 2)])
        wt.do_canonicalize_graph(n <= 12)
    else:
        k = rng.choice([5, 6])
        occ = rng.random() < 0.5
        spaces = [fock.Space(rng.choice(gen.LETTERS), "fermion", "occupied" if occ else "unoccupied", k)]
        many, none = (k,), (0,)
        ops = [("A", many, none), ("B", none, many)] if occ else [("A", none, many), ("B", many, none)]
        if rng.random() < 0.5:
            # split one of the two
            j = rng.randrange(2)
            lab, c, a = ops[j]
            m = rng.randint(1, k - 1)
            ops[j:j + 1] = [(lab, (min(c[0], m),), (min(a[0], m),)), (lab, (max(c[0] - m, 0),), (max(a[0] - m, 0),))]
        lo, hi = rng.choice([(0, 0), (0, 4), (0, 6), (2, 6), (6, 12)])
    f = gen.rand_factor(rng)
    gen.add_spaces(ctx.w, spaces)
    ctx.log("%s, factor %s, contract(%d, %d), spaces %s" % (gen.show_product(spaces, ops), f, lo, hi, [(s.label, s.stype, s.n) for s in spaces]))
    r = wt.contract(ctx.w.rational(*f), gen.make_product(ctx.w, spaces, ops), lo, hi)
    ts, nz = wickcheck.check_reference(ctx, spaces, [(Fraction(1), ops)], r, Fraction(*f), lo, hi, rng, "large product")
    ctx.count("large_" + mode)
    ctx.count("large_%s_nonzero" % mode, int(nz and bool(ts)))
    ctx.top("factors", len(ops))
    ctx.top("operators_in_a_product", sum(sum(c) + sum(a) for _, c, a in ops))
    return Result(("large", lo, hi, [(s.label, s.stype) for s in spaces], ops), nz and bool(ts))


def many_terms(ctx, rng, wt):
    """products with tens to hundreds of contractions over few orbitals"""
    st = rng.choice([("occupied", "unoccupied")] * 4 + [("unoccupied", "occupied"), ("occupied",), ("unoccupied",),
                    ("occupied", "unoccupied", "unoccupied"), ("occupied", "occupied", "unoccupied")])
    n = rng.choice([4, 5, 6, 6, 7, 8])
    k = len(st)
    # more orbitals let more of the terms with few contractions contribute
    n_orb, most = rng.choice([(2, 14), (3, 12), (3, 12), (4, 10), (4, 10)]) if k == 2 else (4, 10) if k == 1 else (2, 12)
    spaces = [fock.Space(l, "fermion", t, n_orb) for l, t in zip(rng.sample(gen.LETTERS, k), st)]
    labels = rng.choice(["A", "AB", "ABC", "ABCDEFGH"])
    ops, tot = [], 0
    for _ in range(n):
        c, a = [0] * k, [0] * k
        for _ in range(rng.choice([1, 1, 1, 1, 2])):
            for side in (c, a):
                j = rng.randrange(k)
                side[j] = min(side[j] + 1, 2)
        if tot + sum(c) + sum(a) > most:
            continue
        tot += sum(c) + sum(a)
        ops.append((rng.choice(labels), tuple(c), tuple(a)))
    wt.do_canonicalize_graph(len(ops) < 5 and rng.random() < 0.7)
    f = gen.rand_factor(rng)
    gen.add_spaces(ctx.w, spaces)
    lo, hi = rng.choice([(0, tot), (0, tot), (0, tot + 3), (2, tot), (0, tot - 2)])
    ctx.log("%s, factor %s, contract(%d, %d), spaces %s" % (gen.show_product(spaces, ops), f, lo, hi, [(s.label, s.stype, s.n) for s in spaces]))
    r = wt.contract(ctx.w.rational(*f), gen.make_product(ctx.w, spaces, ops), lo, hi)
    if (lo, hi) in ((2, tot), (0, tot - 2)):
        # the rest of the ranks
        r = r + wt.contract(ctx.w.rational(*f), gen.make_product(ctx.w, spaces, ops), *((0, 1) if lo else (tot - 1, tot)))
    ts, nz = wickcheck.check_full(ctx, spaces, [(Fraction(1), ops)], r, Fraction(*f), rng, "product with many contractions")
    ctx.count("many_contractions", int(len(ts) > 50))
    ctx.top("terms", len(ts))
    return Result(("many", lo, hi, st, ops), nz and len(ts) > 5)


SHAPES = [
    # classic high-multiplicity shapes, as counts over (o, v): (cre_o, cre_v, ann_o, ann_v)
    [("V", (3, 0), (0, 3)), ("T", (0, 3), (3, 0))],
    [("V", (2, 0), (0, 2)), ("T", (0, 1), (1, 0)), ("T", (0, 1), (1, 0))],
    [("V", (2, 0), (0, 2)), ("T", (0, 2), (2, 0)), ("T", (0, 2), (2, 0))],
    [("V", (2, 0), (0, 2)), ("T", (0, 1), (1, 0)), ("T", (0, 1), (1, 0)), ("T", (0, 1), (1, 0))],
    [("V", (2, 0), (0, 2)), ("T", (0, 1), (1, 0)), ("T", (0, 1), (1, 0)), ("T", (0, 1), (1, 0)), ("T", (0, 1), (1, 0))],
    [("F", (1, 0), (0, 1)), ("T", (0, 1), (1, 0)), ("F", (1, 0), (0, 1)), ("T", (0, 1), (1, 0))],
    [("F", (1, 0), (0, 1)), ("F", (1, 0), (0, 1)), ("T", (0, 1), (1, 0)), ("T", (0, 1), (1, 0))],
    [("L", (2, 0), (0, 2)), ("V", (1, 1), (1, 1)), ("T", (0, 2), (2, 0))],
    [("L", (2, 0), (0, 2)), ("V", (2, 0), (2, 0)), ("T", (0, 2), (2, 0))],
    [("L", (2, 0), (0, 2)), ("V", (0, 2), (0, 2)), ("T", (0, 2), (2, 0))],
    [("A", (3, 0), (0, 2)), ("B", (0, 2), (3, 0))],
    [("A", (0, 0), (1, 3)), ("B", (1, 3), (0, 0))],
    [("A", (4, 0), (0, 0)), ("B", (0, 0), (4, 0))],
    [("A", (0, 0), (0, 4)), ("B", (0, 4), (0, 0))],
    [("A", (2, 0), (0, 2)), ("B", (0, 1), (1, 0)), ("A", (1, 0), (0, 1)), ("B", (0, 2), (2, 0))],
    [("V", (3, 0), (0, 3)), ("T", (0, 2), (2, 0)), ("T", (0, 1), (1, 0))],
    [("V", (3, 0), (0, 3)), ("T", (0, 1), (1, 0)), ("T", (0, 1), (1, 0)), ("T", (0, 1), (1, 0))],
    [("A", (0, 1), (0, 0)), ("B", (0, 0), (0, 1)), ("A", (0, 1), (0, 0)), ("B", (0, 0), (0, 1))],
    [("A", (0, 0), (0, 1)), ("A", (0, 1), (0, 0)), ("B", (0, 0), (0, 1)), ("B", (0, 1), (0, 0))],
]


def chemistry(ctx, rng, wt):
    swap = rng.random() < 0.3
    n = 4 if rng.random() < 0.6 else 3
    o, v = fock.Space("o", "fermion", "occupied", n), fock.Space("v", "fermion", "unoccupied", n)
    spaces = [v, o] if swap else [o, v]
    gen.add_spaces(ctx.w, spaces)
    ops = [(l, c[::-1] if swap else c, a[::-1] if swap else a) for l, c, a in rng.choice(SHAPES)]
    f = gen.rand_factor(rng)
    E = gen.make_product(ctx.w, spaces, ops)
    ctx.log(gen.show_product(spaces, ops) + " factor %s, n=%d" % (f, n))
    opx = [(Fraction(1), ops)]
    tot = sum(sum(c) + sum(a) for _, c, a in ops)
    lo = rng.choice([0, 0, 2, 4])
    hi = lo + rng.choice([0, 2])
    if lo > tot:
        lo = hi = 0
    r = wt.contract(ctx.w.rational(*f), E, lo, hi)
    ts, nz = wickcheck.check_reference(ctx, spaces, opx, r, Fraction(*f), lo, hi, rng, "structured product")
    if tot <= 8:
        r = wt.contract(ctx.w.rational(*f), E, 0, tot)
        ts, nz2 = wickcheck.check_full(ctx, spaces, opx, r, Fraction(*f), rng, "structured product")
        nz = nz or nz2
    return Result(("shape", ops, lo, hi, n, swap, f), nz)
