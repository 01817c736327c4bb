"""Wick's theorem is exact for correlated references (general spaces, cumulants of any rank)."""
from fractions import Fraction
from math import factorial

from wv import diagrams, fock, gen, sem, wickcheck
from wv.core import Result

VARIANTS = ["plain"]
CASES = {"quick": 5000, "thorough": 100000}
MIN_NONTRIVIAL = {"quick": 800, "thorough": 10000}
RULE = ("random products and sums of normal-ordered operators over 1-4 fermionic spaces at least one of which is general, "
        "contracted and compared with the operator product in a Fock space whose general spaces carry a random correlated "
        "density matrix; gamma1, eta1 and lambda_k are computed from the moments of that matrix; products of up to 12 factors and 14 legs per operator are compared with the weights and "
        "signs of all their diagrams, enumerated by counting legs; a case is non-trivial when "
        "the result contains a cumulant or density tensor and the product does not vanish; distinct = distinct products")
ASSUMPTIONS = ["fermionic spaces of at most 4 orbitals, number-conserving reference density matrix per general space",
               "equality is tested modulo 1048573 on a random vector (full window) or as a trace (window 0..0)"]
PUBLIC = ("gamma1", "eta1")


def run_case(ctx, rng, i):
    w = ctx.w
    wt = w.WickTheorem()
    wt.set_single_threaded(rng.random() < 0.5)
    if rng.random() < 0.2:
        wt.do_canonicalize_graph(False)
    if i % 41 == 1:
        return ladder(ctx, rng, wt)
    if rng.random() < 0.3:
        spaces = gen.general_spaces(rng, 0.2)
        gen.add_spaces(w, spaces)
        d = diagrams.case(ctx, rng, spaces, True)
        return Result(("diagrams", *d[0]), d[1]) if d else Result("small", False)
    spaces = gen.general_spaces(rng)
    longer = i % 29 == 2
    structured = rng.random() < 0.35
    scalar = rng.random() < 0.4
    high = i % 61 == 0
    if high:
        structured = scalar = True
    if structured:
        spaces = [fock.Space("a", "fermion", "general", rng.choice([3, 4]))]
        if rng.random() < 0.4:
            spaces = [fock.Space("o", "fermion", "occupied", 2), fock.Space("a", "fermion", "general", 3),
                      fock.Space("v", "fermion", "unoccupied", 2)]
    if high:
        spaces = [fock.Space("a", "fermion", "general", 5)]
    if longer:
        # many factors of few operators
        structured = high = False
        scalar = rng.random() < 0.8
        spaces = rng.choice([[fock.Space("a", "fermion", "general", 3)],
                             [fock.Space("p", "fermion", "general", 2), fock.Space("a", "fermion", "general", 2)],
                             [fock.Space("v", "fermion", "unoccupied", 2), fock.Space("a", "fermion", "general", 2), fock.Space("o", "fermion", "occupied", 2)]])
        nfac = rng.choice([6, 6, 7, 8] if scalar else [6])
        wt.do_canonicalize_graph(False)
        ctx.count("long_products")
    gen.add_spaces(w, spaces)
    E, opx = None, []
    for _ in range(1 if high or longer else rng.choice([1, 1, 2])):
        if longer:
            ops = gen.long_product(rng, spaces, nfac, nfac if scalar and nfac > 6 or not scalar else 8)
        elif high:
            lab = rng.choice([["A", "B", "C"], ["C", "B", "A"], ["T", "T", "T"]])
            ops = [(lab[k], (x,), (y,)) for k, (x, y) in enumerate(rng.choice(HIGH))]
        elif structured:
            ops = structured_product(rng, spaces, scalar)
        else:
            total = rng.choice([4, 6, 6, 8]) if not scalar else rng.choice([6, 8])
            ops = []
            while not ops:
                ops = gen.rand_product(rng, spaces, total, nmax=4)
        f = gen.rand_factor(rng)
        e = gen.make_product(w, spaces, ops)
        if f != (1, 1):
            e = gen.scale(w, e, *f)
        E = e if E is None else E + e
        opx.append((Fraction(*f), ops))
        ctx.log("%d/%d * %s" % (f[0], f[1], gen.show_product(spaces, ops)))
    tot = max(sum(sum(c) + sum(a) for _, c, a in p) for _, p in opx)
    sp = [(s.label, s.stype, s.n) for s in spaces]
    if scalar:
        ctx.log("contract(0, 0) spaces %s" % sp)
        r = wt.contract(E, 0, 0)
        ts, nz = wickcheck.check_scalar_general(ctx, spaces, opx, r, Fraction(1), rng, "expectation value")
    else:
        ctx.log("contract(0, %d) spaces %s" % (tot, sp))
        r = wt.contract(E, 0, tot)
        ts, nz = wickcheck.check_full(ctx, spaces, opx, r, Fraction(1), rng, "full contraction")
    ranks = [int(t.label[6:]) for x in ts for t in x.tensors if t.label.startswith("lambda") and t.label[6:].isdigit()]
    for k in ranks:
        ctx.count("lambda%d" % k)
    dens = bool(ranks) or any(t.label in PUBLIC for x in ts for t in x.tensors)
    ctx.top("terms", len(ts))
    if longer:
        ctx.count("long_products_nonzero", int(nz and dens))
    return Result((scalar, sp, opx), nz and dens,
                  "\n".join(ctx.trace) + "\n-> %d terms, %d cumulants, equal" % (len(ts), len(ranks)))


HIGH = [[(5, 0), (0, 5)], [(0, 5), (5, 0)], [(4, 1), (1, 4)], [(1, 4), (4, 1)], [(4, 0), (0, 4)], [(0, 4), (4, 0)],
        [(5, 0), (0, 4), (0, 1)], [(4, 0), (1, 0), (0, 5)], [(3, 0), (2, 0), (0, 5)], [(5, 0), (0, 3), (0, 2)], [(4, 0), (1, 1), (0, 4)],
        [(3, 1), (1, 3)], [(4, 0), (0, 2), (0, 2)], [(0, 3), (2, 0), (1, 0)]]


def parity(p):
    return (-1) ** sum(p[i] > p[j] for i in range(len(p)) for j in range(i + 1, len(p)))


def partitions(n, m):
    if n == 0:
        return [()]
    return [(k,) + r for k in range(min(n, m), 0, -1) for r in partitions(n - k, k)]


def ladder(ctx, rng, wt):
    """< A{a+^k} B{a^k} > and < A{a^k} B{a+^k} > for large k: one term per integer partition, whose coefficient follows
    from counting and whose sign is that of the matching of the legs"""
    w = ctx.w
    k = rng.choice([1, 2, 3, 4, 5, 6, 6, 7]) if ctx.tier == "quick" else rng.randint(1, 7)
    hole = rng.random() < 0.5
    lab = rng.sample(gen.LETTERS, 1)[0]
    gen.add_spaces(w, [fock.Space(lab, "fermion", "general", k)])
    na, nb = rng.choice([("A", "B"), ("B", "A")])
    c = [" ".join([lab + "+"] * k), " ".join([lab] * k)]
    if hole:
        c.reverse()
    ctx.log("contract(%s{%s} @ %s{%s}, 0, 0)" % (na, c[0], nb, c[1]))
    ts = sem.terms(w, wt.contract(w.op(na, [c[0]]) @ w.op(nb, [c[1]]), 0, 0))
    ctx.count("ladders")
    got = {}
    for t in ts:
        d = {x.label: x for x in t.tensors if x.label in ("A", "B")}
        lam = [x for x in t.tensors if x.label not in ("A", "B")]
        sizes = tuple(sorted((len(x.up) for x in lam), reverse=True))
        if t.ops or len(d) != 2 or sum(sizes) != k or sizes in got or any(len(x.up) != len(x.lo) for x in lam):
            ctx.fail("ladder-shape", "unexpected or repeated term in\n" + sem.show(ts, [lab]))
        for x in lam:
            n = len(x.up)
            if x.label != ("lambda%d" % n if n > 1 else "eta1" if hole else "gamma1"):
                ctx.fail("ladder-shape", "unexpected tensor %s in\n%s" % (x.label, sem.show(ts, [lab])))
        got[sizes] = t.coef
        L, R = (d[na], d[nb]) if not hole else (d[nb], d[na])
        # creators are on L.lo and annihilators on R.up; tensors: upper = creators, lower = annihilators
        cre, ann = list(L.lo), list(R.up)
        pairs = {}
        for x in lam:
            pairs.update(zip(x.up, x.lo))
        if sorted(pairs) != sorted(cre) or sorted(pairs.values()) != sorted(ann):
            ctx.fail("ladder-shape", "indices do not match in\n" + sem.show(ts, [lab]))
        sg = parity([ann.index(pairs[x]) for x in cre])
        # each cumulant of n > 1 legs of the hole ladder comes with the sign (-1)^n of exchanging creators and annihilators
        if hole:
            for x in lam:
                n = len(x.up)
                sg *= (-1) ** (n * n) if n > 1 else 1
        f = Fraction(1)
        for n in set(sizes):
            m = sizes.count(n)
            f /= (factorial(n) ** 2) ** m * factorial(m)
        # order of the legs: A^{}_{1..k} {1+..k+}, B^{1..k} {k..1}
        if t.coef != sg * f:
            ctx.fail("ladder-coefficient", "a term has coefficient %s, %s is expected\n%s" % (t.coef, sg * f, sem.show([t], [lab])))
    if set(got) != set(partitions(k, k)):
        ctx.fail("ladder-terms", "partitions found: %s\n%s" % (sorted(got), sem.show(ts, [lab])))
    ctx.top("cumulant", k)
    return Result(("ladder", k, hole, na, lab), True, "\n".join(ctx.trace))


def structured_product(rng, spaces, scalar):
    """operators mostly inside the general space: high cumulants and many equal tensors"""
    g = [k for k, s in enumerate(spaces) if s.stype == "general"][0]
    z = [0] * len(spaces)

    def op(nc, na):
        c, a = list(z), list(z)
        c[g], a[g] = nc, na
        if len(spaces) > 1 and rng.random() < 0.3:
            # move one leg to the occupied/unoccupied space
            if nc and rng.random() < 0.5:
                c[g] -= 1
                c[rng.choice([0, 2])] += 1
            elif na:
                a[g] -= 1
                a[rng.choice([0, 2])] += 1
        return tuple(c), tuple(a)

    shapes = [[(1, 1), (1, 1)], [(2, 2), (1, 1)], [(2, 2), (2, 2)], [(1, 1)] * 3, [(3, 3), (1, 1)],
              [(1, 1), (2, 2), (1, 1)], [(1, 0), (0, 1), (1, 1)], [(2, 1), (1, 2)], [(2, 0), (0, 2), (1, 1)],
              [(1, 1)] * 4, [(2, 0), (1, 1), (0, 2)], [(0, 2), (2, 0)], [(0, 3), (3, 0)], [(3, 0), (0, 3)], [(1, 0), (1, 0), (0, 2)]]
    sh = rng.choice(shapes)
    if not scalar and sum(map(sum, sh)) > 6 and spaces[g].n > 3:
        sh = rng.choice(shapes[:1] + shapes[3:4])
    lab = rng.choice([["T"] * 4, ["F", "T", "V", "T"], ["A", "B", "A", "B"]])
    return [(lab[k], *op(*s)) for k, s in enumerate(sh)]
