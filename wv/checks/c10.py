"""Operator expressions form an algebra; commutator and BCH agree."""
from fractions import Fraction
from math import factorial

from wv import gen, sem, texpr
from wv.core import Result

VARIANTS = ["plain"]
CASES = {"quick": 12000, "thorough": 300000}
MIN_NONTRIVIAL = {"quick": 2000, "thorough": 30000}
RULE = ("random programs over a pool of operator expressions run side by side with formal combinations of operator products "
        "in Python (sums, differences, products, scaling, adjoint, in-place addition, commutators of 1-5 arguments, BCH series "
        "up to order 6, for single operators up to order 24, equality, copies), comparing every object after every operation; non-trivial when a commutator or BCH "
        "series of at least second order was compared and an operation aliased its operands; distinct = distinct programs")
ASSUMPTIONS = ["operator products are read from their printed form"]


def add(a, b, s=1):
    d = dict(a)
    for k, c in b.items():
        d[k] = d.get(k, 0) + s * c
        if d[k] == 0:
            del d[k]
    return d


def mul(a, b):
    d = {}
    for k1, c1 in a.items():
        for k2, c2 in b.items():
            d[k1 + k2] = d.get(k1 + k2, 0) + c1 * c2
    return {k: c for k, c in d.items() if c}


def scal(a, f):
    return {k: c * f for k, c in a.items()} if f else {}


def com(a, b):
    return add(mul(a, b), mul(b, a), -1)


def adj(a):
    d = {}
    for k, c in a.items():
        k2 = tuple((l, an, cr) for l, cr, an in reversed(k))
        d[k2] = d.get(k2, 0) + c
    return d


def pref(cre, ann):
    p = Fraction(1)
    for n in cre + ann:
        p /= factorial(n)
    return p


def run_case(ctx, rng, i):
    w = ctx.w
    spaces = texpr.rand_spaces(rng, kmax=rng.choice([2, 3, 4]))
    texpr.register(w, spaces)
    labels = [s.label for s in spaces]
    names = rng.sample(["T", "V", "F", "X2", "Lam", "h_1"], 3)
    E, M = [], []

    def read(e):
        d = {}
        for c, prod in sem.opexpr(w, e, labels):
            for l, cr, an, p in prod:
                if p != pref(cr, an):
                    ctx.fail("prefactor", "operator %s %s %s is printed with the prefactor %s" % (l, cr, an, p))
            k = tuple(x[:3] for x in prod)
            if k in d or c == 0:
                ctx.fail("repeated-term", "a repeated or zero product:\n" + str(e))
            d[k] = c
        if e.size() != len(d):
            ctx.fail("size", "size() is %d but there are %d products" % (e.size(), len(d)))
        return d

    def check(what, e, m):
        ctx.count("objects_compared")
        d = read(e)
        if d != m:
            k = sorted([k for k in set(d) | set(m) if d.get(k) != m.get(k)], key=repr)[0]
            ctx.fail(what.split()[0], "%s: the coefficient of %s is %s, expected %s" % (what, k, d.get(k), m.get(k)))

    def push(e, m):
        if len(m) > 400 or any(x.bit_length() > 200 for c in m.values() for x in (c.numerator, c.denominator)):
            check("result", e, m)
            return
        E.append(e)
        M.append(m)
        if len(E) > 6:
            k = rng.randrange(len(E) - 1)
            del E[k], M[k]

    def start():
        comps, m = [], {}
        lab = rng.choice(names)
        for _ in range(rng.randint(1, 3)):
            cr, an = gen.rand_counts(rng, [texpr.Sp(s.label, "", "", [], 9) for s in spaces],
                                     rng.randint(0, 3), rng.randint(0, 3))
            comps.append(gen.component(spaces, cr, an))
            k = ((lab, cr, an),)
            m[k] = m.get(k, 0) + 1
        ctx.log("E%d = op(%s, %s)" % (len(E), lab, comps))
        push(w.op(lab, comps), m)

    start()
    start()
    deep = alias = False
    for _ in range(rng.randint(5, 14)):
        op = rng.choice(["new", "add", "sub", "scale", "mul", "adj", "add2", "com", "bch", "bch", "eq", "copy", "jacobi"])
        a, b = rng.randrange(len(E)), rng.randrange(len(E))
        if rng.random() < 0.25:
            b = a
        A, B, ma, mb = E[a], E[b], M[a], M[b]
        ctx.log("%s E%d E%d" % (op, a, b))
        small = len(ma) * len(mb) <= 40 and all(len(k) <= 6 for m in (ma, mb) for k in m)
        if op == "new":
            start()
        elif op == "add":
            push(A + B, add(ma, mb))
            alias |= a == b
        elif op == "sub":
            push(A - B, add(ma, mb, -1))
            alias |= a == b
        elif op == "scale":
            f = rng.choice([Fraction(0), Fraction(-1), texpr.rand_coef(rng), Fraction(7, 3)])
            ctx.log("by %s" % f)
            push(texpr.rat(w, f) * A, scal(ma, f))
        elif op == "mul" and small:
            push(A @ B, mul(ma, mb))
            alias |= a == b
        elif op == "adj":
            r = A.adjoint()
            push(r, adj(ma))
            if not (r.adjoint() == A):
                ctx.fail("adjoint", "adjoint of the adjoint differs:\n%s\n%s" % (A, r.adjoint()))
        elif op == "add2":
            f = rng.choice([Fraction(-1), Fraction(1), texpr.rand_coef(rng), Fraction(0)])
            ctx.log("by %s" % f)
            A.add2(B, texpr.rat(w, f))
            M[a] = add(ma, scal(mb, f))
            alias |= a == b
        elif op == "com":
            args = [rng.randrange(len(E)) for _ in range(rng.randint(1, 5))]
            n = 1
            for k in args:
                n *= 2 * max(len(M[k]), 1)
            if n > 400 or sum(max([len(x) for x in M[k]] or [0]) for k in args) > 8:
                continue
            ctx.log("commutator%s" % args)
            r = w.commutator(*[E[k] for k in args])
            m = M[args[0]]
            for k in args[1:]:
                m = com(m, M[k])
            push(r, m)
            deep |= len(args) > 2 and bool(m)
            ctx.count("commutators_compared")
        elif op == "bch":
            n = rng.choice([0, 1, 2, 2, 3, 4, 5, 6])
            single = len(ma) == len(mb) == 1
            if single and rng.random() < 0.2 and all(len(k) == 1 for k in [*ma, *mb]):
                n = rng.randint(7, 24)
            size, L = len(ma), max([len(k) for k in ma] or [0])
            while n > 0 and not single and (size * (2 * max(len(mb), 1)) ** n > 3000):
                n -= 1
            ctx.log("order %d" % n)
            r = w.bch_series(A, B, n)
            m, t = dict(ma), dict(ma)
            for k in range(1, n + 1):
                t = com(t, mb)
                m = add(m, scal(t, Fraction(1, factorial(k))))
            check("bch_series of order %d" % n, r, m)
            if len(m) < 60 and all(len(k) <= 4 for k in m):
                push(r, m)
            deep |= n >= 2 and len(m) > len(ma)
            ctx.count("bch_order_%d" % n)
        elif op == "eq":
            for x, y, want in ((A, B, ma == mb), (B, A, ma == mb), (A, A, True)):
                if (x == y) is not want or (x != y) is want:
                    ctx.fail("equality", "%s\n== is not %s for\n%s" % (x, want, y))
            if not ((A + B) - B == A):
                ctx.fail("equality", "A+B-B is not A")
            z = A - A
            if z.size() or str(z) or not (z == w.OperatorExpression()):
                ctx.fail("sub", "A-A is not empty")
        elif op == "copy":
            c = w.OperatorExpression(A)
            c.add2(B, w.rational(2))
            check("copy", A, ma)
            push(c, add(ma, scal(mb, 2)))
        elif op == "jacobi" and small and len(ma) * len(mb) <= 6:
            c = rng.randrange(len(E))
            C = E[c]
            if len(M[c]) > 3 or max([len(k) for k in M[c]] or [0]) > 3:
                continue
            j = w.commutator(A, B, C) + w.commutator(B, C, A) + w.commutator(C, A, B)
            if j.size():
                ctx.fail("jacobi", "the Jacobi identity fails: %s" % j)
            ctx.count("jacobi_identities")
        for k, (e, m) in enumerate(zip(E, M)):
            check("object E%d after %s" % (k, op), e, m)
    return Result((labels, ctx.trace), deep and alias)
