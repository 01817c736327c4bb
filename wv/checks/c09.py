"""Expressions form an algebra over the rationals."""
import math
from fractions import Fraction

from wv import sem, texpr
from wv.core import Result

VARIANTS = ["plain"]
CASES = {"quick": 12000, "thorough": 250000}
MIN_NONTRIVIAL = {"quick": 2000, "thorough": 30000}
RULE = ("random programs of 10-30 operations on a pool of expressions, run side by side with formal rational combinations in "
        "Python; after every operation the result and every object of the pool (and the operands) are compared; non-trivial "
        "when the program contained a product, an aliasing operation and a cancellation; distinct = distinct programs")
ASSUMPTIONS = ["coefficients below 250 bits, so that intermediate results fit in the integers"]


def flip(k):
    return (k[0], tuple((not c, s, p) for c, s, p in reversed(k[1])))


def run_case(ctx, rng, i):
    w = ctx.w
    spaces = texpr.rand_spaces(rng, kmax=3)
    texpr.register(w, spaces)
    pool = [texpr.rand_index(rng, spaces, 3) for _ in range(rng.randint(1, 4))]
    labels = texpr.rand_labels(rng, 2)
    big = rng.random() < 0.3
    long = rng.random() < 0.06        # sums of many terms
    nops = rng.choice([5, 8, 10]) if rng.random() < 0.08 else 3
    flagged = rng.random() < 0.1      # normal-ordered terms cannot be multiplied
    exprs, mods = [], []

    def rand_term():
        return texpr.rand_term(rng, spaces, ntens=(0, 2), nops=(0, nops), pool=pool, labels=labels,
                               flag=flagged and rng.random() < 0.5, big=big, syms=("anti", "symm", "none"))

    def read(e):
        ts = texpr.back(w, e)
        d = {}
        for t in ts:
            if t.coef == 0:
                ctx.fail("zero-term", "a term has a zero coefficient:\n" + str(e))
            if t.key() in d:
                ctx.fail("repeated-term", "a term occurs twice:\n" + str(e))
            d[t.key()] = t.coef
        if len(e) != len(d):
            ctx.fail("len", "len() is %d but there are %d terms" % (len(e), len(d)))
        return d

    def check(what, e, m):
        ctx.count("objects_compared")
        d = read(e)
        if d != m:
            k = sorted([k for k in set(d) | set(m) if d.get(k) != m.get(k)], key=repr)[0]
            ctx.fail(what.split()[0], "%s: the coefficient of %s is %s, expected %s" % (what, k, d.get(k), m.get(k)))

    def flags(e):
        """Which strings are marked as normal ordered (the empty string has no order)."""
        return {t.key(): bool(t.flag) for t in texpr.back(w, e) if t.ops}

    def same_flags(what, r, want):
        got = flags(r)
        for k, f in want.items():
            if k in got and got[k] != f:
                ctx.fail("order-mark", "%s: the string of %s is %smarked as normal ordered, unlike that of the operand" % (what, k, "" if got[k] else "not "))
        ctx.count("order_marks", len(want))

    def push(e, m):
        exprs.append(e)
        mods.append(m)
        if len(exprs) > 6:
            k = rng.randrange(len(exprs) - 1)
            del exprs[k], mods[k]

    def addm(a, b, s=1):
        d = dict(a)
        for k, c in b.items():
            d[k] = d.get(k, 0) + s * c
            if d[k] == 0:
                del d[k]
        return d

    def start():
        pts = [rand_term() for _ in range(rng.choice([10, 20, 40, 80]) if long and rng.random() < 0.5 else rng.randint(0, 4))]
        ctx.log("E%d = %s" % (len(exprs), " ; ".join(t.show(spaces) for t in pts)))
        e = texpr.expression(w, pts, rng)
        m = texpr.model(pts)
        check("construction", e, m)
        push(e, m)

    start()
    start()
    prod = alias = cancel = False
    for _ in range(rng.randint(8, 24)):
        op = rng.choice(["new", "add", "sub", "neg", "scale", "mul", "adj", "iadd", "iadd", "iaddsym", "iaddpair", "dot",
                         "eq", "cancel", "linear", "iterate", "drain"])
        a = rng.randrange(len(exprs))
        b = a if rng.random() < 0.3 else rng.randrange(len(exprs))
        A, B, ma, mb = exprs[a], exprs[b], mods[a], mods[b]
        alias |= a == b
        ctx.log("%s E%d E%d" % (op, a, b))
        if op == "new":
            start()
        elif op == "add":
            push(A + B, addm(ma, mb))
            fa, fb = flags(A), flags(B)
            same_flags("sum", exprs[-1], {**{k: f for k, f in fa.items() if k not in mb}, **{k: f for k, f in fb.items() if k not in ma}})
        elif op == "sub":
            push(A - B, addm(ma, mb, -1))
            fa, fb = flags(A), flags(B)
            same_flags("difference", exprs[-1], {**{k: f for k, f in fa.items() if k not in mb}, **{k: f for k, f in fb.items() if k not in ma}})
        elif op == "neg":
            push(-A, {k: -c for k, c in ma.items()})
            same_flags("negative", exprs[-1], flags(A))
        elif op == "scale":
            f = rng.choice([Fraction(0), texpr.rand_coef(rng), texpr.rand_coef(rng, big)])
            if any(abs((c * f).numerator).bit_length() > 400 or (c * f).denominator.bit_length() > 250 for c in ma.values()):
                continue
            ctx.log("by %s" % f)
            push(A * texpr.rat(w, f), {k: c * f for k, c in ma.items()} if f else {})
            same_flags("multiple", exprs[-1], flags(A))
        elif op == "mul":
            if len(ma) * len(mb) > 60 or any(x.bit_length() > 60 for m in (ma, mb) for c in m.values()
                                             for x in (c.numerator, c.denominator)):
                continue
            if any(len(k[0]) + len(k[1]) > 12 for m in (ma, mb) for k in m):
                continue
            if flagged and ma and mb:
                # refused when either factor is normal ordered, without an effect on the factors
                try:
                    r = A @ B
                except RuntimeError:
                    ctx.count("refused_products")
                    check("operand after a refused product", A, ma)
                    check("operand after a refused product", B, mb)
                    continue
                if any(t.flag and len(t.ops) > 1 for X in (A, B) for t in texpr.back(w, X)):
                    ctx.fail("normal-ordered-product", "a product with a normal-ordered string is not refused, but taken as\n%s\nfactors\n%s\nand\n%s"
                             % (r, A, B))
                push(r, mulm(ma, mb))
                continue
            push(A @ B, mulm(ma, mb))
            prod = True
        elif op == "adj":
            r = A.adjoint()
            m = {}
            for k, c in ma.items():
                m[flip(k)] = c
            push(r, m)
            same_flags("adjoint", r, {flip(k): f for k, f in flags(A).items()})
            if not (r.adjoint() == A):
                ctx.fail("adjoint", "the adjoint of the adjoint is not the expression:\n%s\n%s" % (A, r.adjoint()))
        elif op in ("iadd", "iaddsym", "iaddpair"):
            t = rand_term()
            if rng.random() < 0.4 and ma:
                # hit an existing term, sometimes cancelling it
                t = rng.choice(texpr.back(w, A))
                t.coef = -t.coef if rng.random() < 0.6 else texpr.rand_coef(rng)
                t.tensors = [(l, lo, up, s) for l, lo, up, s in t.tensors]
            ctx.log(t.show(spaces))
            E = A
            if op == "iadd":
                E += texpr.term(w, t)
            elif op == "iaddsym":
                t.coef = Fraction(1)
                E += texpr.symterm(w, t)
            else:
                E += (texpr.symterm(w, t), texpr.rat(w, t.coef))
            if E is not A:
                exprs[a] = E
            mods[a] = addm(ma, {t.key(): t.coef})
            if t.ops and t.key() not in ma:
                same_flags("in-place sum", exprs[a], {t.key(): bool(t.flag)})
            cancel |= len(mods[a]) < len(ma)
        elif op == "dot":
            if sum(x.bit_length() for m in (ma, mb) for c in m.values() for x in (c.numerator, c.denominator)) > 900:
                continue
            d = sem.q(A.dot(B))
            want = sum((c * mb[k] for k, c in ma.items() if k in mb), Fraction(0))
            if d != want:
                ctx.fail("dot", "dot is %s, expected %s" % (d, want))
            n, wn = A.norm(), math.sqrt(float(sum((c * c for c in ma.values()), Fraction(0))))
            if not abs(n - wn) <= 1e-9 * max(1, wn):
                ctx.fail("norm", "norm is %r, expected %r" % (n, wn))
            ctx.count("scalars_compared", 2)
        elif op == "eq":
            for x, y, want in ((A, B, ma == mb), (B, A, ma == mb), (A, A, True), (A, A + w.Expression(), True)):
                if (x == y) is not want or (x != y) is not (not want):
                    ctx.fail("equality", "%s\n== is not %s for\n%s" % (x, want, y))
            ctx.count("equalities", 4)
        elif op == "cancel":
            r = (A + B) - B
            check("cancel A+B-B", r, ma)
            if not (r == A):
                ctx.fail("equality", "A+B-B is not equal to A\n%s\n%s" % (r, A))
            z = A - A
            if len(z) or not (z == w.Expression()) or str(z):
                ctx.fail("cancel", "A-A is not empty: %s" % z)
            cancel |= bool(ma)
        elif op == "iterate":
            # the terms handed out belong to the caller
            terms = list(A)
            texts = [str(t) for t, _ in terms]
            for t, _ in terms:
                if rng.random() < 0.5:
                    t.add(texpr.sqop(w, (True,) + tuple(pool[0])))
                else:
                    t.set([])
            check("expression after changing the terms it was iterated over", A, ma)
            if [str(t) for t, _ in A] != texts:
                ctx.fail("iteration", "iterating twice gives different terms:\n%s" % A)
        elif op == "drain":
            # removing the terms of a copy while iterating over it
            E = A + w.Expression()
            seen = {}
            for t, c in E:
                if rng.random() < 0.8:
                    E += (t, w.rational(0) - c)
                seen[str(t)] = seen.get(str(t), 0) + 1
            if len(seen) > len(ma) or sum(seen.values()) != len(ma):
                ctx.fail("iteration", "iterating while removing terms visits %s" % seen)
            if len(E) > len(ma):
                ctx.fail("iteration", "more terms after removing some")
        elif op == "linear":
            f = texpr.rand_coef(rng)
            r = (A + B) * texpr.rat(w, f)
            s = A * texpr.rat(w, f) + B * texpr.rat(w, f)
            if not (r == s) or str(r) != str(s):
                ctx.fail("linear", "f(A+B) is not fA+fB")
        for k, (e, m) in enumerate(zip(exprs, mods)):
            check("object E%d after %s" % (k, op), e, m)
        # stay within the integers
        for k in range(len(exprs) - 1, -1, -1):
            if any(x.bit_length() > 250 for c in mods[k].values() for x in (c.numerator, c.denominator)):
                del exprs[k], mods[k]
        if not exprs:
            start()
    ctx.top("terms", max(len(m) for m in mods))
    return Result((spaces, ctx.trace), prod and alias and cancel)


def mulm(a, b):
    d = {}
    for k1, c1 in a.items():
        for k2, c2 in b.items():
            k = (k1[0] + k2[0], k1[1] + k2[1])
            d[k] = d.get(k, 0) + c1 * c2
            if d[k] == 0:
                del d[k]
    return d
