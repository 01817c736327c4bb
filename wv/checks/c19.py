"""Both integer configurations agree within their range; 1024-bit integers stay exact."""
import itertools
import json
import math
import os
from fractions import Fraction

from wv import gen, sem, texpr
from wv.core import Result

VARIANTS = ["noboost", "plain"]
COMPARES_VARIANTS = True
CASES = {"quick": 5000, "thorough": 120000}
MIN_NONTRIVIAL = {"quick": 3000, "thorough": 60000}
RULE = ("the same random program (builders, sums, products, contractions, many-body equations, code, LaTeX, parsing, normal "
        "ordering, canonicalization) runs in the two builds and every text they return is compared, step by step; in the "
        "1024-bit build operators with up to 40 equivalent legs, factors of up to 200 digits and long products are checked against exact "
        "formulas; non-trivial when at least 6 texts were compared, or a coefficient beyond 64 bits was checked; distinct = "
        "distinct programs")
ASSUMPTIONS = ["programs for the comparison keep every number, and the products formed on the way, within 62 bits"]
_first = {}


def environment(variant, tmp, w):
    return {"WV_TEXTS": os.path.join(tmp, "texts-%s" % variant)}


def setup(ctx):
    ctx.texts = open(os.environ["WV_TEXTS"] + "-%d-%d" % (ctx.worker, os.getpid()), "a", buffering=1)


def after(variant, tmp, stats):
    """compare the texts of the two builds"""
    got = {}
    for f in sorted(os.listdir(tmp)):
        if f.startswith("texts-%s-" % variant):
            for line in open(os.path.join(tmp, f)):
                try:
                    d = json.loads(line)
                except ValueError:
                    continue
                got[d["i"]] = d["t"]
    if variant == VARIANTS[0]:
        _first.clear()
        _first.update(got)
        return []
    out, n, m = [], 0, 0
    for i, t in sorted(got.items()):
        if i not in _first:
            continue
        n += 1
        m += len(t)
        u = _first[i]
        if t != u:
            k = next((k for k in range(min(len(t), len(u))) if t[k] != u[k]), min(len(t), len(u)))
            a, b = (x[k] if k < len(x) else ["-", "-"] for x in (u, t))
            out.append(("configurations", i, "step %d (%s): 64-bit integers give\n%s\n1024-bit integers give\n%s"
                        % (k, a[0], a[1][:3000], b[1][:3000])))
    stats["programs_compared"] = n
    stats["texts_compared"] = m
    return out


def run_case(ctx, rng, i):
    if i % 5 == 4:
        if ctx.variant == "plain":
            return big(ctx, rng)
        return Result(("-", i), False)
    w = ctx.w
    texts = []

    def rec(what, fn):
        try:
            t = fn()
            t = t if isinstance(t, str) else repr(t)
        except (RuntimeError, ValueError, IndexError, KeyError) as e:
            t = "%s: %s" % (type(e).__name__, e)
        texts.append([what, t])
        ctx.log(what)
        return t
    kind = rng.choice(["wick", "wick", "expr", "expr", "rational", "builders"])
    {"wick": wick, "expr": expr, "rational": rationals, "builders": builders}[kind](ctx, rng, w, rec)
    ctx.texts.write(json.dumps({"i": i, "t": texts}) + "\n")
    return Result((kind, texts), len(texts) >= 6 and ctx.variant == "plain")


def small_coef(rng):
    return Fraction(rng.choice([-1, 1]) * rng.randint(1, 12), rng.randint(1, 12))


def pipeline(w, rng, rec, e):
    rec("result", lambda: str(e))
    rec("latex", lambda: e.latex())
    rec("adjoint", lambda: str(e.adjoint()))
    eqs = e.to_manybody_equation("H")
    rec("keys", lambda: str(sorted((k, len(v)) for k, v in eqs.items())))
    for k, lst in sorted(eqs.items()):
        for q in lst[:3]:
            rec("equation", lambda: str(q))
            rec("ambit", lambda: q.compile("ambit"))
            rec("einsum", lambda: q.compile("einsum"))
            rec("compile_einsum", lambda: w.compile_einsum(q))
            rec("factor", lambda: "%r %s %s %r" % (q.rhs_factor(), q.rhs_factor().numerator(), q.rhs_factor().denominator(),
                                                  float(q.rhs_factor())))
    rec("norm", lambda: "%.14g" % e.norm())
    rec("dot", lambda: repr(e.dot(e)))
    rec("read back", lambda: str(w.string_to_expr(str(e)) == e))


def wick(ctx, rng, w, rec):
    general = rng.random() < 0.4
    fs = gen.general_spaces(rng) if general else gen.sd_spaces(rng)
    gen.add_spaces(w, fs)
    ops = gen.rand_product(rng, fs, 6 if general else 8, nmax=3)
    P = gen.make_product(w, fs, ops)
    rec("product", lambda: str(P))
    f = small_coef(rng)
    if rng.random() < 0.3:
        P = w.rational(f.numerator, f.denominator) * P
        rec("scaled", lambda: str(P))
    if rng.random() < 0.3:
        Q = gen.make_product(w, fs, gen.rand_product(rng, fs, 2, nmax=1))
        P = w.commutator(P, Q)
        rec("commutator", lambda: str(P))
    wt = w.WickTheorem()
    if rng.random() < 0.2:
        wt.set_max_cumulant(rng.randint(1, 3))
    e = wt.contract(texpr.rat(w, small_coef(rng)), P, 0, rng.choice([0, 2, 4, 8]))
    if len(e) > 40:
        rec("result", lambda: str(e))
        return
    pipeline(w, rng, rec, e)


def expr(ctx, rng, w, rec):
    spaces = texpr.rand_spaces(rng)
    texpr.register(w, spaces)
    pool = [texpr.rand_index(rng, spaces, 3) for _ in range(rng.randint(2, 5))]
    pts = [texpr.rand_term(rng, spaces, ntens=(0, 2), nops=(0, 4), pool=pool) for _ in range(rng.choice([1, 2, 4]))]
    for t in pts:
        t.coef = small_coef(rng)
    e = texpr.expression(w, pts, rng)
    pipeline(w, rng, rec, e)
    rec("product", lambda: str(e @ e))
    rec("sum", lambda: str(e + e - e * w.rational(3, 7)))
    v = rec("normal order", lambda: str(e.vacuum_normal_ordered()))
    rec("normal order 2", lambda: str(e.vacuum_normal_ordered(True)))
    rec("ordered", lambda: str(e.is_vacuum_normal_ordered()))
    rec("canonical", lambda: str(e.canonicalize()))


def rationals(ctx, rng, w, rec):
    pool = [w.rational(rng.randint(-40, 40), rng.randint(1, 40)) for _ in range(3)]
    if rng.random() < 0.5:      # numbers whose products just fit
        g = rng.randint(1, 2 ** rng.randint(1, 31))
        pool += [w.make_rational("%d/%d" % (rng.randint(-2 ** 29, 2 ** 29) * rng.choice([1, 1, g]), rng.choice([g, g, rng.randint(1, 9) * g])))
                 for _ in range(2)]
    for _ in range(12):
        a, b = rng.choice(pool), rng.choice(pool)
        op = rng.choice("+-*/=t")
        (n, d), (m, f) = [(abs(r.numerator()), r.denominator()) for r in (a, b)]
        made = {"+": [n * f + m * d, d * f], "-": [n * f + m * d, d * f], "*": [n * m, d * f], "/": [n * f, d * m]}.get(op, [n, d, m, f])
        if max(made) >= 2 ** 62:
            continue
        if op == "t":
            for fn in (a.latex, a.str):
                rec("text", lambda: fn(True) + fn(False))
            rec("compile", lambda: a.compile("einsum"))
            rec("float", lambda: repr(float(a)))
        elif op == "=":
            rec("equal", lambda: str((a == b, a != b)))
        else:
            box = []

            def do():
                box.append({"+": lambda: a + b, "-": lambda: a - b, "*": lambda: a * b, "/": lambda: a / b}[op]())
                return repr(box[0])
            rec(op, do)
            pool += box
    for s in rng.sample(["", "+", "-", "3", "-4/6", "0/7", "1/0", "/", "a", "1/2/3", " 5/15 ", "9223372036854775807",
                         "4611686018427387904/2", "-9223372036854775807", "1/9223372036854775807", "007", "+1/2x"], 6):
        rec("make_rational(%r)" % s, lambda: repr(w.make_rational(s)))


def builders(ctx, rng, w, rec):
    fs = gen.sd_spaces(rng)
    gen.add_spaces(w, fs)
    E = None
    for _ in range(rng.randint(1, 3)):
        cre, ann = gen.rand_operator(rng, fs, 8)
        o = w.op(rng.choice("TVX"), [gen.component(fs, cre, ann)])
        rec("op", lambda: str(o))
        E = o if E is None else (E + o if rng.random() < 0.5 else E @ o)
    rec("sum", lambda: str(E))
    rec("adjoint", lambda: str(E.adjoint()))
    X = w.op("Y", [gen.component(fs, *gen.rand_operator(rng, fs, 4))])
    if E.size() < 4:
        n = rng.randint(0, 4)
        rec("bch", lambda: str(w.bch_series(E, X, n)))
    rec("canonical", lambda: str(E.canonicalize() or E))
    labs = "".join(s.label for s in fs)
    rec("gen_op", lambda: str(w.gen_op("T", 2, labs[:2], labs[-2:])))
    rec("partitions", lambda: str(w.integer_partitions(rng.randint(1, 9), rng.randint(1, 9))))


# ---------------------------------------------------------------- beyond 64 bits
def big(ctx, rng):
    w = ctx.w
    r = rng.random()
    if r < 0.5:
        return legs(ctx, rng, w)
    if r < 0.75:
        return factors(ctx, rng, w)
    return series(ctx, rng, w)


def legs(ctx, rng, w):
    """two operators with many legs; few of them contracted: every coefficient is a product of 1/k!"""
    k = rng.randint(1, 3)
    spaces = [texpr.Sp(l, "fermion", rng.choice(["occupied", "unoccupied"]), []) for l in rng.sample(texpr.LETTERS, k)]
    texpr.register(w, spaces)
    top = rng.choice([12, 12, 12, 12, 26, 40])
    A = [[rng.randint(0, top) for _ in spaces] for _ in range(2)]     # creators, annihilators
    B = [[rng.randint(0, top) for _ in spaces] for _ in range(2)]
    comp = (lambda X: gen.component(spaces, X[0], X[1]))
    total = sum(map(sum, A + B))
    if sum(map(sum, A)) == 0 or sum(map(sum, B)) == 0:
        return Result("empty", False)
    if math.prod(math.factorial(n) for X in A + B for n in X).bit_length() > 400:
        return Result("large", False)
    ctx.log("%s\nA{%s} B{%s}" % (spaces, comp(A), comp(B)))
    P = w.op("A", [comp(A)]) @ w.op("B", [comp(B)])
    # what A can contract with B: occupied a+ a, unoccupied a a+
    pairs = [(s, 0 if x.stype == "occupied" else 1) for s, x in enumerate(spaces)]
    nc = rng.randint(0, 2)
    f = texpr.rand_coef(rng, True)
    e = w.WickTheorem().contract(texpr.rat(w, f), P, total - 2 * nc, total - 2 * nc)
    want = []
    for ks in itertools.product(*[range(0, min(A[q][s], B[1 - q][s], nc) + 1) for s, q in pairs]):
        if sum(ks) != nc:
            continue
        d = 1
        ra, rb = [list(x) for x in A], [list(x) for x in B]
        for (s, q), n in zip(pairs, ks):
            ra[q][s] -= n
            rb[1 - q][s] -= n
            d *= math.factorial(n)
        for x in ra + rb:
            for n in x:
                d *= math.factorial(n)
        want.append(Fraction(1, d) * abs(f))
    got = [abs(sem.q(c)) for _, c in e]
    ctx.count("large_coefficients", len(got))
    if sorted(got) != sorted(want):
        ctx.fail("large-prefactor", "the contraction with %d contracted pairs and prefactor %s is\n%s\nexpected coefficients %s"
                 % (nc, f, str(e)[:1500], sorted(want)))
    if not (w.string_to_expr(str(e)) == e):
        ctx.fail("large-text", "not read back:\n%s" % e)
    mx = max([max(abs(c.numerator), c.denominator).bit_length() for c in got] or [0])
    ctx.top("bits", mx)
    return Result(ctx.trace, mx > 64, str(e)[:300] if mx > 64 else None)


def bigfrac(rng, digits):
    return Fraction(rng.choice([-1, 1]) * rng.randint(1, 10 ** rng.randint(1, digits)), rng.randint(1, 10 ** rng.randint(0, digits)))


def factors(ctx, rng, w):
    """contraction, products and equations scale exactly"""
    fs = gen.sd_spaces(rng)
    gen.add_spaces(w, fs)
    ops = gen.rand_product(rng, fs, 6, nmax=3)
    P = gen.make_product(w, fs, ops)
    wt = w.WickTheorem()
    e = wt.contract(w.rational(1), P, 0, 6)
    f, g, h = bigfrac(rng, 60), bigfrac(rng, 60), bigfrac(rng, 20)
    ctx.log("%s with %s %s %s" % (gen.show_product(fs, ops), f, g, h))
    e2 = wt.contract(texpr.rat(w, f), texpr.rat(w, g) * P, 0, 6)
    one, two = sem.as_dict(sem.terms(w, e)), sem.as_dict(sem.terms(w, e2))
    if two != {k: c * f * g for k, c in one.items()}:
        ctx.fail("large-scale", "contract(%s, %s P) is\n%s\nbut contract(1, P) is\n%s" % (f, g, str(e2)[:2000], str(e)[:2000]))
    for lst in e2.to_manybody_equation("H").values():
        for q in lst:
            c = sem.q(q.rhs_factor())
            if c not in two.values():
                ctx.fail("large-scale", "the equation %s has the coefficient %s" % (q, c))
            x = float(q.compile("einsum").split("+= ")[1].split(" *")[0])
            if not abs(x - c.numerator / c.denominator) <= 1e-15 * abs(x):
                ctx.fail("large-code", "the coefficient %s is written %r" % (c, x))
    e3 = e2 * texpr.rat(w, h)
    if sem.as_dict(sem.terms(w, e3)) != {k: c * f * g * h for k, c in one.items()}:
        ctx.fail("large-scale", "scaling by %s" % h)
    if not (w.string_to_expr(str(e3)) == e3):
        ctx.fail("large-text", "not read back:\n%s" % e3)
    d = sem.q(e2.dot(e))
    if d != sum((c * c * f * g for c in one.values()), Fraction(0)):
        ctx.fail("large-dot", "dot is %s" % d)
    ctx.count("large_coefficients", 3 * len(one))
    return Result(ctx.trace, bool(one))


def series(ctx, rng, w):
    """long BCH series and sums: 1/k! and long denominators"""
    fs = gen.sd_spaces(rng)
    gen.add_spaces(w, fs)
    comp = (lambda: gen.component(fs, *gen.rand_operator(rng, fs, 4)))
    a, b = w.op("A", [comp()]), w.op("B", [comp()])
    n = rng.randint(5, 30)
    k = rng.randint(1, 4)
    ctx.log("sum of %d terms of %s" % (n, a))
    E = w.OperatorExpression()
    tot = Fraction(0)
    for j in range(1, n + 1):
        c = Fraction(rng.choice([-1, 1]), math.factorial(j)) if rng.random() < 0.5 else bigfrac(rng, 8)
        if (tot + c).denominator.bit_length() > 350 or (tot + c) == 0:
            continue
        tot += c
        E.add2(a, texpr.rat(w, c))
    got = sem.opexpr(w, E, [s.label for s in fs])
    if [c for c, _ in got] != [tot]:
        ctx.fail("large-sum", "the sum of the coefficients is\n%s\nexpected %s" % (E, tot))
    # powers of a factor
    f = bigfrac(rng, 12)
    X, p = b, Fraction(1)
    for _ in range(k):
        X = texpr.rat(w, f) * X
        p *= f
    got = sem.opexpr(w, X @ E, [s.label for s in fs])
    if [c for c, _ in got] != [p * tot]:
        ctx.fail("large-product", "the product has the coefficient %s, expected %s" % (got[0][0], p * tot))
    ctx.count("large_coefficients", 2)
    return Result(ctx.trace, max(tot.numerator, tot.denominator).bit_length() > 64)
