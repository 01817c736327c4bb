"""Rational arithmetic is exact and canonical."""
import math
import re
from fractions import Fraction

from wv.core import Result

VARIANTS = ["plain", "noboost"]
CASES = {"quick": {"plain": 16000, "noboost": 8000}, "thorough": {"plain": 500000, "noboost": 200000}}
MIN_NONTRIVIAL = {"quick": 8000, "thorough": 100000}
RULE = ("random programs of about 30 operations on a pool of rationals run side by side with fractions.Fraction; after every "
        "operation numerator, denominator, text, float and equality with every rational of the pool are compared; strings and "
        "zero denominators are offered to the parser and the constructors; both integer configurations; non-trivial when a "
        "result needed reduction by a common factor and a negative number was divided by; distinct = distinct programs")
ASSUMPTIONS = ["numerators, denominators and the products formed by an operation stay below 1023 (63) bits"]

LIM = {True: 1022, False: 62}


def bits(n):
    return abs(n).bit_length()


def check_value(ctx, what, r, f):
    n, d = r.numerator(), r.denominator()
    ctx.count("rationals_compared")
    if (n, d) != (f.numerator, f.denominator):
        ctx.fail("value", "%s is %s/%s, expected %s" % (what, n, d, f))
    if repr(r) != "rational(%d,%d)" % (n, d):
        ctx.fail("repr", "%s is %s but its repr is %s" % (what, f, repr(r)))


def check_text(ctx, what, r, f):
    s = str(f) if abs(f) != 1 else ("" if f == 1 else "-")
    if r.str(False) != s:
        ctx.fail("str", "%s is %s but str() is %r" % (what, f, r.str(False)))
    if r.str(True) != ("+" if f > 0 else "") + s:
        ctx.fail("str", "%s is %s but str(True) is %r" % (what, f, r.str(True)))
    want = f.numerator / f.denominator if f.denominator else 0.0
    x = float(r)
    if not abs(x - want) <= 1e-15 * abs(want):
        ctx.fail("float", "float(%s) is %r, expected %r" % (f, x, want))
    c = r.compile("einsum")
    if not re.fullmatch(r"-?\d+\.?\d*(e[+-]?\d+)?", c) or not abs(float(c) - want) <= 1e-15 * abs(want):
        ctx.fail("compile", "compile() of %s is %r, expected %r" % (f, c, want))
    first, rest = r.latex(True), r.latex(False)
    if f.denominator != 1:
        w1 = w2 = "%s\\frac{%d}{%d}" % ("-" if f < 0 else "+", abs(f.numerator), f.denominator)
    elif abs(f) == 1:
        w1 = w2 = "+" if f > 0 else "-"
    elif f == 0:
        w1 = w2 = "0"
    else:
        w1, w2 = "%d" % f, "%+d" % f
    if first not in (w1, w2) or rest != w2:
        ctx.fail("latex", "latex of %s is %r and %r, expected %r and %r" % (f, first, rest, w1, w2))


def rand_int(rng, lim):
    r = rng.random()
    if r < 0.3:
        n = rng.randint(0, 12)
    elif r < 0.5:
        n = 2 ** rng.randint(0, lim) + rng.choice([-1, 0, 1])
    elif r < 0.7:
        n = math.factorial(rng.randint(0, 12 if lim < 100 else 150))
    else:
        n = rng.getrandbits(rng.randint(1, lim))
    if bits(n) > lim:
        n >>= bits(n) - lim
    return rng.choice([-1, 1, 1]) * n


def run_case(ctx, rng, i):
    w = ctx.w
    if rng.random() < 0.15:
        return strings(ctx, rng)
    boost = w.use_boost_1024_int()
    if boost != (ctx.variant == "plain"):
        ctx.fail("configuration", "use_boost_1024_int() is %s in the %s build" % (boost, ctx.variant))
    lim = LIM[boost]
    size = rng.choice([5, 16, 31, lim // 2 - 1, lim])
    pool = []

    def new():
        n, d = rand_int(rng, size), 0
        while d == 0:
            d = rand_int(rng, size)
        if rng.random() < 0.3:      # common factors
            g = rng.choice([2, 3, 12, 30, 2 ** 20])
            if max(bits(n), bits(d)) + bits(g) <= lim:
                n, d = n * g, d * g
        kind = rng.random()
        if kind < 0.1:
            r, f, t = w.rational(), Fraction(0), "rational()"
        elif max(bits(n), bits(d)) < 32 and kind < 0.7:
            if kind < 0.2:
                r, f, t = w.rational(n), Fraction(n), "rational(%d)" % n
            else:
                r, f, t = w.rational(n, d), Fraction(n, d), "rational(%d,%d)" % (n, d)
        else:
            d = abs(d)
            t = "%d/%d" % (n, d) if kind < 0.9 else "%d" % n
            f = Fraction(n, d) if kind < 0.9 else Fraction(n)
            r = w.make_rational(t)
        ctx.log("x%d = %s" % (len(pool), t))
        check_value(ctx, t, r, f)
        pool.append((r, f))
        return f.denominator != abs(d)

    red, neg = new() | new(), False
    for _ in range(rng.randint(15, 30)):
        op = rng.choice(["new", "+", "-", "*", "/", "/", "==", "text", "div0"])
        a = rng.randrange(len(pool))
        b = a if rng.random() < 0.25 else rng.randrange(len(pool))
        (A, fa), (B, fb) = pool[a], pool[b]
        if op == "new":
            red |= new()
        elif op == "==":
            for k, (C, fc) in enumerate(pool):
                if (A == C) is not (fa == fc) or (A != C) is not (fa != fc):
                    ctx.fail("equality", "%s == %s is not %s" % (fa, fc, fa == fc))
                ctx.count("comparisons")
        elif op == "text":
            check_text(ctx, "x%d" % a, A, fa)
        elif op == "div0":
            ctx.raises(lambda: A / w.rational(0), "division-by-zero", "%s / 0" % fa)
            ctx.raises(lambda: w.rational(rng.randint(-5, 5), 0), "zero-denominator", "rational(n,0)")
            check_value(ctx, "operand after a failed division", A, fa)
            ctx.count("refusals", 2)
        else:
            p = [fa.numerator, fa.denominator, fb.numerator, fb.denominator]
            if op in "+-":
                mx = max(bits(p[0]) + bits(p[3]), bits(p[2]) + bits(p[1])) + 1
                mx = max(mx, bits(p[1]) + bits(p[3]))
            elif op == "*":
                mx = max(bits(p[0]) + bits(p[2]), bits(p[1]) + bits(p[3]))
            else:
                mx = max(bits(p[0]) + bits(p[3]), bits(p[1]) + bits(p[2]))
            if mx > lim:
                continue
            ctx.log("x%d = x%d %s x%d" % (len(pool), a, op, b))
            if op == "/" and fb == 0:
                ctx.raises(lambda: A / B, "division-by-zero", "%s / 0" % fa)
                continue
            if op == "+":
                r, f = A + B, fa + fb
                red |= f.denominator != fa.denominator * fb.denominator
            elif op == "-":
                r, f = A - B, fa - fb
                red |= f.denominator != fa.denominator * fb.denominator
            elif op == "*":
                r, f = A * B, fa * fb
                red |= f.denominator != fa.denominator * fb.denominator
            else:
                r, f = A / B, fa / fb
                neg |= fb < 0
            check_value(ctx, "%s %s %s" % (fa, op, fb), r, f)
            check_value(ctx, "left operand of " + op, A, fa)
            check_value(ctx, "right operand of " + op, B, fb)
            ctx.top("bits", max(bits(f.numerator), bits(f.denominator)))
            pool.append((r, f))
        if len(pool) > 8:
            del pool[rng.randrange(len(pool))]
    return Result((ctx.variant, ctx.trace), red and neg)


def strings(ctx, rng):
    """what the parser accepts, and what it rejects"""
    w = ctx.w
    lim = LIM[w.use_boost_1024_int()]
    good = 0
    for _ in range(12):
        n = abs(rand_int(rng, lim))
        d = abs(rand_int(rng, lim)) or 1
        sg = rng.choice(["", "+", "-"])
        k = rng.random()
        zeros = "0" * rng.choice([0, 0, 1, 3])
        if k < 0.15:
            s, f = sg, Fraction(1)
        elif k < 0.5:
            s, f = sg + zeros + str(n), Fraction(n)
        else:
            s, f = "%s%s%d/%s%d" % (sg, zeros, n, zeros, d), Fraction(n, d)
        f = -f if sg == "-" else f
        s = rng.choice(["", "", " "]) + s + rng.choice(["", "", " "])
        ctx.log("make_rational(%r)" % s)
        check_value(ctx, "make_rational(%r)" % s, w.make_rational(s), f)
        good += 1
    for s in rng.sample(["/", "+/2", "-/2", "3/", "-3/", "/4", "1/1/1", "1a/1", "a", "1.5", "1/2.0", "--1", "+-1", "1/-2", "1e5",
                         "0x10", "1/0", "0/0", "-7/00", "1//2", "1/2x", "x1/2", "½", "1,2", "inf", "nan",
                         "1%s" % ("0" * 400), "1/1%s" % ("0" * 320), str(2 ** (lim + 3))], 8):
        ctx.raises(lambda: w.make_rational(s), "malformed", "make_rational(%r)" % s)
        ctx.count("refusals")
    return Result(("strings", ctx.variant, ctx.trace), good > 0)
