"""Operator builders produce exactly the requested operators."""
import itertools
import math
from collections import Counter
from fractions import Fraction

from wv import sem, texpr
from wv.core import Result

VARIANTS = ["plain"]
CASES = {"quick": 60000, "thorough": 1500000}
MIN_NONTRIVIAL = {"quick": 15000, "thorough": 300000}
RULE = ("random component lists (any order, repeated, up to 30 legs), space lists and composite-space requests are given to op, "
        "diag_operator, gen_op and operator_expr over random orbital spaces; the operators that come out (text, and the "
        "contraction of every single operator: tensor, prefactor, legs) are compared with the multiset asked for; unknown spaces "
        "must be refused; non-trivial when an operator has equivalent legs and the request has several components; "
        "distinct = distinct requests")
ASSUMPTIONS = ["components separated by spaces, creation operators marked with + or ^; at most 8 spaces",
               "creation operators are listed before annihilation operators in operator_expr"]


def factor(cre, ann):
    f = 1
    for n in list(cre) + list(ann):
        f *= math.factorial(n)
    return Fraction(1, f)


def counts(spaces, cre, ann):
    c, a = [0] * len(spaces), [0] * len(spaces)
    for s in cre:
        c[s] += 1
    for s in ann:
        a[s] += 1
    return tuple(c), tuple(a)


def op_text(spaces, label, c, a):
    f = factor(c, a)
    s = [] if f == 1 else [str(f)]
    s += [label, "{"]
    for k in range(len(spaces)):
        s += [spaces[k].label + "+"] * c[k]
    for k in reversed(range(len(spaces))):
        s += [spaces[k].label] * a[k]
    return " ".join(s + ["}"])


def setup_spaces(ctx, rng, bosons=0.1):
    w = ctx.w
    kmax = rng.choice([2, 3, 4, 8])
    k = rng.randint(1, kmax)
    spaces = [texpr.Sp(l, "boson" if rng.random() < bosons else "fermion", rng.choice(["occupied", "unoccupied", "general"]), [])
              for l in rng.sample(texpr.LETTERS, k)]
    texpr.register(w, spaces)
    ctx.log("spaces %s" % spaces)
    return w, spaces


def rand_legs(rng, spaces, big=False):
    def one():
        n = rng.choice([0, 1, 1, 2, 2, 3, 4] + ([8, 15] if big else []))
        if rng.random() < 0.3:
            return [rng.randrange(len(spaces))] * n
        return [rng.randrange(len(spaces)) for _ in range(n)]
    return one(), one()


def compare(ctx, spaces, what, oe, want, label):
    """want: Counter of (cre counts, ann counts)"""
    labels = [s.label for s in spaces]
    got, seen = {}, 0
    for c, prod in sem.opexpr(ctx.w, oe, labels):
        if len(prod) != 1:
            ctx.fail("builder", "%s contains a product of %d operators:\n%s" % (what, len(prod), oe))
        lab, cre, ann, pref = prod[0]
        if lab != label:
            ctx.fail("label", "%s contains an operator labelled %s:\n%s" % (what, lab, oe))
        if pref != factor(cre, ann):
            ctx.fail("prefactor", "%s: the prefactor of an operator with %s %s is printed as %s" % (what, cre, ann, pref))
        k = (tuple(cre), tuple(ann))
        if k in got:
            ctx.fail("builder", "%s contains an operator twice:\n%s" % (what, oe))
        got[k] = c
        seen += 1
    if got != dict(want) or oe.size() != seen:
        ctx.fail("builder", "%s is\n%s\nexpected coefficients %s" % (what, oe, dict(want)))
    ctx.count("operators_compared", len(want))


def single(ctx, w, spaces, oe, label, c, a):
    """the operator itself, as the contraction engine sees it"""
    n = sum(c) + sum(a)
    if any(s.field == "boson" for s in spaces) or n > 24 or n == 0:
        return
    e = w.WickTheorem().contract(w.rational(1), oe, n, n)
    pts = texpr.back(w, e)
    if len(pts) != 1 or pts[0].coef != factor(c, a) or len(pts[0].tensors) != 1:
        ctx.fail("engine", "the operator %s is contracted to\n%s" % (oe, e))
    t = pts[0]
    l, lo, up, _ = t.tensors[0]
    if l != label or counts(spaces, [s for s, _ in lo], [s for s, _ in up]) != (c, a) or len(set(lo + up)) != n:
        ctx.fail("engine", "the operator %s is contracted to\n%s" % (oe, e))
    if sorted(o[1:] for o in t.ops if o[0]) != sorted(lo) or sorted(o[1:] for o in t.ops if not o[0]) != sorted(up):
        ctx.fail("engine", "the operator %s is contracted to\n%s" % (oe, e))
    ctx.count("engine_prefactors")


def run_case(ctx, rng, i):
    r = rng.random()
    if r < 0.4:
        return by_components(ctx, rng)
    if r < 0.6:
        return by_spaces(ctx, rng)
    if r < 0.8:
        return composite(ctx, rng)
    return expr(ctx, rng)


def component(rng, spaces, cre, ann, shuffle=True):
    el = [(s, True) for s in cre] + [(s, False) for s in ann]
    if shuffle and rng.random() < 0.5:
        rng.shuffle(el)
    return " ".join(spaces[s].label + (rng.choice(["+", "+", "^"]) if c else "") for s, c in el)


def by_components(ctx, rng):
    w, spaces = setup_spaces(ctx, rng)
    label = rng.choice(["T", "Hbar", "t2", "V_1", "lambda", "T1b"])
    big = rng.random() < 0.15
    legs = [rand_legs(rng, spaces, big) for _ in range(rng.choice([1, 1, 2, 3, 5]))]
    if rng.random() < 0.3:
        legs.append(rng.choice(legs))
    comps = [component(rng, spaces, *x) for x in legs]
    unique = rng.random() < 0.4
    ctx.log("op(%r, %r, unique=%s)" % (label, comps, unique))
    oe = w.op(label, comps, unique) if unique or rng.random() < 0.5 else w.op(label, comps)
    want = Counter(counts(spaces, *x) for x in legs)
    if unique:
        want = Counter(set(want))
    compare(ctx, spaces, "op", oe, want, label)
    one = rng.choice(legs)
    c, a = counts(spaces, *one)
    single(ctx, w, spaces, w.op(label, [component(rng, spaces, *one)]), label, c, a)
    unknown(ctx, rng, w, spaces, [lambda x: w.op("T", comps + [x]), lambda x: w.op("T", [x] + comps)])
    nt = len(comps) > 1 and any(max(x) > 1 for k in want for x in k)
    return Result((spaces, comps, unique), nt, str(oe) if nt else None)


def unknown(ctx, rng, w, spaces, fns):
    used = {s.label for s in spaces}
    x = rng.choice([c for c in texpr.LETTERS if c not in used])
    for fn in fns:
        s = rng.choice([x, x + "+", "%s+ %s" % (x, spaces[0].label), "%s+ %s" % (spaces[0].label, x)])
        ctx.raises(lambda: fn(s), "unknown-space", "a component %r over an unknown space" % s)
        ctx.count("refusals")


def by_spaces(ctx, rng):
    w, spaces = setup_spaces(ctx, rng)
    label = rng.choice(["T", "Hbar", "t2"])
    cre, ann = rand_legs(rng, spaces, rng.random() < 0.3)
    c, a = counts(spaces, cre, ann)
    ctx.log("diag_operator(%r, %r, %r)" % (label, [spaces[s].label for s in cre], [spaces[s].label for s in ann]))
    o = w.diag_operator(label, [spaces[s].label for s in cre], [spaces[s].label for s in ann])
    p = w.Operator(label, list(c), list(a))
    for x in (o, p):
        if str(x) != op_text(spaces, label, c, a) or repr(x) != str(x):
            ctx.fail("operator", "the operator with %s %s prints as %s, expected %s" % (c, a, x, op_text(spaces, label, c, a)))
        ctx.count("operators_compared")
    if sum(c) + sum(a):
        t = str(w.op(label, [component(rng, spaces, cre, ann)]))
        if not t.endswith(str(o)) or t[:-len(str(o))].strip(" ") not in ("", "+"):
            ctx.fail("operator", "op gives %s and diag_operator %s" % (t, o))
    used = {s.label for s in spaces}
    x = rng.choice([q for q in texpr.LETTERS if q not in used])
    ctx.raises(lambda: w.diag_operator("T", [x], []), "unknown-space", "diag_operator over an unknown space")
    ctx.raises(lambda: w.diag_operator("T", [spaces[0].label], [spaces[0].label, x]), "unknown-space",
               "diag_operator over an unknown space")
    ctx.count("refusals", 2)
    return Result((spaces, label, c, a), max(c + a) > 1 and len([k for k in c + a if k]) > 1)


def composite(ctx, rng):
    w, spaces = setup_spaces(ctx, rng)
    label = rng.choice(["T", "Hbar", "t2"])
    rank = rng.choice([1, 1, 1, 2, 2, 2, 3, 3, 4 if rng.random() < 0.8 else 5])
    A = rng.sample(range(len(spaces)), min(len(spaces), rng.randint(1, 3)))
    B = rng.sample(range(len(spaces)), min(len(spaces), rng.randint(1, 3)))
    if rng.random() < 0.3:
        B = A[:]
        rng.shuffle(B)
    diagonal = rng.random() < 0.6
    sa, sb = "".join(spaces[s].label for s in A), "".join(spaces[s].label for s in B)
    ctx.log("gen_op(%r, %d, %r, %r, diagonal=%s)" % (label, rank, sa, sb, diagonal))
    oe = w.gen_op(label, rank, sa, sb, diagonal) if not diagonal or rng.random() < 0.5 else w.gen_op(label, rank, sa, sb)
    want = Counter()
    for c in itertools.combinations_with_replacement(sorted(A), rank):
        for a in itertools.combinations_with_replacement(sorted(B), rank):
            if diagonal or c != a:
                want[counts(spaces, c, a)] = 1
    compare(ctx, spaces, "gen_op", oe, want, label)
    used = {s.label for s in spaces}
    x = rng.choice([q for q in texpr.LETTERS if q not in used])
    ctx.raises(lambda: w.gen_op("T", rank, sa + x, sb), "unknown-space", "gen_op over an unknown space", (Exception,))
    ctx.raises(lambda: w.gen_op("T", rank, sa, x + sb), "unknown-space", "gen_op over an unknown space", (Exception,))
    ctx.count("refusals", 2)
    return Result((spaces, label, rank, sa, sb, diagonal), rank > 1 and len(want) > 1, str(oe))


def expr(ctx, rng):
    w, spaces = setup_spaces(ctx, rng, 0.3)
    label = rng.choice(["T", "Hbar", "t2", "V_1"])
    legs = [rand_legs(rng, spaces) for _ in range(rng.choice([1, 1, 2, 4]))]
    legs = [x for x in legs if x[0] or x[1]] or [([0], [])]
    comps = [component(rng, spaces, *x, shuffle=False) for x in legs]
    no = rng.random() < 0.5
    sym = rng.choice(texpr.SYMS)
    coef = texpr.rand_coef(rng, True)
    kw = {}
    if sym != "anti" or rng.random() < 0.5:
        kw["symmetry"] = {"anti": w.sym.anti, "symm": w.sym.symm, "none": w.sym.none}[sym]
    if coef != 1 or rng.random() < 0.5:
        kw["coefficient"] = texpr.rat(w, coef)
    ctx.log("operator_expr(%r, %r, %s, %s, %s)" % (label, comps, no, sym, coef))
    e = w.operator_expr(label, comps, no, **kw)
    want = Counter(tuple([(True, s) for s in c] + [(False, s) for s in a]) for c, a in legs)
    got = Counter()
    for t in texpr.back(w, e):
        k = tuple(o[:2] for o in t.ops)
        ix = [o[1:] for o in t.ops]
        if len(set(ix)) != len(ix):
            ctx.fail("expr-indices", "operator_expr uses an index twice:\n%s" % e)
        if len(t.tensors) != 1:
            ctx.fail("expr", "operator_expr gives\n%s" % e)
        l, lo, up, s = t.tensors[0]
        if l != label or s != sym or lo != [o[1:] for o in t.ops if o[0]] or up != [o[1:] for o in t.ops if not o[0]][::-1]:
            ctx.fail("expr-tensor", "operator_expr (%s) gives the term\n%s" % (sym, t.show(spaces)))
        if t.flag is not no and t.ops:
            ctx.fail("expr-flag", "operator_expr with normal_ordered=%s gives\n%s" % (no, e))
        if k in got or t.coef != coef * want[k]:
            ctx.fail("expr-coefficient", "operator_expr with coefficient %s gives\n%s" % (coef, e))
        got[k] = want[k]
        ctx.count("operators_compared")
    if got != want:
        ctx.fail("expr", "operator_expr gives\n%s\nfor the components %s" % (e, comps))
    unknown(ctx, rng, w, spaces, [lambda x: w.operator_expr("T", comps + [x], no)])
    return Result((spaces, comps, no, sym, coef), len(comps) > 1 and any(len(set(x)) < len(x) for l in legs for x in l), str(e))
