"""Many-body equations partition the expression without loss."""
from fractions import Fraction

from wv import fock, gen, sem, texpr
from wv.core import Result

VARIANTS = ["plain"]
CASES = {"quick": 24000, "thorough": 500000}
MIN_NONTRIVIAL = {"quick": 4000, "thorough": 80000}
RULE = ("random expressions (operators of every space, fermions and bosons, repeated and free indices, large coefficients) and "
        "contraction results of products and commutators are split into many-body equations; every equation is matched with "
        "exactly one term, its key is recomputed, and its left-hand tensor turned back into the operator string must give the "
        "term with the same coefficient; non-trivial when there are at least two keys and an equation with four open indices; "
        "distinct = distinct expressions")
ASSUMPTIONS = ["the operator strings have creation operators on the left, as in contraction results; for other strings only key, "
               "indices, tensors and coefficient are compared"]


def key_of(spaces, ops):
    """upper (annihilation) spaces in the order of registration | lower (creation) spaces in the opposite order"""
    ann = sorted(s for c, s, _ in ops if not c)
    cre = sorted((s for c, s, _ in ops if c), reverse=True)
    return "".join(spaces[s].label for s in ann) + "|" + "".join(spaces[s].label for s in cre)


def canonical_ops(spaces, ops):
    """creators then annihilators, sorted, with the sign of the permutation of the fermions"""
    k = [((not c), s, p) for c, s, p in ops]
    order = sorted(range(len(ops)), key=lambda i: (k[i], i))
    ferm = [i for i in order if spaces[ops[i][1]].field == "fermion"]
    sg = fock.perm_sign([sorted(ferm).index(i) for i in ferm])
    return tuple(ops[i] for i in order), sg


def check(ctx, w, spaces, e, label, pts, what):
    text = str(e)
    eqs = e.to_manybody_equation(label)
    if str(e) != text:
        ctx.fail("modified", "to_manybody_equation modified the expression")
    n = sum(len(v) for v in eqs.values())
    if n != len(pts) or any(not v for v in eqs.values()):
        ctx.fail("count", "%s: %d terms gave %d equations\n%s" % (what, len(pts), n, text))
    # what must come out, as a multiset
    want = {}
    for t in pts:
        ops, sg = canonical_ops(spaces, t.ops)
        ordered = all(not (b[0] and not a[0]) for a, b in zip(t.ops, t.ops[1:]))
        key = (key_of(spaces, t.ops), tuple(sorted((l, tuple(lo), tuple(up), s) for l, lo, up, s in t.tensors)), ops)
        val = t.coef * sg if ordered else abs(t.coef)
        want.setdefault((key, ordered), []).append(val)
    unordered = {}
    for (key, ordered), v in want.items():
        if not ordered:
            unordered.setdefault(key, 0)
            unordered[key] += len(v)
    syms = {w.sym.anti: "anti", w.sym.symm: "symm", w.sym.none: "none"}
    four = False
    for key, lst in eqs.items():
        for q in lst:
            ctx.count("equations_checked")
            lhs, rhs, f = q.lhs(), q.rhs(), sem.q(q.rhs_factor())
            if len(lhs.tensors()) != 1 or lhs.ops() or rhs.ops():
                ctx.fail("form", "the equation %s does not have the form tensor += coefficient tensors" % q)
            h = lhs.tensors()[0]
            if h.label() != label:
                ctx.fail("label", "the left-hand tensor of %s is not called %s" % (q, label))
            lo = [(True, x.space(), x.pos()) for x in h.lower()]
            up = [(False, x.space(), x.pos()) for x in h.upper()]
            ops, sg = canonical_ops(spaces, lo + up[::-1])
            k = key_of(spaces, ops)
            if k != key:
                ctx.fail("key", "the equation %s is filed under %s, expected %s" % (q, key, k))
            ts = tuple(sorted((t.label(), tuple((x.space(), x.pos()) for x in t.lower()),
                               tuple((x.space(), x.pos()) for x in t.upper()), syms[t.symmetry()]) for t in rhs.tensors()))
            full = (key, ts, ops)
            if (full, True) in want and f * sg in want[(full, True)]:
                want[(full, True)].remove(f * sg)
            elif (full, False) in want and abs(f) in want[(full, False)]:
                want[(full, False)].remove(abs(f))
            else:
                ctx.fail("equation", "%s: no term of\n%s\ncorresponds to the equation %s" % (what, text, q))
            four |= len(ops) >= 4
            # the parts agree with each other and with the text
            x = q.rhs_expression()
            b = texpr.back(w, x)
            if f == 0 or len(b) != 1 or b[0].coef != f or b[0].ops or \
                    tuple(sorted((l, tuple(a), tuple(c), s) for l, a, c, s in b[0].tensors)) != ts:
                ctx.fail("rhs", "rhs_expression() of %s is %s" % (q, x))
            t = str(q).split(" += ")
            if len(t) != 2 or t[0] != str(h) or str(q) != repr(q) or q.latex() != str(q):
                ctx.fail("text", "the equation with left-hand side %s prints as %s" % (h, q))
            rs = t[1].strip()
            if rs in ("", "-", "+"):
                ctx.fail("text", "the equation with the coefficient %s and no tensors prints as %r" % (f, str(q)))
            rt = texpr.back(w, w.expression(rs, w.sym.anti))
            if len(rt) != 1 or rt[0].coef != f or [y[:3] for y in rt[0].tensors] != [y[:3] for y in b[0].tensors]:
                ctx.fail("text", "the right-hand side %s is printed as %s" % (x, t[1]))
            # an equation put together from these parts is the same equation
            r = w.Equation(lhs, rhs, q.rhs_factor())
            if str(r) != str(q) or not (r.rhs_expression() == x):
                ctx.fail("rebuild", "Equation(lhs, rhs, factor) of %s is %s" % (q, r))
    left = {k: v for k, v in want.items() if v}
    if left:
        ctx.fail("lost", "%s: no equation for %s" % (what, list(left.items())[:2]))
    again = e.to_manybody_equations(label)
    if {k: [str(q) for q in v] for k, v in again.items()} != {k: [str(q) for q in v] for k, v in eqs.items()}:
        ctx.fail("repeat", "a second conversion gives different equations")
    return eqs, len(eqs) > 1 and four


def run_case(ctx, rng, i):
    if rng.random() < 0.15:
        return wick(ctx, rng)
    w = ctx.w
    spaces = texpr.rand_spaces(rng, bosons=rng.choice([0, 0.3]))
    texpr.register(w, spaces)
    big = rng.random() < 0.3
    wide = rng.random() < 0.04
    pool = [texpr.rand_index(rng, spaces, rng.choice([120, 5000]) if wide else rng.choice([3, 12]))
            for _ in range(rng.randint(8, 20) if wide else rng.randint(2, 9))]
    ordered = rng.random() < 0.85
    pts = []
    for _ in range(rng.choice([2, 12, 40]) if wide else rng.choice([1, 2, 4, 8])):
        t = texpr.rand_term(rng, spaces, ntens=(0, 5) if wide else (0, 3), nops=(0, 16) if wide else (0, 6), pool=pool, big=big)
        if ordered:
            cre, ann = [o for o in t.ops if o[0]], [o for o in t.ops if not o[0]]
            t.ops = cre + ann
        pts.append(t)
    e = texpr.expression(w, pts, rng)
    mine = texpr.back(w, e)
    ctx.log("spaces %s\n%s" % (spaces, e))
    label = rng.choice(["H", "Hbar", "R2", "r", "T"])
    eqs, nt = check(ctx, w, spaces, e, label, mine, "expression")
    ctx.top("keys", len(eqs))
    return Result(str(e), nt, str(e) if nt else None)


def wick(ctx, rng):
    w = ctx.w
    general = rng.random() < 0.4
    fs = gen.general_spaces(rng) if general else gen.sd_spaces(rng)
    gen.add_spaces(w, fs)
    spaces = [texpr.Sp(s.label, s.field, s.stype, [], s.n) for s in fs]
    P = gen.make_product(w, fs, gen.rand_product(rng, fs, 6 if general else 8))
    if rng.random() < 0.3:
        Q = gen.make_product(w, fs, gen.rand_product(rng, fs, 2))
        P = w.commutator(P, Q)
    wt = w.WickTheorem()
    e = wt.contract(texpr.rat(w, texpr.rand_coef(rng)), P, 0, 8)
    if len(e) > 150:
        return Result("large", False)
    ctx.log(P)
    mine = texpr.back(w, e)
    eqs, nt = check(ctx, w, spaces, e, "H", mine, "contraction")
    # the open indices of a contraction result are those of its left-hand tensor
    for lst in eqs.values():
        for q in lst:
            h = q.lhs().tensors()[0]
            on = [str(x) for x in h.lower() + h.upper()]
            seen = {}
            for t in q.rhs().tensors():
                for x in t.lower() + t.upper():
                    seen[str(x)] = seen.get(str(x), 0) + 1
            if sorted(on) != sorted(k for k, n in seen.items() if n == 1) or any(n > 2 for n in seen.values()) or \
                    len(set(on)) != len(on):
                ctx.fail("open-indices", "the open indices on the two sides of %s differ" % q)
    return Result(str(e), nt)
