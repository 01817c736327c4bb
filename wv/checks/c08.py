"""Canonicalization preserves value and does not depend on names."""
import itertools
from fractions import Fraction

import numpy as np

from wv import fock, gen, sem, texpr
from wv.checks.c07 import act
from wv.core import Result

P = fock.P
VARIANTS = ["plain"]
CASES = {"quick": 72000, "thorough": 800000}
MIN_NONTRIVIAL = {"quick": 8000, "thorough": 30000}
RULE = ("random expressions (antisymmetric and symmetric tensors, repeated labels, contracted, free and repeated indices, "
        "fermions and bosons) are evaluated with random tensor values before and after canonicalize(): the coefficient of every "
        "normal-ordered string must agree modulo a prime; renamed and shuffled copies of terms with distinct tensors must give "
        "the same term with the right sign; operator expressions are compared as operators on Fock space; non-trivial when the "
        "value is not zero and canonicalize() changed the text; distinct = distinct inputs")
ASSUMPTIONS = ["2-3 orbitals per space, at most 6 operators and 4 tensors per term",
               "tensors without symmetry are refused by canonicalize() and therefore only checked to be refused"]


def values(m, spaces, pts, ext):
    """{sorted operator types: (anti)symmetrized coefficient array}"""
    acc = {}
    for t in pts:
        on = {i for _, lo, up, _ in t.tensors for i in lo + up}
        ts = [sem.Tens(l, list(up), list(lo), s) for l, lo, up, s in t.tensors]
        for o in t.ops:
            i = o[1:]
            if i not in on:
                # a free operator index keeps its name: multiply by something that depends on the name
                on.add(i)
                ts.append(sem.Tens("ext%d_%d" % i, [i], [], "anti"))
        types, C = m.eval_term(sem.Term(t.coef, ts, list(t.ops), True))
        key = [(not c, s) for c, s in types]
        order = sorted(range(len(types)), key=lambda k: (key[k], k))
        ferm = [k for k in order if spaces[types[k][1]].field == "fermion"]
        sg = fock.perm_sign([sorted(ferm).index(k) for k in ferm])
        types = tuple(types[k] for k in order)
        C = np.transpose(C, order) * sg % P
        i = 0
        while i < len(types):
            j = i
            while j < len(types) and types[j] == types[i]:
                j += 1
            if j - i > 1:
                a = np.zeros_like(C)
                f = spaces[types[i][1]].field == "fermion"
                for p in itertools.permutations(range(j - i)):
                    ax = list(range(C.ndim))
                    for k in range(j - i):
                        ax[i + k] = i + p[k]
                    a = a + (fock.perm_sign(p) if f else 1) * np.transpose(C, ax)
                C = a % P
            i = j
        acc[types] = (acc[types] + C) % P if types in acc else C
    return {k: v for k, v in acc.items() if v.any()}


def same(a, b):
    return set(a) == set(b) and all((a[k] == b[k]).all() for k in a)


def well_formed(ctx, w, e, what):
    pts = texpr.back(w, e)
    if any(t.coef == 0 for t in pts):
        ctx.fail("zero-term", what + " left a zero term:\n" + str(e))
    if len({t.key() for t in pts}) != len(pts):
        ctx.fail("repeated-term", what + " left a repeated term:\n" + str(e))
    return pts


def run_case(ctx, rng, i):
    r = rng.random()
    if r < 0.55:
        return value(ctx, rng)
    if r < 0.85:
        return names(ctx, rng)
    return opexpr(ctx, rng)


def model(rng, spaces):
    return fock.Model([fock.Space(s.label, s.field, "unoccupied", s.n) for s in spaces], rng)


def value(ctx, rng):
    w = ctx.w
    spaces = texpr.rand_spaces(rng, bosons=rng.choice([0, 0.3, 1.0]), kmax=3)
    texpr.register(w, spaces)
    pool = [texpr.rand_index(rng, spaces, rng.choice([3, 5, 20])) for _ in range(rng.randint(2, 7))]
    labels = texpr.rand_labels(rng, rng.choice([1, 1, 2, 3]))
    labels = [l for l in labels if l != "delta"] or ["T"]
    if rng.random() < 0.02:
        return high_rank(ctx, rng)
    pts = [texpr.rand_term(rng, spaces, ntens=(0, 4), nops=(0, 5), pool=pool, labels=labels, flag=rng.random() < 0.5)
           for _ in range(rng.choice([1, 1, 2, 4]))]
    if rng.random() < 0.4:
        # a disguised copy: terms that merge or cancel
        t = disguise(rng, spaces, pts[0], keep_order=True)[0]
        t.coef *= rng.choice([1, -1, -1])
        pts.append(t)
    if rng.random() < 0.15:
        # other orders of the same operators, often without tensors
        t = pts[-1].copy()
        if rng.random() < 0.7:
            t.tensors = []
        pts[-1] = t
        for _ in range(rng.choice([1, 1, 2])):
            u = t.copy()
            rng.shuffle(u.ops)
            u.coef = texpr.rand_coef(rng)
            pts.append(u)
    if rng.random() < 0.5:
        # connect the operators to tensors
        for t in pts:
            on = [x for _, lo, up, _ in t.tensors for x in lo + up]
            if on:
                t.ops = [(c, *rng.choice(on)) if rng.random() < 0.8 else (c, a, b) for c, a, b in t.ops]
    for t in pts:
        ctx.log(t.show(spaces))
    ctx.log("spaces %s" % spaces)
    e = texpr.expression(w, pts, rng)
    before = str(e)
    src = texpr.back(w, e)
    m = model(rng, spaces)
    L = values(m, spaces, src, None)
    c = e.canonicalize()
    res = well_formed(ctx, w, e, "canonicalize()")
    if str(c) != str(e):
        ctx.fail("in-place", "canonicalize() returned\n%s\nbut the object became\n%s" % (c, e))
    R = values(m, spaces, res, None)
    ctx.count("expressions_compared")
    ctx.count("terms_in", len(src))
    ctx.count("terms_out", len(res))
    if not same(L, R):
        ctx.fail("value", "canonicalize() changes the value of\n%s\nto that of\n%s" % (before, e))
    if rng.random() < 0.3:
        e.canonicalize()
        if not same(L, values(m, spaces, well_formed(ctx, w, e, "second canonicalize()"), None)):
            ctx.fail("value", "a second canonicalize() changes the value of\n%s\nto that of\n%s" % (before, e))
    if rng.random() < 0.1:
        n = w.Expression()
        n += texpr.term(w, texpr.PT(1, [("h", [pool[0]], [pool[-1]], "none")], []))
        ctx.raises(n.canonicalize, "nonsymmetric", "canonicalize() with a nonsymmetric tensor")
    return Result(("value", spaces, [(t.key(), t.coef) for t in pts]), bool(L) and str(e) != before,
                  "\n".join(ctx.trace) + "\n-> " + str(e))


def high_rank(ctx, rng):
    """tensors with up to four antisymmetric legs per side in one space"""
    w = ctx.w
    spaces = texpr.rand_spaces(rng, bosons=0.2, kmax=1)
    spaces[0].n = 4
    texpr.register(w, spaces)
    ps = [(0, p) for p in rng.sample(range(30), 12)]
    lo, up, oth = ps[:rng.choice([3, 4])], ps[4:4 + rng.choice([2, 3, 4])], ps[8:]
    tensors = [("T", lo, up, "anti")]
    if rng.random() < 0.6:
        # contracted with another tensor
        k = rng.randint(1, min(2, len(up)))
        tensors.append((rng.choice("TX"), up[:k] + oth[:rng.choice([0, 1])], oth[1:1 + rng.choice([0, 1, 2])], "anti"))
    legs = [x for _, l, u, _ in tensors for x in l + u]
    single = [x for x in legs if legs.count(x) == 1]
    ops = [(rng.random() < 0.5, *x) for x in rng.sample(single, min(len(single), rng.randint(2, 6)))]
    t = texpr.PT(texpr.rand_coef(rng), tensors, ops, True)
    rng.shuffle(t.ops)
    ctx.log(t.show(spaces))
    e = texpr.expression(w, [t], rng)
    m = model(rng, spaces)
    L = values(m, spaces, [t], None)
    before = str(e)
    e.canonicalize()
    R = values(m, spaces, well_formed(ctx, w, e, "canonicalize()"), None)
    ctx.count("high_rank_tensors")
    if not same(L, R):
        ctx.fail("value", "canonicalize() changes the value of\n%s\nto that of\n%s" % (before, e))
    return Result(("high", t.key()), bool(L) and str(e) != before)


def disguise(rng, spaces, t, keep_order=False):
    """the same term with other names (and, unless keep_order, another order of tensors and operators)"""
    m = {}
    for s in range(len(spaces)):
        mine = [n for n in t.indices() if n[0] == s]
        on = {x for _, lo, up, _ in t.tensors for x in lo + up}
        free = [n for n in mine if n not in on]
        mine = [n for n in mine if n in on]
        avail = [(s, p) for p in range(12 + 2 * len(mine)) if (s, p) not in free]
        m.update(zip(mine, rng.sample(avail, len(mine))))
    u = t.rename(m)
    sign = 1
    if not keep_order:
        rng.shuffle(u.tensors)
        order = list(range(len(u.ops)))
        rng.shuffle(order)
        ferm = [k for k in order if spaces[u.ops[k][1]].field == "fermion"]
        sign = fock.perm_sign([sorted(ferm).index(k) for k in ferm])
        u.ops = [u.ops[k] for k in order]
    return u, sign


def signatures(tensors):
    """what tells tensors apart without looking at names: label, legs per space, shared indices with other tensors"""
    def spaces(x):
        return tuple(sorted(i[0] for i in x))

    def conn(mine, side, me):
        return tuple(sorted((t[0], spaces(set(mine) & set(t[side]))) for k, t in enumerate(tensors) if k != me))
    return [(l, spaces(lo), spaces(up), conn(lo, 2, k), conn(up, 1, k)) for k, (l, lo, up, _) in enumerate(tensors)]


def names(ctx, rng):
    """terms with distinguishable tensors"""
    w = ctx.w
    spaces = texpr.rand_spaces(rng, bosons=rng.choice([0, 0.3]), kmax=3)
    texpr.register(w, spaces)
    pool = [texpr.rand_index(rng, spaces, 6) for _ in range(rng.randint(2, 8))]
    labels = [l for l in texpr.LABELS if l != "delta"] if rng.random() < 0.8 else texpr.ALIKE
    t = texpr.rand_term(rng, spaces, ntens=(1, 4), nops=(0, 5), pool=pool, labels=labels, flag=rng.random() < 0.5)
    big = rng.random() < 0.08
    if big:
        # many tensors and indices
        pool = [(s, p) for s in range(len(spaces)) for p in rng.sample(range(40), rng.randint(6, 12))]
        t = texpr.PT(1, [(None, rng.sample(pool, rng.choice([0, 1, 2, 2, 3, 4])), rng.sample(pool, rng.choice([1, 2, 2, 3, 4])), None)
                         for _ in range(rng.randint(5, 9))], [(rng.random() < 0.5, *rng.choice(pool)) for _ in range(rng.randint(0, 9))], True)
        if rng.random() < 0.3:
            # few tensors with many legs, and long strings of operators
            pool = [(s, p) for s in range(len(spaces)) for p in range(60)]
            t = texpr.PT(1, [(None, rng.sample(pool, rng.randint(4, 30)), rng.sample(pool, rng.randint(4, 30)), None)
                             for _ in range(rng.randint(1, 3))], [(rng.random() < 0.5, *rng.choice(pool)) for _ in range(rng.randint(10, 50))], True)
        ctx.count("large_terms")
    if big or rng.random() < 0.5:
        labs = rng.sample(labels, len(t.tensors))
        t.tensors = [(l, lo, up, texpr.sym_of(l)) for l, (_, lo, up, _) in zip(labs, t.tensors)]
    else:
        # repeated labels: the tensors are told apart by their legs and by the tensors they share indices with
        labs = [rng.choice(labels)] * 3 + [rng.choice(labels)]
        for _ in range(20):
            if rng.random() < 0.6:
                # a chain of one-body tensors, some of them with more legs
                n = rng.randint(2, 4)
                s = rng.randrange(len(spaces))
                ps = rng.sample(range(8), n + 1)
                t.tensors = [(rng.choice(labs), [(s, ps[k])], [(s, ps[k + 1])], None) for k in range(n)]
                if rng.random() < 0.3:
                    t.tensors[0][rng.choice([1, 2])].append((s, ps[-1]))
            else:
                t.tensors = [(rng.choice(labs), [rng.choice(pool) for _ in range(rng.choice([0, 1, 1, 2]))],
                              [rng.choice(pool) for _ in range(rng.choice([0, 1, 1, 2]))], None)
                             for _ in range(rng.randint(2, 4))]
            t.tensors = [(l, list(dict.fromkeys(lo)), list(dict.fromkeys(up)), texpr.sym_of(l)) for l, lo, up, _ in t.tensors]
            if len(set(signatures(t.tensors))) == len(t.tensors) and all(lo or up for _, lo, up, _ in t.tensors):
                ctx.count("repeated_label_terms")
                break
        else:
            t.tensors = t.tensors[:1]
    on = list(dict.fromkeys(x for _, lo, up, _ in t.tensors for x in lo + up))
    if not on:
        t.ops = []
    # every operator index sits on a tensor; no fermionic operator twice
    seen, ops = set(), []
    for c, _, _ in t.ops:
        s, p = rng.choice(on)
        if (c, s, p) in seen and spaces[s].field == "fermion":
            continue
        seen.add((c, s, p))
        ops.append((c, s, p))
    t.ops = ops
    ctx.log(t.show(spaces))
    ref = None
    texts = set()
    for k in range(4):
        u, sign = disguise(rng, spaces, t)
        if k == 0:
            u, sign = t, 1
        e = texpr.expression(w, [u])
        texts.add(str(e))
        e.canonicalize()
        got = {x.key(): x.coef * sign for x in well_formed(ctx, w, e, "canonicalize()")}
        ctx.count("forms_compared")
        if ref is None:
            ref, first = got, str(e)
        elif got != ref:
            ctx.fail("name-dependent", "%s\nand\n%s (sign %+d)\nbecome\n%s\nand\n%s"
                     % (t.show(spaces), u.show(spaces), sign, first, e))
        if k:
            # the difference cancels
            u.coef = -u.coef * sign
            d = texpr.expression(w, [t, u])
            d.canonicalize()
            if len(d):
                ctx.fail("not-merged", "%s\nminus\n%s\ncanonicalizes to\n%s" % (t.show(spaces), u.show(spaces), d))
    return Result(("names", spaces, t.key()), len(texts) > 1 and len(t.tensors) + len(t.ops) > 2)


def opexpr(ctx, rng):
    w = ctx.w
    bos = rng.random() < 0.4
    if bos:
        return boson_opexpr(ctx, rng)
    general = rng.random() < 0.4
    spaces = gen.general_spaces(rng) if general else gen.sd_spaces(rng)
    gen.add_spaces(w, spaces)
    labels = [s.label for s in spaces]
    E = None
    for _ in range(rng.choice([1, 2, 3])):
        ops = []
        while len(ops) < 2:
            ops = gen.rand_product(rng, spaces, rng.choice([4, 6, 8]))
        if rng.random() < 0.5:
            rng.shuffle(ops)
        f = gen.rand_factor(rng)
        e = gen.scale(w, gen.make_product(w, spaces, ops), *f)
        E = e if E is None else E + e
        if rng.random() < 0.4:
            rng.shuffle(ops)
            E = E + gen.scale(w, gen.make_product(w, spaces, ops), -f[0], f[1])
    before = str(E)
    L = sem.opexpr(w, E, labels)
    E.canonicalize()
    R = sem.opexpr(w, E, labels)
    ctx.log("spaces %s\n%s\n-> \n%s" % ([(s.label, s.stype) for s in spaces], before, E))
    keys = [tuple(x[:3] for x in p) for _, p in R]
    if any(c == 0 for c, _ in R) or len(set(keys)) != len(keys):
        ctx.fail("opexpr-terms", "zero or repeated products after canonicalize()")
    m = fock.Model(spaces, rng)
    v = m.random_vector()
    strip = (lambda X: [(c, [o[:3] for o in p]) for c, p in X])
    a, b = m.apply_opexpr(strip(L), v), m.apply_opexpr(strip(R), v)
    ctx.count("operator_expressions_compared")
    if not (a == b).all():
        ctx.fail("opexpr-value", "canonicalize() changes the operator")
    return Result(("opexpr", before), bool(a.any()) and str(E) != before)


def boson_opexpr(ctx, rng):
    """products over bosonic and fermionic spaces, applied to occupation-number states"""
    w = ctx.w
    spaces = texpr.rand_spaces(rng, bosons=0.6, kmax=3, names=False)
    for s in spaces:
        s.n, s.stype = 2, "unoccupied"
    texpr.register(w, spaces)
    labels = [s.label for s in spaces]
    E = None
    for _ in range(rng.choice([1, 2])):
        prod = None
        for _ in range(rng.randint(2, 3)):
            cre, ann = gen.rand_counts(rng, spaces, rng.choice([0, 1, 1, 2]), rng.choice([0, 1, 1, 2]))
            o = w.op(rng.choice("ABC"), [gen.component(spaces, cre, ann)])
            prod = o if prod is None else prod @ o
        prod = gen.scale(w, prod, *gen.rand_factor(rng))
        E = prod if E is None else E + prod
    before = str(E)
    L = sem.opexpr(w, E, labels)
    E.canonicalize()
    R = sem.opexpr(w, E, labels)
    ctx.log("spaces %s\n%s\n-> \n%s" % (spaces, before, E))
    seed = rng.getrandbits(40)

    def apply(X, st):
        out = {}
        for c, prod in X:
            v = {st: fock.frac_mod(c)}
            for lab, cre, ann, _ in reversed(prod):
                new = {}
                types = [(True, s) for s, n in enumerate(cre) for _ in range(n)] + \
                        [(False, s) for s in range(len(ann) - 1, -1, -1) for _ in range(ann[s])]
                for orb in itertools.product((0, 1), repeat=len(types)):
                    val = hash((seed, lab, tuple(types), orb)) % P
                    string = [(t[0], t[1], o) for t, o in zip(types, orb)]
                    for s0, a in v.items():
                        r = act(spaces, string, s0)
                        if r:
                            new[r[0]] = (new.get(r[0], 0) + a * val * r[1]) % P
                v = new
            for k, a in v.items():
                out[k] = (out.get(k, 0) + a) % P
        return {k: a for k, a in out.items() if a}

    some = False
    for _ in range(3):
        st = tuple(((s, p), rng.randint(0, 2) if spaces[s].field == "boson" else rng.randint(0, 1))
                   for s in range(len(spaces)) for p in range(2))
        st = tuple((k, n) for k, n in st if n)
        a, b = apply(L, st), apply(R, st)
        some |= bool(a)
        ctx.count("operator_expressions_compared")
        if a != b:
            ctx.fail("opexpr-value-boson", "canonicalize() changes the operator\n%s\ninto\n%s" % (before, E))
    return Result(("bopexpr", before), some and str(E) != before)
