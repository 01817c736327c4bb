"""The symbolic Wick oracle: the contractions of a product of operators counted as diagrams.

A product of operators whose legs are (operator, creator or annihilator, space) contracts to one diagram for each multiset of
blocks (pairs and cumulants) of legs. Written with the legs in the order of the tensors, the sign of a term is the parity of
the permutation from the order of the legs in the product to their order in the blocks, so that sign times coefficient is
always the number of ways to choose the legs over the factorials of the operators: it depends on the diagram only."""
import itertools
from collections import Counter
from fractions import Fraction
from math import factorial


class TooMany(Exception):
    pass


def parity_of(seq, ref):
    """parity of the permutation that takes ref to seq"""
    pos = {x: k for k, x in enumerate(ref)}
    p = [pos[x] for x in seq]
    seen, s = [False] * len(p), 1
    for k in range(len(p)):
        n = 0
        while not seen[k]:
            seen[k] = True
            k = p[k]
            n += 1
        if n and n % 2 == 0:
            s = -s
    return s


def blocks_of(ops, stypes, maxcum):
    """all elementary contractions: (kind, sorted tuple of legs)"""
    n, res = len(ops), []
    for s, st in enumerate(stypes):
        if st in ("occupied", "unoccupied"):
            for i, j in itertools.combinations(range(n), 2):
                # the creator is to the left for occupied spaces
                (ci, ai) = (i, j) if st == "occupied" else (j, i)
                if ops[ci][1][s] and ops[ai][2][s]:
                    res.append(("pair", tuple(sorted([(ci, 0, s), (ai, 1, s)]))))
            continue
        top = min(sum(o[1][s] for o in ops), sum(o[2][s] for o in ops), maxcum)

        def choose(which, h):
            out = []

            def rec(k, left, acc):
                if k == n:
                    if left == 0:
                        out.append(tuple(acc))
                    return
                for m in range(min(left, ops[k][which][s]) + 1):
                    rec(k + 1, left - m, acc + [m])
            rec(0, h, [])
            return out
        for h in range(1, top + 1):
            for c in choose(1, h):
                for a in choose(2, h):
                    if sum(x + y > 0 for x, y in zip(c, a)) < 2:
                        continue
                    legs = tuple(sorted([(k, 0, s) for k in range(n) for _ in range(c[k])] + [(k, 1, s) for k in range(n) for _ in range(a[k])]))
                    if h == 1:
                        kind = "gamma1" if c.index(1) < a.index(1) else "eta1"
                    else:
                        kind = "lambda%d" % h
                    res.append((kind, legs))
    return res


def weight(blocks, rest):
    w = Fraction(1)
    for _, legs in blocks:
        for m in Counter(legs).values():
            w /= factorial(m)
    for m in Counter(rest).values():
        w /= factorial(m)
    for m in Counter(blocks).values():
        w /= factorial(m)
    return w


def symmetries(ops):
    """the permutations of equal operators"""
    groups = {}
    for k, o in enumerate(ops):
        groups.setdefault(o, []).append(k)
    res = []
    for perms in itertools.product(*[itertools.permutations(g) for g in groups.values()]):
        to = {}
        for g, p in zip(groups.values(), perms):
            to.update(zip(g, p))
        res.append(to)
    return res


def canonical(blocks, rest, syms):
    best = None
    for to in syms:
        b = (tuple(sorted((kind, tuple(sorted((to[k], x, s) for k, x, s in legs))) for kind, legs in blocks)),
             tuple(sorted((to[k], x, s) for k, x, s in rest)))
        if best is None or b < best:
            best = b
    return best


def expected(ops, stypes, lo, hi, maxcum=1000, limit=4000, syms=None, ident=None):
    """({diagram: coefficient}, number of contractions of any rank, most blocks); ident names the operators in the diagrams"""
    ident = ident or list(range(len(ops)))
    syms = syms or symmetries(ops)
    elem = blocks_of(ops, stypes, maxcum)
    if len(elem) > limit:
        raise TooMany()
    free = Counter()
    for k, (_, c, a) in enumerate(ops):
        for s in range(len(stypes)):
            if c[s]:
                free[(k, 0, s)] = c[s]
            if a[s]:
                free[(k, 1, s)] = a[s]
    need = [Counter(legs) for _, legs in elem]
    res, state = {}, [0, 0]

    def rec(first, chosen):
        state[0] += 1
        state[1] = max(state[1], len(chosen))
        if state[0] > limit:
            raise TooMany()
        rank = sum(free.values())
        if lo <= rank <= hi:
            bl = [elem[e] for e in chosen]
            rest = list(free.elements())
            d = canonical([(kind, [(ident[k], x, s) for k, x, s in legs]) for kind, legs in bl], [(ident[k], x, s) for k, x, s in rest], syms)
            res[d] = res.get(d, 0) + weight(bl, rest)
        for e in range(first, len(elem)):
            if all(free[x] >= m for x, m in need[e].items()):
                free.subtract(need[e])
                rec(e, chosen + [e])
                free.update(need[e])
    rec(0, [])
    return res, state[0], state[1]


class Unreadable(Exception):
    pass


def read(t, ops, stypes, syms):
    """(diagram, sign times coefficient) of a term"""
    todo = {}
    for k, (l, c, a) in enumerate(ops):
        todo.setdefault((l, c, a), []).append(k)
    at, order = {}, {}                # index -> legs;  operator -> legs in the order of the product
    cum = []
    ns = len(stypes)
    names = {o[0] for o in ops}

    def counts(ix):
        c = [0] * ns
        for s, _ in ix:
            c[s] += 1
        return tuple(c)
    for x in t.tensors:
        if x.label not in names:
            cum.append(x)
            continue
        g = todo.get((x.label, counts(x.lo), counts(x.up)))
        if not g:
            raise Unreadable("the tensor %s is not one of the product" % (x,))
        k = g.pop(0)
        seq = [(k, 0, *i) for i in x.lo] + [(k, 1, *i) for i in reversed(x.up)]
        if len(set(seq)) != len(seq):
            raise Unreadable("an index is repeated on the tensor %s" % (x,))
        order[k] = seq
        for leg in seq:
            at.setdefault(leg[2:], []).append(leg)
    if any(todo.values()):
        raise Unreadable("a tensor of the product is missing")
    W, blocks, used = [], [], set()

    def one(i, cre, what):
        ls = at.get(i, [])
        if len(ls) != 1 or ls[0][1] != (0 if cre else 1) or ls[0] in used:
            raise Unreadable("the index %s of %s does not match" % (i, what))
        used.add(ls[0])
        return ls[0]
    for x in cum:
        h = len(x.up)
        sp = {s for s, _ in x.up + x.lo}
        if h != len(x.lo) or len(sp) != 1 or stypes[min(sp)] != "general" or x.label not in (("gamma1", "eta1") if h == 1 else ("lambda%d" % h,)):
            raise Unreadable("unexpected tensor %s" % (x,))
        c = [one(i, True, x.label) for i in x.up]
        a = [one(i, False, x.label) for i in reversed(x.lo)]
        W += a + c if x.label == "eta1" else c + a
        blocks.append((x.label, tuple(sorted(l[:3] for l in c + a))))
    rest = [one((s, p), c, "an operator") for c, s, p in t.ops]
    for i, ls in at.items():
        if len(ls) == 1:
            if ls[0] not in used:
                raise Unreadable("the index %s is not contracted" % (i,))
            continue
        if len(ls) != 2 or any(l in used for l in ls) or ls[0][1] == ls[1][1] or stypes[i[0]] == "general" or ls[0][0] == ls[1][0]:
            raise Unreadable("the index %s occurs in %s" % (i, ls))
        c, a = sorted(ls, key=lambda l: l[1])
        W += [c, a] if stypes[i[0]] == "occupied" else [a, c]
        blocks.append(("pair", tuple(sorted((c[:3], a[:3])))))
    P = [leg for k in range(len(ops)) for leg in order[k]]
    s = parity_of(W + rest, P)
    return canonical(blocks, [l[:3] for l in rest], syms), s * t.coef


def compare(ctx, ts, ops, stypes, want, factor, what, show, key="diagrams"):
    """the terms are the wanted diagrams times the factor"""
    syms = symmetries(ops)
    got = {}
    for t in ts:
        try:
            d, c = read(t, ops, stypes, syms)
        except Unreadable as e:
            ctx.fail(key, "%s: %s in the term\n%s" % (what, e, show([t])))
        got[d] = got.get(d, 0) + c
        ctx.count("diagrams_compared")
    for d in set(got) | set(want):
        if got.get(d, 0) != want.get(d, 0) * factor:
            ctx.fail(key, "%s: the diagram %s has the weight %s instead of %s (%d diagrams are found, %d expected)"
                     % (what, d, got.get(d, 0), want.get(d, 0) * factor, len(got), len(want)))


NAMES = list("ABCDEFGHTVXYZW")


def random_product(rng, spaces):
    """products with many factors, many legs or many contractions; odd operators have labels of their own"""
    from wv import gen
    k = len(spaces)
    mode = rng.choice(["any", "any", "short", "short", "wide", "ladder"])
    if mode == "any":
        ops = gen.rand_product(rng, spaces, rng.choice([6, 8, 10, 12, 14]))
    elif any(s.stype == "general" for s in spaces) and rng.random() < 0.12:
        # a factor with many legs and one factor for each of them: cumulants over many operators
        g = rng.choice([j for j, s in enumerate(spaces) if s.stype == "general"])
        n = rng.choice([3, 4, 5, 5, 6])
        one = tuple(int(j == g) for j in range(k))
        none = (0,) * k
        ops = [("T", one, none) if rng.random() < 0.9 else ("T", none, one) for _ in range(n)]
        top = rng.randint(n - 1, n)
        ops.insert(rng.randint(0, n), ("T", none, tuple(top * x for x in one)))
        if rng.random() < 0.5:
            ops = [("T", a, c) for _, c, a in ops]
    else:
        sub = list(range(k)) if k < 4 else sorted(rng.sample(range(k), rng.choice([1, 2, 2, 3])))
        if mode == "short":
            # many factors of one to three operators
            n, legs = rng.choice([(3, 3), (4, 2), (4, 3), (5, 2), (5, 2), (6, 2), (6, 1), (7, 1), (8, 1), (10, 1), (12, 1)])
        elif mode == "wide":
            n, legs = rng.choice([(2, 8), (2, 10), (2, 14), (3, 6), (3, 7)])
        else:
            n, legs = 2, 0
        ops = []
        for _ in range(n):
            c, a = [0] * k, [0] * k
            for _ in range(rng.randint(max(1, legs - 2 if mode == "wide" else 1), legs) if legs else 0):
                rng.choice([c, a])[rng.choice(sub)] += 1
            ops.append(("T", tuple(c), tuple(a)))
        if mode == "ladder" or mode == "wide" and rng.random() < 0.6:
            # mostly the adjoint of the first operators
            c, a = [0] * k, [0] * k
            if mode == "ladder":
                up = rng.random() < 0.5
                for _ in range(rng.randint(3, 8)):
                    x = rng.choice(sub)
                    (c if (spaces[x].stype == "occupied") == up or spaces[x].stype == "general" and rng.random() < 0.2 else a)[x] += 1
                ops[0] = ("T", tuple(c), tuple(a))
            ops[-1] = ("T", ops[0][2], ops[0][1])
    odd = any(sum(c + a) % 2 for _, c, a in ops)
    style = 1.0 if odd else rng.random()
    return [(NAMES[j] if style > 0.5 else "T" if style > 0.25 else rng.choice("TS"), tuple(c), tuple(a)) for j, (_, c, a) in enumerate(ops)]


def case(ctx, rng, spaces, general, limit=1200):
    """contract a product and compare with the counted diagrams; (signature, nontrivial)"""
    from wv import gen, sem
    w = ctx.w
    st = [s.stype for s in spaces]
    cum = rng.choice([1000, 1000, 1, 2, 3, 4]) if general else 1000
    for _ in range(20):
        ops = random_product(rng, spaces)
        tot = sum(sum(c) + sum(a) for _, c, a in ops)
        if not ops or len(symmetries(ops)) > 24:
            continue
        lo = rng.choice([0, 0, 0, 0, 1, 2, 4])
        hi = rng.choice([lo, lo + 2, tot, tot, tot + 2])
        try:
            want, n, nb = expected(ops, st, lo, hi, cum, limit)
        except TooMany:
            ctx.count("products_too_long")
            continue
        if n > 3:
            break
    else:
        return None
    prods = [(1, list(range(len(ops))))]
    if rng.random() < 0.3 and not any(sum(c + a) % 2 for _, c, a in ops):
        # the same (even) operators in other orders: their diagrams are added up or cancel
        syms = symmetries(ops)
        for _ in range(rng.choice([1, 1, 2])):
            perm = rng.sample(range(len(ops)), len(ops)) if len(ops) > 2 and rng.random() < 0.7 else list(range(len(ops)))[::-1]
            c = rng.choice([-1, -1, 1, 2])
            try:
                more, m, b = expected([ops[k] for k in perm], st, lo, hi, cum, limit, syms, perm)
            except TooMany:
                continue
            n, nb = n + m, max(nb, b)
            prods.append((c, perm))
            for d, x in more.items():
                want[d] = want.get(d, 0) + c * x
        ctx.count("sums_counted", int(len(prods) > 1))
    f = gen.rand_factor(rng)
    wt = w.WickTheorem()
    wt.set_single_threaded(rng.random() < 0.5)
    canon = factorial(len(ops)) * factorial(nb) * n < 60000 and rng.random() < 0.85
    wt.do_canonicalize_graph(canon)
    if cum < 1000:
        wt.set_max_cumulant(cum)
    E = None
    for c, perm in prods:
        e = gen.make_product(w, spaces, [ops[k] for k in perm])
        e = e if c == 1 else w.rational(c) * e
        E = e if E is None else E + e
    what = "%s, factor %s, contract(%d, %d), max. cumulant %d, canonicalization %s, spaces %s" % (
        " + ".join("%d %s" % (c, gen.show_product(spaces, [ops[k] for k in perm])) for c, perm in prods), f, lo, hi, cum, canon, [(s.label, s.stype) for s in spaces])
    ctx.log(what)
    ts = sem.terms(w, wt.contract(w.rational(*f), E, lo, hi))
    compare(ctx, ts, ops, st, want, Fraction(*f), what, lambda x: sem.show(x, [s.label for s in spaces]))
    ctx.count("products_counted")
    ctx.count("products_counted_with_graphs", int(canon))
    ctx.top("diagrams_of_a_product", len(want))
    ctx.top("contractions_of_a_product", n)
    ctx.top("blocks", nb)
    ctx.top("counted_operators", tot)
    ctx.top("counted_factors", len(ops))
    return (st, lo, hi, cum, ops), len(want) > 2
