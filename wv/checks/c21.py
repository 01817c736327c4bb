"""Equal diagrams are merged; commutators contract to connected terms."""
import itertools
from fractions import Fraction

from wv import gen, sem, texpr
from wv.core import Result

VARIANTS = ["plain"]
CASES = {"quick": 20000, "thorough": 400000}
MIN_NONTRIVIAL = {"quick": 3000, "thorough": 40000}
RULE = ("products, sums, nested commutators and BCH series of random operators are contracted; every pair of terms with the same "
        "tensors is tested for being the same diagram by trying all assignments of equal tensors; every term of a "
        "commutator of even operators is tested for connectedness; commutators of an operator with itself, and of operators "
        "on disjoint spaces, must contract to nothing; non-trivial when at least one term has two or more tensors and was tested; "
        "distinct = distinct results")
ASSUMPTIONS = ["graph canonicalization is on (the default)", "up to six tensors with the same label in a term"]


def graph(t):
    """tensors as vertices; edges between slots (tensor, side, space); operators as vertices of their own kind"""
    ends = {}
    for k, x in enumerate(t.tensors):
        for i in x.up:
            ends.setdefault(i, []).append((k, "u"))
        for i in x.lo:
            ends.setdefault(i, []).append((k, "l"))
    for c, s, p in t.ops:
        ends.setdefault((s, p), []).append((-1, "+" if c else "-"))
    return ends


def colour(x):
    def cnt(ix):
        d = {}
        for s, _ in ix:
            d[s] = d.get(s, 0) + 1
        return tuple(sorted(d.items()))
    return (x.label, x.sym, cnt(x.up), cnt(x.lo))


def invariant(t):
    return (tuple(sorted(colour(x) for x in t.tensors)), tuple(sorted((c, s) for c, s, _ in t.ops)))


def diagram(t):
    """the smallest edge list over all orders of equal tensors: two terms have the same one
    exactly when they are the same diagram"""
    cols = [colour(x) for x in t.tensors]
    order = sorted(range(len(cols)), key=lambda k: cols[k])
    groups = [list(g) for _, g in itertools.groupby(order, key=lambda k: cols[k])]
    ends = graph(t)
    best = None
    for perm in itertools.product(*[itertools.permutations(g) for g in groups]):
        new = {-1: -1}
        for k in itertools.chain(*perm):
            new[k] = len(new) - 1
        e = sorted((ix[0], tuple(sorted((new[k], side) for k, side in es))) for ix, es in ends.items())
        if best is None or e < best:
            best = e
    return tuple(best)


def components(t):
    """number of connected components of the tensors"""
    par = list(range(len(t.tensors)))

    def find(x):
        while par[x] != x:
            x = par[x]
        return x
    for es in graph(t).values():
        ks = [k for k, _ in es if k >= 0]
        for k in ks[1:]:
            par[find(k)] = find(ks[0])
    return len({find(k) for k in range(len(par))})


def well_formed(ctx, t, what, labels):
    """each index of a contraction result appears exactly twice: tensor and tensor, or tensor and operator"""
    for ix, es in graph(t).items():
        if len(es) != 2:
            ctx.fail("index", "%s: the index %s%d appears %d times in %s" % (what, labels[ix[0]], ix[1], len(es), sem.show([t], labels)))


def examine(ctx, w, spaces, res, what, connected):
    labels = [s.label for s in spaces]
    ts = sem.terms(w, res)
    seen, nt = {}, False
    groups = {}
    for t in ts:
        well_formed(ctx, t, what, labels)
        groups.setdefault(invariant(t), []).append(t)
        if t.coef == 0:
            ctx.fail("zero", "%s: a term with coefficient zero" % what)
        if len(t.tensors) > 1:
            nt = True
        ctx.count("terms_examined")
        if connected and len(t.tensors) > 1:
            ctx.count("terms_tested_for_connectedness")
            n = components(t)
            if n != 1:
                ctx.fail("disconnected", "%s: the term\n%s\nhas %d unconnected parts\nresult:\n%s"
                         % (what, sem.show([t], labels), n, sem.show(ts, labels)))
        elif len(t.tensors) > 1 and components(t) > 1:
            ctx.count("disconnected_terms_of_products")
    for inv, g in groups.items():
        if len(g) < 2:
            continue
        ctx.count("groups_compared")
        seen = {}
        for t in g:
            ctx.top("equal_tensors", max(sum(1 for y in t.tensors if colour(y) == colour(x)) for x in t.tensors) if t.tensors else 0)
            d = diagram(t)
            if d in seen:
                ctx.fail("duplicate", "%s: the terms\n%s\nare the same diagram" % (what, sem.show([seen[d], t], labels)))
            seen[d] = t
    return ts, nt


def run_case(ctx, rng, i):
    w = ctx.w
    general = rng.random() < 0.45
    spaces = gen.general_spaces(rng) if general else gen.sd_spaces(rng)
    big = rng.random() < 0.1
    gen.add_spaces(w, spaces)
    ctx.log("spaces %s" % (spaces,))
    total = rng.choice([6, 6, 8]) if general else rng.choice([6, 8, 10, 12])
    mode = rng.choices(["product", "sum", "commutator", "nested", "bch", "self", "disjoint", "commuting"], [4, 3, 5, 4, 3, 1.5, 1.5, 2.5])[0]
    wt = w.WickTheorem()
    hi = rng.choice([0, 2, 4, 30, 30])
    if mode == "product":
        ops = gen.rand_product(rng, spaces, total)
        if rng.random() < 0.6:
            ops = same_labels(rng, ops)
        if not ops:
            return Result("empty", False)
        what = gen.show_product(spaces, ops)
        ctx.log(what)
        res = wt.contract(w.rational(1), gen.make_product(w, spaces, ops), 0, hi)
        ts, nt = examine(ctx, w, spaces, res, what, False)
        return Result(str(res), nt, what if nt else None)
    if mode == "sum":
        # A B + c B A and other sums whose contributions overlap
        ops = same_labels(rng, gen.rand_product(rng, spaces, total))
        if not ops:
            return Result("empty", False)
        perms = [ops, ops[::-1], rng.sample(ops, len(ops))]
        E = w.OperatorExpression()
        what = []
        for p in perms:
            c = rng.choice([1, -1, 2])
            E = E + w.rational(c) * gen.make_product(w, spaces, p)
            what.append("%d %s" % (c, gen.show_product(spaces, p)))
        what = " + ".join(what)
        ctx.log(what)
        res = wt.contract(w.rational(1), E, 0, hi)
        ts, nt = examine(ctx, w, spaces, res, what, False)
        return Result(str(res), nt, what if nt else None)
    if mode == "commuting":
        return commuting(ctx, rng, w)
    if mode == "self":
        A = operator(rng, w, spaces, 4 if general else 6, "A", rng.choice([1, 2, 3]))
        f = texpr.rat(w, texpr.rand_coef(rng))
        ctx.log("[%s, same]" % A[1])
        C = w.commutator(A[0], A[0]) if rng.random() < 0.5 else w.commutator(A[0], f * A[0])
        res = wt.contract(w.rational(1), C, 0, hi)
        ctx.count("self_commutators")
        if len(res):
            ctx.fail("self", "[A, A] with A = %s contracts to\n%s" % (A[1], res))
        return Result(("self", A[1]), True)
    if mode == "disjoint":
        ks = list(range(len(spaces)))
        if len(ks) < 2:
            return Result("one space", False)
        rng.shuffle(ks)
        cut = rng.randint(1, len(ks) - 1)
        A = operator(rng, w, spaces, 4, "A", 2, ks[:cut])
        B = operator(rng, w, spaces, 4, "B", 2, ks[cut:], even=False) if rng.random() < 0.3 else operator(rng, w, spaces, 4, "B", 2, ks[cut:])
        ctx.log("[%s, %s]" % (A[1], B[1]))
        res = wt.contract(w.rational(1), w.commutator(A[0], B[0]), 0, hi)
        ctx.count("disjoint_commutators")
        if len(res):
            ctx.fail("disjoint", "[%s, %s] contracts to\n%s" % (A[1], B[1], res))
        return Result(("disjoint", A[1], B[1]), True)
    # connected: nested commutators of even operators
    depth = {"commutator": 2, "nested": rng.choice([3, 3, 4]), "bch": 2}[mode]
    order = rng.choice([1, 2, 3]) if mode == "bch" else 1
    left, objs = total, []
    labels = rng.choice([["A", "B", "C", "D"], ["A", "B", "B", "B"], ["T", "T", "T", "T"], ["V", "T", "T", "V"]])
    for k in range(depth):
        room = (left - 2 * (depth - 1 - k) * (order if k == 0 else 1)) // (order if k == 1 else 1)
        m = max(2, min(6, room - room % 2))
        if objs and rng.random() < 0.3 and legs(objs[-1]) <= m:
            objs.append(objs[-1])
        else:
            objs.append(operator(rng, w, spaces, m, labels[k], rng.choice([1, 1, 2, 3])))
        left -= legs(objs[-1]) * (order if k == 1 else 1)
        if left < 2:
            break
    if len(objs) < 2:
        return Result("small", False)
    what = "%s of %s" % (mode, ", ".join(o[1] for o in objs))
    ctx.log(what)
    if mode == "bch":
        # the first term of the series is A itself; the others are commutators: all are connected
        E = w.bch_series(objs[0][0], objs[1][0], order)
        what += " order %d" % order
    else:
        E = w.commutator(*[o[0] for o in objs])
    res = wt.contract(w.rational(1), E, 0, hi)
    ts, nt = examine(ctx, w, spaces, res, what, True)
    return Result(str(res), nt, what if nt else None)


def commuting(ctx, rng, w):
    """excitations (anti)commute: H T S and H S T are the same diagrams, whatever the number of contractions"""
    spaces = gen.sd_spaces(rng)
    w.reset_space()
    gen.add_spaces(w, spaces)
    # what excites: creators of unoccupied and annihilators of occupied spaces
    def excitation(n):
        c, a = [0] * len(spaces), [0] * len(spaces)
        for _ in range(n):
            k = rng.randrange(len(spaces))
            (a if spaces[k].stype == "occupied" else c)[k] += 1
        return c, a
    n = rng.choice([2, 2, 3, 3, 4, 5])
    most = rng.choice([3, 5, 6, 7]) if n < 4 else 2 * n
    same = rng.random() < 0.3 if n < 4 else rng.random() < 0.6
    T, left = [], most
    for k in range(n):
        m = rng.randint(1, max(1, min(4, left - (n - 1 - k)))) if n < 4 else rng.choice([1, 2, 2, 2, 2])
        T.append((rng.choice("TSX") if not same else "T", *(excitation(m) if not T or n < 4 or rng.random() < 0.4 else T[0][1:])))
        left -= m
        if left <= 0 or left < n - 1 - k:
            break
    # the square of an odd operator is zero, which the diagrams do not show
    T = [("%s%d" % (l, k) if sum(c + a) % 2 else l, c, a) for k, (l, c, a) in enumerate(T)]
    if len(T) < 2:
        return Result("small", False)
    # H contracts with some or all of their legs
    hc, ha = [0] * len(spaces), [0] * len(spaces)
    for _, c, a in T:
        for k in range(len(spaces)):
            hc[k] += sum(rng.random() < 0.9 for _ in range(a[k]))
            ha[k] += sum(rng.random() < 0.9 for _ in range(c[k]))
    if rng.random() < 0.3:
        e = excitation(1)
        hc = [x + y for x, y in zip(hc, e[0])]
        ha = [x + y for x, y in zip(ha, e[1])]
    # (the number of graphs is the number of operators factorial times the number of contractions factorial)
    most = {5: 5, 6: 4}.get(len(T) + 1, 9)
    while sum(hc + ha) > most:
        k = rng.randrange(len(spaces))
        which = rng.choice([hc, ha])
        which[k] = max(which[k] - 1, 0)
    if sum(hc + ha) == 0:
        return Result("small", False)
    ctx.top("commuting_operators", len(T))
    adj = rng.random() < 0.3        # de-excitations to the left
    ctx.log("H {%s} with %s%s" % (gen.component(spaces, hc, ha), gen.show_product(spaces, T), " adjoint" if adj else ""))
    # the total rank changes: only the sign of odd excitations matters
    P = list(range(len(T)))
    rng.shuffle(P)
    odd = [sum(c + a) % 2 for _, c, a in T]
    sign = 1
    for x in range(len(P)):
        for y in range(x + 1, len(P)):
            if P[x] > P[y] and odd[P[x]] and odd[P[y]]:
                sign = -sign
    H = ("H", hc, ha)
    one, two = [H] + T, [H] + [T[k] for k in P]
    if adj:
        one, two = ([(l, a, c) for l, c, a in x[::-1]] for x in (one, two))
    E = gen.make_product(w, spaces, one) - w.rational(sign) * gen.make_product(w, spaces, two)
    wt = w.WickTheorem()
    tot = sum(hc + ha) + sum(sum(c + a) for _, c, a in T)
    full = sum(min(hc[k], sum(a[k] for _, c, a in T)) + min(ha[k], sum(c[k] for _, c, a in T)) for k in range(len(spaces)))
    lo = tot - 2 * full if rng.random() < 0.7 else 0
    hi = tot - 2 * full + (rng.choice([0, 2]) if full <= 5 else 0)
    res = wt.contract(w.rational(1), E, lo, hi)
    ctx.count("commuting_products")
    ctx.top("contractions_of_a_diagram", full)
    if len(res):
        ctx.fail("commuting", "%s\nwith sign %d minus\n%s\nranks %d to %d contracts to\n%s"
                 % (gen.show_product(spaces, one), sign, gen.show_product(spaces, two), lo, hi, res))
    one = wt.contract(w.rational(1), gen.make_product(w, spaces, one), lo, hi)
    ts, nt = examine(ctx, w, spaces, one, "product", False)
    return Result(ctx.trace, nt and P != sorted(P), None)


def legs(o):
    return o[2]


def same_labels(rng, ops):
    """operators with equal tensors give diagrams that differ by a permutation of the tensors"""
    if not ops:
        return ops
    l = rng.choice(["T", "V", "x"])
    return [(l if rng.random() < 0.8 else m, c, a) for m, c, a in ops]


def operator(rng, w, spaces, maxops, label, ncomp, only=None, even=True):
    """(object, text, legs): a sum of components that have even numbers of operators"""
    sub = only if only is not None else list(range(len(spaces)))
    comps, text = [], []
    for _ in range(12):
        nc, na = rng.choice([(1, 1), (1, 1), (2, 2), (2, 2), (3, 3), (2, 0), (0, 2), (3, 1), (1, 3)])
        if not even and rng.random() < 0.5:
            nc, na = rng.choice([(1, 0), (0, 1), (2, 1)])
        if nc + na > maxops:
            continue
        c, a = gen.rand_counts(rng, [spaces[k] for k in sub], nc, na)
        cc, aa = [0] * len(spaces), [0] * len(spaces)
        for k, x, y in zip(sub, c, a):
            cc[k], aa[k] = x, y
        if sum(cc) + sum(aa) == 0 or (sum(cc) + sum(aa)) % 2 and even or (cc, aa) in comps:
            continue
        comps.append((cc, aa))
        if len(comps) == ncomp:
            break
    if not comps:
        k = sub[0]
        cc, aa = [0] * len(spaces), [0] * len(spaces)
        cc[k] = aa[k] = 1
        comps = [(cc, aa)]
    names = [gen.component(spaces, c, a) for c, a in comps]
    return w.op(label, names), " + ".join("%s{%s}" % (label, n) for n in names), max(sum(c) + sum(a) for c, a in comps)
