"""Orders and equality of indices and operators are consistent."""
import functools

from wv import texpr
from wv.core import Result

VARIANTS = ["plain"]
CASES = {"quick": 20000, "thorough": 300000}
MIN_NONTRIVIAL = {"quick": 8000, "thorough": 100000}
RULE = ("for random sets of 4-14 indices and operators over random spaces (fermions and bosons, all types) every pair is compared "
        "with <, == and both operator orders: exactly one of a<b, a==b, b<a holds, the relation is transitive, equals the order "
        "stated for creators and annihilators (and quasiparticle creators and annihilators), and sorting any permutation gives "
        "the same list; non-trivial when the set has both kinds of operators over two spaces; distinct = distinct sets")
ASSUMPTIONS = ["operators of general spaces count as quasiparticle creators when they are creators"]


def run_case(ctx, rng, i):
    w = ctx.w
    spaces = texpr.rand_spaces(rng) if rng.random() < 0.9 else texpr.rand_spaces(rng, kmax=40, names=False)
    texpr.register(w, spaces)
    ctx.log("spaces %s" % spaces)
    pmax = rng.choice([2, 3, 12, 2 ** 31 - 1])
    n = rng.randint(4, 14)
    ix = [(rng.randrange(len(spaces)), rng.randrange(pmax)) for _ in range(n)]
    ix += [rng.choice(ix) for _ in range(2)]
    ops = [(rng.random() < 0.5, *rng.choice(ix)) for _ in range(n)]
    ops += [rng.choice(ops), (not ops[0][0], *ops[0][1:])]

    def vac(o):
        return (0, o[1], o[2]) if o[0] else (1, -o[1], -o[2])

    def qp(o):
        cre = (not o[0]) if spaces[o[1]].stype == "occupied" else o[0]
        return (0, o[1], o[2]) if cre else (1, -o[1], -o[2])

    I = [w.Index(*x) for x in ix]
    O = [texpr.sqop(w, o) for o in ops]
    relation(ctx, "index", I, ix, lambda a, b: a < b, lambda x: x, rng)
    relation(ctx, "vacuum", O, ops, lambda a, b: a < b, vac, rng)
    relation(ctx, "quasiparticle", O, ops, lambda a, b: a.normal_ordered_less(b), qp, rng)
    kinds = {o[0] for o in ops}
    return Result((spaces, ix, ops), len(kinds) == 2 and len({o[1] for o in ops}) > 1)


def relation(ctx, what, objs, keys, less, key, rng):
    n = len(objs)
    L = [[bool(less(a, b)) for b in objs] for a in objs]
    E = [[bool(a == b) for b in objs] for a in objs]
    ctx.count(what + "_pairs", n * n)
    for a in range(n):
        for b in range(n):
            if E[a][b] is not (keys[a] == keys[b]) or bool(objs[a] != objs[b]) is E[a][b]:
                ctx.fail(what + "-equality", "%s == %s is %s" % (objs[a], objs[b], E[a][b]))
            if L[a][b] + L[b][a] + E[a][b] != 1:
                ctx.fail(what + "-total", "%s and %s: <: %s, >: %s, ==: %s" % (objs[a], objs[b], L[a][b], L[b][a], E[a][b]))
            if L[a][b] is not (key(keys[a]) < key(keys[b])):
                ctx.fail(what + "-order", "%s < %s is %s in the %s order" % (objs[a], objs[b], L[a][b], what))
    for a in range(n):
        for b in range(n):
            if L[a][b]:
                for c in range(n):
                    if L[b][c] and not L[a][c]:
                        ctx.fail(what + "-transitive", "%s < %s < %s but not %s < %s"
                                 % (objs[a], objs[b], objs[c], objs[a], objs[c]))
    p = list(range(n))
    rng.shuffle(p)
    s = sorted(p, key=functools.cmp_to_key(lambda a, b: -1 if less(objs[a], objs[b]) else (1 if less(objs[b], objs[a]) else 0)))
    if [keys[k] for k in s] != sorted(keys, key=key):
        ctx.fail(what + "-sort", "sorting gives %s" % [str(objs[k]) for k in s])
