"""Integer partitions and index sorting are correct."""
import functools

from wv import fock, sem, texpr
from wv.core import Result

VARIANTS = ["plain"]
GRID = [(n, m) for n in range(0, 31) for m in range(0, n + 3)]
CASES = {"quick": len(GRID) + 60000, "thorough": len(GRID) + 500000}
MIN_NONTRIVIAL = {"quick": 15000, "thorough": 200000}
RULE = ("integer_partitions(n, m) is compared with an independent enumeration for every n up to 30 and m up to n+2, and for "
        "random larger arguments; lists of indices (sorted, reversed, rotated, random; up to 300 entries, with and without "
        "repetitions) are sorted in both directions and compared with Python's order and the parity counted by inversions; "
        "non-trivial when the list was not sorted or the partition set has more than one element; distinct = distinct arguments")
ASSUMPTIONS = ["n <= 42", "for lists with repeated indices only the order is defined, the sign is one of +1, -1"]


@functools.lru_cache(maxsize=None)
def parts(n, m, top):
    """non-increasing sequences of integers in 1..top with sum n and at most m terms"""
    if n == 0:
        return frozenset([()])
    if m == 0:
        return frozenset()
    return frozenset((k,) + r for k in range(1, min(n, top) + 1) for r in parts(n - k, m - 1, k))


def check_partitions(ctx, n, m):
    w = ctx.w
    ctx.log("integer_partitions(%d, %d)" % (n, m))
    got = [tuple(p) for p in w.integer_partitions(n, m)]
    want = parts(n, m, max(n, 1))
    ctx.count("partitions_compared", len(got))
    if n == 0:
        # the empty sequence is the partition of zero; an empty list is accepted too
        if got not in ([()], []):
            ctx.fail("partitions", "integer_partitions(0, %d) is %s" % (m, got))
        return False
    if len(set(got)) != len(got):
        ctx.fail("partitions", "integer_partitions(%d, %d) contains a partition twice" % (n, m))
    if set(got) != want:
        d = sorted(set(got) ^ want)[:3]
        ctx.fail("partitions", "integer_partitions(%d, %d): %d partitions, expected %d, e.g. %s" % (n, m, len(got), len(want), d))
    return len(got) > 1


def inversions(seq):
    return sum(1 for i in range(len(seq)) for j in range(i + 1, len(seq)) if seq[i] > seq[j])


def run_case(ctx, rng, i):
    w = ctx.w
    if i < len(GRID):
        n, m = GRID[i]
        return Result(("grid", n, m), check_partitions(ctx, n, m))
    if rng.random() < 0.01:
        n = rng.randint(31, 42)
        m = rng.choice([1, 2, 3, 5, n - 1, n, n + 5, 2 * n])
        return Result(("partitions", n, m), check_partitions(ctx, n, m))
    spaces = texpr.rand_spaces(rng)
    texpr.register(w, spaces)
    size = rng.choice([0, 1, 2, 3, 4, 6, 9, 15, 40, 60] if rng.random() < 0.99 else [130, 300])
    pmax = rng.choice([2, 5, 20, 1000])
    ix = [(rng.randrange(len(spaces)), rng.randrange(pmax)) for _ in range(size)]
    if rng.random() < 0.7:
        ix = list(dict.fromkeys(ix))
    kind = rng.random()
    if kind < 0.1:
        ix.sort()
    elif kind < 0.2:
        ix.sort(reverse=True)
    elif kind < 0.35 and ix:
        ix.sort()
        k = rng.randrange(len(ix))
        ix = ix[k:] + ix[:k]
    elif kind < 0.45 and len(ix) > 1:
        ix.sort()
        a, b = rng.sample(range(len(ix)), 2)
        ix[a], ix[b] = ix[b], ix[a]
    reverse = rng.random() < 0.5
    ctx.log("canonicalize_indices(%s, %s)" % (ix, reverse))
    arg = [w.Index(*x) for x in ix]
    sign, out = w.canonicalize_indices(arg, reverse)
    got = [(x.space(), x.pos()) for x in out]
    s = sem.q(sign)
    ctx.count("lists_sorted")
    if got != sorted(ix, reverse=reverse):
        ctx.fail("order", "%s sorted (reverse=%s) is %s" % (ix, reverse, got))
    if s not in (1, -1):
        ctx.fail("sign", "the sign of sorting %s is %s" % (ix, s))
    if len(set(ix)) == len(ix):
        inv = inversions(ix if not reverse else [(-a, -b) for a, b in ix])
        if s != (-1) ** inv:
            ctx.fail("sign", "the sign of sorting %s (reverse=%s, %d inversions) is %s" % (ix, reverse, inv, s))
    if [(x.space(), x.pos()) for x in arg] != ix:
        ctx.fail("argument", "the list passed in was modified")
    # sorting the sorted list changes nothing
    s2, out2 = w.canonicalize_indices(out, reverse)
    if [(x.space(), x.pos()) for x in out2] != got or (len(set(ix)) == len(ix) and sem.q(s2) != 1):
        ctx.fail("idempotent", "sorting the sorted list %s gives %s with sign %s" % (got, out2, s2))
    return Result((ix, reverse), ix != got)
