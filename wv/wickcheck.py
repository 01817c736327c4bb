"""The Wick oracle shared by several checks."""
from fractions import Fraction

import numpy as np

from wv import fock, gen, sem
from wv.core import Inconclusive


def rank_of(term):
    return len(term.ops)


def check_full(ctx, spaces, opexpr, result, factor, rng, what, key="wick-value"):
    """result (all ranks) equals factor * opexpr as an operator on the whole Fock space"""
    m = fock.Model(spaces, rng)
    ts = sem.terms(ctx.w, result)
    cost = 0
    for types in {tuple((o[0], o[1]) for o in t.ops) for t in ts}:
        c = 1
        for _, s in types:
            c *= spaces[s].n
        cost += c
    if cost > 6_000_000:
        raise Inconclusive("uncontracted strings too long for the oracle (%d)" % cost)
    check_terms(ctx, spaces, ts)
    v = m.random_vector()
    L = m.apply_opexpr(opexpr, v) * fock.frac_mod(factor) % fock.P
    R = m.apply_expression(ts, v)
    ctx.count("operator_identities_compared")
    ctx.count("terms_evaluated", len(ts))
    if not (L == R).all():
        ctx.fail(key, "%s\nthe expression differs from the operator product on %d of %d Fock states\nresult:\n%s"
                 % (what, int((L != R).sum()), m.D, sem.show(ts, [s.label for s in spaces])))
    return ts, bool(L.any())


def check_terms(ctx, spaces, ts):
    """shape of a contraction result: known tensors, every index in range, each contracted"""
    for t in ts:
        if t.coef == 0:
            ctx.fail("zero-term", "a term with zero coefficient was returned")
        for x in t.tensors:
            for s, p in list(x.up) + list(x.lo):
                if not (0 <= s < len(spaces)) or p < 0:
                    ctx.fail("bad-index", "index (%d,%d) in %s" % (s, p, x.label))


def reference_columns(m, spaces):
    """basis vectors |Phi> x |general config>, and the trace weights of the general spaces"""
    base = 0
    gen_bits = []
    for k, s in enumerate(spaces):
        if s.stype == "occupied":
            for b in range(s.n):
                base |= 1 << (m.off[k] + b)
        elif s.stype == "general":
            gen_bits.append(k)
    return base, gen_bits


def check_reference(ctx, spaces, opexpr, result, factor, lo, hi, rng, what, key="wick-reference"):
    """single-determinant case: result (ranks lo..hi) against factor*opexpr|Phi>, rank by rank"""
    m = fock.Model(spaces, rng)
    ts = sem.terms(ctx.w, result)
    check_terms(ctx, spaces, ts)
    base, g = reference_columns(m, spaces)
    assert not g
    v = np.zeros((m.D, 1), dtype=np.int64)
    v[base, 0] = 1
    L = m.apply_opexpr(opexpr, v) * fock.frac_mod(factor) % fock.P
    x = np.arange(m.D)
    exc = np.zeros(m.D, dtype=np.int64)
    for b in range(m.N):
        exc += ((x ^ base) >> b) & 1
    L[(exc < lo) | (exc > hi)] = 0
    pure = []
    for t in ts:
        if not (lo <= len(t.ops) <= hi):
            ctx.fail("rank-window", "%s\na term with %d operators was returned for the window %d..%d\n%s"
                     % (what, len(t.ops), lo, hi, sem.show([t], [s.label for s in spaces])))
        if all(m._is_qcre(c, s) for c, s, _ in t.ops):
            pure.append(t)
    cost = sum(np.prod([spaces[o[1]].n for o in t.ops]) for t in pure)
    if cost > 60_000_000:
        raise Inconclusive("too many open indices")
    R = m.apply_expression(pure, v)
    ctx.count("reference_states_compared")
    ctx.count("terms_evaluated", len(pure))
    if not (L == R).all():
        ctx.fail(key, "%s\nwindow %d..%d: the terms differ from the action of the product on the reference\nresult:\n%s"
                 % (what, lo, hi, sem.show(ts, [s.label for s in spaces])))
    return ts, bool(L.any())


def check_scalar_general(ctx, spaces, opexpr, result, factor, rng, what, key="wick-expectation"):
    """window 0..0 with general spaces: result equals Tr(rho factor*opexpr)"""
    m = fock.Model(spaces, rng)
    ts = sem.terms(ctx.w, result)
    check_terms(ctx, spaces, ts)
    base, g = reference_columns(m, spaces)
    # general configurations
    states = [base]
    for k in g:
        states = [st | (c << m.off[k]) for st in states for c in range(1 << spaces[k].n)]
    v = np.zeros((m.D, len(states)), dtype=np.int64)
    for j, st in enumerate(states):
        v[st, j] = 1
    L = m.apply_opexpr(opexpr, v) * fock.frac_mod(factor) % fock.P
    # Tr(rho O) = sum_{ij} rho[i,j] <j|O|i>; rho is a product over the general spaces and O may be
    # fermionic, but rho conserves the number in every space, so no sign arises
    tot = 0
    for i, si in enumerate(states):
        for j, sj in enumerate(states):
            r = 1
            for k in g:
                mask = (1 << spaces[k].n) - 1
                r = r * int(m.rho[k][(si >> m.off[k]) & mask, (sj >> m.off[k]) & mask]) % fock.P
                if r == 0:
                    break
            if r:
                tot = (tot + r * int(L[sj, i])) % fock.P
    val = 0
    for t in ts:
        if t.ops:
            ctx.fail("rank-window", "%s\na term with operators was returned for the window 0..0" % what)
        _, C = m.eval_term(t)
        val = (val + int(C)) % fock.P
    ctx.count("expectation_values_compared")
    ctx.count("terms_evaluated", len(ts))
    if val != tot:
        ctx.fail(key, "%s\nthe scalar terms differ from the expectation value of the product\nresult:\n%s"
                 % (what, sem.show(ts, [s.label for s in spaces])))
    return ts, tot != 0
