"""Vacuum normal ordering is exact and ordered."""
from wv import fock, sem, texpr
from wv.core import Result

P = fock.P
VARIANTS = ["plain"]
CASES = {"quick": 60000, "thorough": 500000}
MIN_NONTRIVIAL = {"quick": 4000, "thorough": 20000}
RULE = ("random expressions of fermionic, bosonic and mixed operator strings with tensors and repeated indices are reordered in "
        "both modes; for random assignments of orbitals to index names the two sides act on random Fock states and must give "
        "the same vector modulo a prime; every term must be ordered; a second application must change nothing; non-trivial when "
        "the input was not ordered and has at least one contraction; distinct = distinct inputs")
ASSUMPTIONS = ["at most 8 operators per string; 2-4 orbitals per space; bosonic occupations up to 3 before the string acts"]


class TensorValues:
    """one random number per tensor, index names and orbitals: the identity may not depend on it"""

    def __init__(self, rng):
        self.seed = rng.getrandbits(40)

    def __call__(self, lab, up, lo):
        if lab == "delta" and len(up) == 1 and len(lo) == 1:
            return 1 if up == lo else 0
        return hash((self.seed, lab, tuple(up), tuple(lo))) % (P - 1) + 1


def act(spaces, ops, state):
    """string of (creation, space, orbital) on an occupation dictionary: (state, factor) or None
    bosons in the basis a|n> = n|n-1>, a+|n> = |n+1>, which satisfies [a, a+] = 1"""
    occ = dict(state)
    f = 1
    for cre, s, p in reversed(ops):
        k = (s, p)
        n = occ.get(k, 0)
        if spaces[s].field == "boson":
            if cre:
                occ[k] = n + 1
            else:
                if n == 0:
                    return None
                f = f * n % P
                occ[k] = n - 1
        else:
            if cre == (n == 1):
                return None
            sg = 0
            for (s2, p2), m in occ.items():
                if m and spaces[s2].field == "fermion" and (s2, p2) < k:
                    sg ^= 1
            if sg:
                f = -f
            occ[k] = 1 - n
    return tuple(sorted((k, v) for k, v in occ.items() if v)), f % P


def evaluate(spaces, pts, assign, tv, state):
    out = {}
    for t in pts:
        c = fock.frac_mod(t.coef)
        for lab, lo, up, _ in t.tensors:
            c = c * tv(lab, [(i[0], assign[i]) for i in up], [(i[0], assign[i]) for i in lo]) % P
            if c == 0:
                break
        if c == 0:
            continue
        r = act(spaces, [(o[0], o[1], assign[o[1:]]) for o in t.ops], state)
        if r is None:
            continue
        st, f = r
        out[st] = (out.get(st, 0) + c * f) % P
    return {k: v for k, v in out.items() if v}


def is_ordered(t):
    """creation before annihilation operators"""
    seen = False
    for c, _, _ in t.ops:
        if not c:
            seen = True
        elif seen:
            return False
    return True


def run_case(ctx, rng, i):
    w = ctx.w
    mode = rng.random() < 0.4
    kind = rng.random()
    spaces = texpr.rand_spaces(rng, bosons=1.0 if kind < 0.15 else (0.0 if kind < 0.5 else 0.4), kmax=3)
    texpr.register(w, spaces)
    pmax = rng.choice([2, 3, 4, 8])
    nops = rng.choice([(0, 4), (2, 6), (3, 5), (4, 8) if spaces[0].field == "fermion" or mode else (3, 6)])
    if rng.random() < 0.01:
        # long strings
        nops = (9, 11) if mode else (9, 10)
    pool = [texpr.rand_index(rng, spaces, pmax) for _ in range(rng.randint(1, 7))]
    pts = []
    for _ in range(rng.choice([1, 1, 1, 2, 3])):
        t = texpr.rand_term(rng, spaces, ntens=(0, 3), nops=nops, pool=pool, flag=False, syms=("anti", "symm", "none"))
        if rng.random() < 0.3 and t.ops:
            # one space: as many contractions as possible
            s = t.ops[0][1]
            t.ops = [(c, s, p) for c, _, p in t.ops]
        pts.append(t)
    if rng.random() < 0.3:
        # identical strings up to the order: cancellations
        t = pts[-1].copy()
        rng.shuffle(t.ops)
        t.coef = -t.coef
        pts.append(t)
    for t in pts:
        ctx.log(t.show(spaces))
    e = texpr.expression(w, pts, rng)
    before = str(e)
    src = texpr.back(w, e)
    # the object says what was put in
    if texpr.model(src) != texpr.model(pts):
        ctx.fail("construction", "the expression differs from the terms it was made of:\n" + before)
    ctx.log("spaces %s, only_same_index=%s" % (spaces, mode))
    r = e.vacuum_normal_ordered(mode) if rng.random() < 0.5 else e.vacuum_normal_ordered(only_same_index_contractions=mode)
    if str(e) != before:
        ctx.fail("input-modified", "the expression changed:\n%s\nbefore:\n%s" % (e, before))
    res = texpr.back(w, r)
    for t in res:
        if not is_ordered(t):
            ctx.fail("not-ordered", "a term is not vacuum normal ordered: " + t.show(spaces))
        if t.coef == 0:
            ctx.fail("zero-term", "a zero term was returned")
    if not r.is_vacuum_normal_ordered():
        ctx.fail("is-ordered", "is_vacuum_normal_ordered() is false for the result\n" + str(r))
    mine = all(is_ordered(t) for t in src)
    if e.is_vacuum_normal_ordered() and not mine:
        ctx.fail("is-ordered", "is_vacuum_normal_ordered() is true for\n" + before)
    if mode:
        # no delta appears: the tensors are those of the terms reordered
        known = {tuple(sorted((l, tuple(lo), tuple(up), s) for l, lo, up, s in t.tensors)) for t in src}
        for t in res:
            if tuple(sorted((l, tuple(lo), tuple(up), s) for l, lo, up, s in t.tensors)) not in known:
                ctx.fail("new-tensor", "different names are different orbitals, but a tensor was introduced: " + t.show(spaces))
    again = r.vacuum_normal_ordered(mode)
    if not (again == r) or str(again) != str(r):
        ctx.fail("not-idempotent", "applying it twice gives\n%s\ninstead of\n%s" % (again, r))
    ctx.count("terms_in", len(src))
    ctx.count("terms_out", len(res))
    # value
    names = list(dict.fromkeys(n for t in src for n in t.indices()))
    extra = [n for t in res for n in t.indices() if n not in names]
    if extra:
        ctx.fail("new-index", "an index that does not occur in the input: %s" % extra)
    tv = TensorValues(rng)
    nonzero = 0
    for k in range(10):
        assign = {}
        if mode:
            for s in range(len(spaces)):
                mineS = [n for n in names if n[0] == s]
                orb = list(range(len(mineS) + 1))
                rng.shuffle(orb)
                assign.update(zip(mineS, orb))
        else:
            nmo = rng.choice([1, 2, 2, 3, 4])
            for n in names:
                assign[n] = rng.randrange(nmo)
        orbs = sorted({(n[0], assign[n]) for n in names} | {(s, 0) for s in range(len(spaces))})
        # a state the first string does not annihilate, when there is one
        state = {}
        if src and k % 2:
            t = rng.choice(src)
            for cre, s, p in reversed(t.ops):
                key = (s, assign[(s, p)])
                state.setdefault(key, 0 if cre else 1)
        for o in orbs:
            if o not in state or (spaces[o[0]].field == "boson" and rng.random() < 0.5):
                state[o] = rng.randint(0, 3) if spaces[o[0]].field == "boson" else rng.randint(0, 1)
        st = tuple(sorted(state.items()))
        L = evaluate(spaces, src, assign, tv, st)
        R = evaluate(spaces, res, assign, tv, st)
        ctx.count("state_comparisons")
        nonzero += bool(L)
        if L != R:
            ctx.fail("value", "the values differ for the orbitals %s on the state %s:\n%s\nand\n%s\nresult:\n%s"
                     % (assign, st, L, R, r))
    ctx.count("nonzero_comparisons", nonzero)
    return Result((mode, spaces, [t.key() for t in pts], [t.coef for t in pts]),
                  nonzero > 0 and not mine and len({len(t.ops) for t in res}) > 1,
                  "\n".join(ctx.trace) + "\n-> %d terms, equal on %d states" % (len(res), 10))
