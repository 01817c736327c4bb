"""Workload generators."""
import string

from wv import fock

LETTERS = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"


def labels_for(k):
    """k distinct pretty index labels that collide with nothing else"""
    return [c + "%s" % k for c in string.ascii_lowercase[:8]]


def add_spaces(w, spaces, pretty=None):
    w.reset_space()
    used = set()
    for k, s in enumerate(spaces):
        names = pretty[k] if pretty else ["%s%d" % (s.label, 900 + j) for j in range(6)]
        w.add_space(s.label, s.field, s.stype, names)


def many_spaces(rng, general=False):
    """five to eight spaces (eight is the largest number of spaces that operators support) of one or two orbitals"""
    k = rng.choice([5, 5, 6, 7, 8])
    n = [1] * k
    for j in rng.sample(range(k), 9 - k if general else 10 - k):
        n[j] = 2
    types = ["occupied", "unoccupied"] + (["general"] * 2 if general else [])
    st = types[:3] + [rng.choice(types) for _ in range(k - 3)] if general else types + [rng.choice(types) for _ in range(k - 2)]
    rng.shuffle(st)
    return [fock.Space(l, "fermion", t, m) for l, t, m in zip(rng.sample(LETTERS, k), st, n)]


def sd_spaces(rng, big=False, many=0.06):
    """occupied/unoccupied spaces in random order, random labels"""
    if rng.random() < many:
        return many_spaces(rng)
    kind = rng.choices(["ov", "vo", "ooV", "ovOV", "oovv", "v", "o", "ovv"], [6, 2, 1, 3, 1, 1, 1, 1])[0]
    labs = rng.sample(LETTERS, len(kind))
    if kind in ("ov", "vo") and rng.random() < 0.7:
        labs = ["o" if k == "o" else "v" for k in kind]
    n = {1: 4, 2: 4 if not big else 3, 3: rng.choice([2, 3]), 4: 2}[len(kind)]
    sp = []
    for k, l in zip(kind, labs):
        st = "occupied" if k in "oO" else "unoccupied"
        sp.append(fock.Space(l, "fermion", st, n))
    if len(kind) == 4 and rng.random() < 0.3:
        rng.shuffle(sp)
    return sp


def general_spaces(rng, many=0.05):
    if rng.random() < many:
        return many_spaces(rng, True)
    kind = rng.choices(["a", "oav", "oa", "av", "ab", "avo", "oavb", "aA"], [4, 5, 1, 1, 1, 1, 1, 1])[0]
    labs = rng.sample(LETTERS, len(kind))
    sizes = {1: 4, 2: 3, 3: 2, 4: 2}[len(kind)]
    sp = []
    for k, l in zip(kind, labs):
        st = {"o": "occupied", "v": "unoccupied"}.get(k, "general")
        n = sizes
        if st == "general" and len(kind) == 3:
            n = 3
        if st == "general" and len(kind) == 1 and rng.random() < 0.4:
            n = 3
        sp.append(fock.Space(l, "fermion", st, n))
    return sp


def component(spaces, cre, ann):
    """the component string of an operator, e.g. 'v+ v+ o o'"""
    s = []
    for k, c in enumerate(cre):
        s += [spaces[k].label + "+"] * c
    for k in range(len(ann) - 1, -1, -1):
        s += [spaces[k].label] * ann[k]
    return " ".join(s)


def rand_counts(rng, spaces, nc, na, bias=None):
    """distribute nc creators and na annihilators over the spaces"""
    cre, ann = [0] * len(spaces), [0] * len(spaces)
    for which, n in ((cre, nc), (ann, na)):
        for _ in range(n):
            for _try in range(20):
                k = rng.randrange(len(spaces))
                if bias and rng.random() < 0.75:
                    k = rng.choice(bias[0 if which is cre else 1]) if bias[0 if which is cre else 1] else k
                if which[k] < spaces[k].n:
                    which[k] += 1
                    break
    return tuple(cre), tuple(ann)


def rand_operator(rng, spaces, maxops=6, odd=True):
    r = rng.random()
    if r < 0.05:
        nc = na = 0
    elif r < 0.15 and odd:
        nc, na = rng.choice([(1, 0), (0, 1), (2, 1), (1, 2), (2, 0), (0, 2), (3, 1)])
    else:
        k = rng.choices([1, 2, 3], [5, 5, 1.2])[0]
        nc = na = k
    while nc + na > maxops:
        nc, na = max(nc - 1, 0), max(na - 1, 0)
    occ = [k for k, s in enumerate(spaces) if s.stype == "occupied"]
    vir = [k for k, s in enumerate(spaces) if s.stype == "unoccupied"]
    gen = [k for k, s in enumerate(spaces) if s.stype == "general"]
    mode = rng.random()
    if mode < 0.35:
        bias = (vir + gen, occ + gen)          # excitation-like
    elif mode < 0.7:
        bias = (occ + gen, vir + gen)          # de-excitation-like
    else:
        bias = None
    return rand_counts(rng, spaces, nc, na, bias)


def rand_product(rng, spaces, total, nmax=5):
    """a list of (label, cre, ann) with at most `total` second-quantized operators"""
    if len(spaces) > 4 and rng.random() < 0.75:
        # with many spaces, use a few of them, so that there is something to contract
        sub = set(rng.sample(range(len(spaces)), rng.choice([1, 2, 2, 3])))
        if rng.random() < 0.5:
            sub.add(len(spaces) - 1)
        sub = sorted(sub)
        ops = rand_product(rng, [spaces[k] for k in sub], total, nmax)
        at = {k: j for j, k in enumerate(sub)}
        return [(l, *(tuple(x[at[k]] if k in at else 0 for k in range(len(spaces))) for x in (c, a))) for l, c, a in ops]
    n = rng.choices([1, 2, 3, 4, 5], [1, 8, 6, 3, 1])[0]
    n = min(n, nmax)
    ops = []
    left = total
    labels = rng.sample(["T", "V", "F", "X", "Lam", "h2", "S_1", "R", "u"], rng.randint(1, 3))
    for k in range(n):
        share = max(2, left - 2 * (n - k - 1))
        cre, ann = rand_operator(rng, spaces, maxops=min(6, share))
        if sum(cre) + sum(ann) > left:
            continue
        left -= sum(cre) + sum(ann)
        ops.append((rng.choice(labels), cre, ann))
    # bias: make a later operator the adjoint shape of an earlier one (many contractions)
    if len(ops) >= 2 and rng.random() < 0.35:
        a = ops[0]
        b = ops[-1]
        if sum(a[1]) + sum(a[2]) <= left + sum(b[1]) + sum(b[2]):
            ops[-1] = (b[0], a[2], a[1])
    # bias: repeat an operator (identical tensors)
    if len(ops) >= 3 and rng.random() < 0.35 and sum(ops[1][1]) + sum(ops[1][2]) >= sum(ops[2][1]) + sum(ops[2][2]) - 0 \
            and sum(ops[1][1] + ops[1][2]) - sum(ops[2][1] + ops[2][2]) <= left:
        ops[2] = ops[1]
    return ops


def long_product(rng, spaces, n, total):
    """n factors of one or two second-quantized operators that take the reference to an excited state and back"""
    labels = rng.sample(["T", "V", "F", "X", "Lam", "h2", "S_1", "R", "u"], rng.randint(1, 4))
    k = len(spaces)
    room = [s.n for s in spaces]
    exc = []
    for j in range(n // 2):
        m = 2 if rng.random() < 0.5 and 2 * sum(map(sum, exc)) + 4 + 2 * (n // 2 - 1 - j) <= total else 1
        c = [0] * k
        for _ in range(m):
            x = rng.randrange(k)
            if room[x] > 0:
                room[x] -= 1
                c[x] += 1
        if sum(c):
            exc.append(tuple(c))
    # excitations and their adjoints in an order in which an adjoint acts after (to the left of) an excitation
    todo, open_, seq = list(exc), [], []
    while todo or open_:
        if todo and (not open_ or rng.random() < 0.6):
            c = todo.pop()
            open_.append(c)
            seq.append((c, True))
        else:
            seq.append((open_.pop(rng.randrange(len(open_))), False))
    ops = []
    # (operators of general spaces first create or first annihilate)
    first = [s.stype == "unoccupied" or s.stype == "general" and rng.random() < 0.5 for s in spaces]
    for c, up in reversed(seq):
        cre = tuple(x if f == up else 0 for x, f in zip(c, first))
        ann = tuple(x if f != up else 0 for x, f in zip(c, first))
        ops.append((rng.choice(labels), cre, ann))
    while len(ops) < n:
        x = rng.randrange(k)
        one = tuple(int(j == x) for j in range(k))
        if rng.random() < 0.8:
            ops.insert(rng.randint(0, len(ops)), (rng.choice(labels), one, one))
        else:
            ops.insert(rng.randint(0, len(ops)), (rng.choice(labels), *rng.choice([(one, (0,) * k), ((0,) * k, one)])))
    return ops


def make_product(w, spaces, ops):
    e = None
    for label, cre, ann in ops:
        o = w.op(label, [component(spaces, cre, ann)])
        e = o if e is None else e @ o
    return e


def scale(w, e, num, den):
    return w.rational(num, den) * e


def show_product(spaces, ops):
    return " @ ".join("%s{%s}" % (l, component(spaces, c, a)) for l, c, a in ops)


def rand_factor(rng):
    r = rng.random()
    if r < 0.4:
        return 1, 1
    if r < 0.5:
        return -1, 1
    return rng.choice([-1, 1]) * rng.randint(1, 50), rng.randint(1, 40)
