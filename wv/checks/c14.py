"""Generated code evaluates to the equation it came from."""
import re
from fractions import Fraction

import numpy as np

from wv import gen, sem, texpr
from wv.core import Result

VARIANTS = ["plain"]
CASES = {"quick": 40000, "thorough": 600000}
MIN_NONTRIVIAL = {"quick": 10000, "thorough": 60000}
RULE = ("the einsum code of random equations, and of equations derived by contraction, from both generators is executed with "
        "numpy on random arrays and pre-filled left-hand arrays; the change of the left-hand array is compared with a direct "
        "loop-free evaluation that does not use the generated letters; letters and coefficients are also read from the code; "
        "the ambit code is parsed back; equations einsum cannot express must be refused; non-trivial when two or more tensors "
        "share a summed index and the value is not zero; distinct = distinct equations")
ASSUMPTIONS = ["2-3 orbitals per space", "space labels and index names are those a user can register; tensor labels are identifiers"]

NUMPY_NAMES = {"np", "einsum", "in", "is"}


class Block(dict):
    """the blocks of a tensor: blocks['ov'] is the array with indices of these spaces"""

    def __init__(self, env, label):
        self.env, self.label, self.used = env, label, []

    def __missing__(self, key):
        raise KeyError("%s[%r] is not a block of the equation" % (self.label, key))


def rand_array(rng, shape):
    n = 1
    for x in shape:
        n *= x
    return np.array([rng.uniform(-1, 1) for _ in range(n)]).reshape(shape)


def evaluate(arrays, tensors, out, dims):
    """sum over all indices that are not in out; names are arbitrary hashables"""
    names = list(dict.fromkeys(list(out) + [x for t in tensors for x in t]))
    ops = [(a, list(ix)) for a, ix in zip(arrays, tensors)]
    keep = list(out)
    if not ops:
        return np.array(1.0)
    cur, cix = None, []
    for k, (a, ix) in enumerate(ops):
        let = {x: n for n, x in enumerate(dict.fromkeys(cix + ix))}
        later = {x for _, y in ops[k + 1:] for x in y} | set(keep)
        tgt = [x for x in let if x in later]
        if cur is None:
            cur = np.einsum(a, [let[x] for x in ix], [let[x] for x in tgt])
        else:
            cur = np.einsum(cur, [let[x] for x in cix], a, [let[x] for x in ix], [let[x] for x in tgt])
        cix = tgt
    let = {x: n for n, x in enumerate(cix)}
    return np.einsum(cur, [let[x] for x in cix], [let[x] for x in keep])


def run_case(ctx, rng, i):
    r = rng.random()
    if r < 0.2:
        return derived(ctx, rng)
    if r < 0.22:
        return many(ctx, rng)
    w = ctx.w
    spaces = texpr.rand_spaces(rng, bosons=0.1)
    for s in spaces:
        if rng.random() < 0.5:
            s.n = 2
    # names for compile_einsum: single letters, enough of them most of the time
    pool = list(texpr.LETTERS)
    rng.shuffle(pool)
    for s in spaces:
        s.names = [pool.pop() for _ in range(rng.choice([3, 6, 10] if len(spaces) < 6 else [3, 6]))]
        if rng.random() < 0.1:
            s.names[rng.randrange(len(s.names))] = rng.choice(["i1", "ab", "\\alpha", "x_1"]) + s.label
    texpr.register(w, spaces)
    labels = [l for l in texpr.LABELS + ["T", "V"]]
    npool = rng.choice([1, 2, 4, 6, 9, 12])
    ixs = list(dict.fromkeys(texpr.rand_index(rng, spaces, rng.choice([2, 4, 12])) for _ in range(npool)))
    t = texpr.rand_term(rng, spaces, ntens=(0, 5), nops=(0, 0), pool=ixs, labels=labels, big=rng.random() < 0.3,
                        syms=("anti",))
    on = list(dict.fromkeys(x for _, lo, up, _ in t.tensors for x in lo + up))
    open_ = rng.sample(on, rng.randint(0, min(4, len(on)))) if on else []
    bad = None
    if rng.random() < 0.08:
        bad = rng.choice(["missing", "repeated"])
        if bad == "repeated" and open_:
            open_.append(rng.choice(open_))
        else:
            bad = "missing"
            open_.append(next(x for x in [(0, 50)] if x not in on))
        rng.shuffle(open_)
    k = rng.randint(0, len(open_))
    H = (rng.choice(["H", "Hbar", "R2"]), open_[k:], open_[:k], "anti")
    lhs, rhs = w.SymbolicTerm(), w.SymbolicTerm()
    lhs.add(texpr.tensor(w, H))
    for x in t.tensors:
        rhs.add(texpr.tensor(w, x))
    eq = w.Equation(lhs, rhs, texpr.rat(w, t.coef))
    ctx.log("spaces %s names %s\n%s" % (spaces, [s.names for s in spaces], eq))
    ambit(ctx, w, spaces, eq, H, t)
    if bad:
        ctx.raises(lambda: eq.compile("einsum"), "not-refused", "compile('einsum') of %s" % eq)
        ctx.raises(lambda: w.compile_einsum(eq), "not-refused", "compile_einsum of %s" % eq)
        ctx.count("refusals", 2)
        return Result(("bad", str(eq)), False)
    if rng.random() < 0.05:
        ctx.raises(lambda: eq.compile(rng.choice(["", "einsums", "numpy", "C"])), "not-refused", "an unknown format")
    return both(ctx, rng, w, spaces, eq, H, t)


def both(ctx, rng, w, spaces, eq, H, t):
    code = eq.compile("einsum")
    ok = execute(ctx, rng, w, spaces, eq, H, t, code, "Equation.compile", None)
    # compile_einsum takes the names from the registry
    used = {}
    for x in dict.fromkeys([x for _, lo, up, _ in t.tensors for x in up + lo] + H[2] + H[1]):
        used[x[0]] = used.get(x[0], 0) + 1
    single = all(len(n) == 1 for s, m in used.items() for n in spaces[s].names[:m])
    if all(m <= len(spaces[s].names) for s, m in used.items()) and single:
        code2 = w.compile_einsum(eq)
        names = {s: set(spaces[s].names) for s in used}
        execute(ctx, rng, w, spaces, eq, H, t, code2, "compile_einsum", names)
    else:
        ctx.raises(lambda: w.compile_einsum(eq), "not-refused", "compile_einsum without enough single-letter names")
        ctx.count("refusals")
    return Result(str(eq), ok, "%s\n%s" % (eq, code) if ok else None)


def execute(ctx, rng, w, spaces, eq, H, t, code, what, names):
    dims = (lambda ix: tuple(spaces[s].n for s, _ in ix))
    blk = (lambda ix: "".join(spaces[s].label for s, _ in ix))
    env, arrays = {"np": np}, []
    for l, lo, up, _ in t.tensors:
        b = env.setdefault(l, Block(env, l))
        if not isinstance(b, Block):
            return False
        key = blk(up + lo)
        if key not in b:
            b[key] = rand_array(rng, dims(up + lo))
        arrays.append(b[key])
    hname = H[0] + blk(H[2] + H[1])
    if hname in env:
        return False       # the left-hand array and a tensor of the equation have the same name
    before = rand_array(rng, dims(H[2] + H[1]))
    env[hname] = before.copy() if before.shape else float(before)
    try:
        exec(compile(code, "<generated>", "exec"), env)
    except Exception as e:
        ctx.fail("does-not-run", "%s: the code of\n%s\nis\n%s\nand raises %s: %s" % (what, eq, code, type(e).__name__, e))
    got = np.array(env[hname]) - before
    c = t.coef.numerator / t.coef.denominator
    part = evaluate(arrays, [up + lo for _, lo, up, _ in t.tensors], H[2] + H[1], dims)
    want = c * part
    scale = max(1.0, abs(c)) * (1 + np.abs(want).max() / max(1.0, abs(c)))
    ctx.count("code_executed")
    if got.shape != want.shape or not np.all(np.abs(got - want) <= 1e-11 * scale):
        ctx.fail("value", "%s: the code of\n%s\nis\n%s\nits value differs by %g"
                 % (what, eq, code, np.abs(got - want).max() if got.shape == want.shape else -1))
    # the coefficient in full precision
    m = re.match(r"^(\w+) \+= ([+-]?[\d.]+(?:e[+-]?\d+)?)", code)
    if not m or m.group(1) != hname or not abs(float(m.group(2)) - c) <= 4e-16 * abs(c):
        ctx.fail("coefficient", "%s: the code of\n%s\nis\n%s" % (what, eq, code))
    if t.tensors:
        letters(ctx, spaces, eq, H, t, code, what, names)
    cnt = {}
    for _, lo, up, _ in t.tensors:
        for x in set(lo + up):
            cnt[x] = cnt.get(x, 0) + 1
    return any(n > 1 and x not in H[1] + H[2] for x, n in cnt.items()) and bool(np.abs(want).max() > 1e-6)


def letters(ctx, spaces, eq, H, t, code, what, names):
    """distinct indices, distinct letters"""
    m = re.search(r"einsum\(\s*['\"]([^'\"]*)->(\w*)['\"]", code)
    if not m:
        ctx.fail("form", "%s: no einsum string in %s" % (what, code))
    subs = m.group(1).split(",")
    if len(subs) != len(t.tensors):
        ctx.fail("form", "%s: the code of\n%s\nis\n%s" % (what, eq, code))
    let = {}
    for s, (_, lo, up, _) in list(zip(subs, t.tensors)) + [(m.group(2), (0, H[1], H[2], 0))]:
        if len(s) != len(up + lo):
            ctx.fail("form", "%s: the code of\n%s\nis\n%s" % (what, eq, code))
        for a, x in zip(s, up + lo):
            if let.setdefault(x, a) != a:
                ctx.fail("letters", "%s: two letters for one index in %s" % (what, code))
            if names is not None and a not in names[x[0]]:
                ctx.fail("letters", "%s: %s is not a name of the space %s: %s" % (what, a, spaces[x[0]].label, code))
    if len(set(let.values())) != len(let) or not all(len(a) == 1 and a.isalpha() for a in let.values()):
        ctx.fail("letters", "%s: one letter for two indices in %s" % (what, code))
    ctx.top("distinct_indices", len(let))


def ambit(ctx, w, spaces, eq, H, t):
    code = eq.compile("ambit")
    n = (lambda i: "%s%d" % (spaces[i[0]].label, i[1]))

    def tens(x):
        l, lo, up, _ = x
        return l + ("[" + ",".join(map(n, up + lo)) + "]" if up + lo else "")
    if not code.endswith(";") or " += " not in code:
        ctx.fail("ambit", "the ambit code of\n%s\nis\n%s" % (eq, code))
    left, right = code[:-1].split(" += ")
    parts = [p.strip() for p in right.split(" * ")]
    c = t.coef.numerator / t.coef.denominator
    try:
        v = float(parts[0])
    except ValueError:
        ctx.fail("ambit", "the ambit code of\n%s\nhas no coefficient:\n%s" % (eq, code))
    norm = (lambda s: s.replace('"', "").replace(" ", ""))
    if norm(left) != tens(H) or not abs(v - c) <= 4e-16 * abs(c) or [norm(p) for p in parts[1:]] != [tens(x) for x in t.tensors]:
        ctx.fail("ambit", "the ambit code of\n%s\nis\n%s" % (eq, code))
    ctx.count("ambit_statements")


def derived(ctx, rng):
    """equations of the pipeline"""
    w = ctx.w
    general = rng.random() < 0.4
    fs = gen.general_spaces(rng) if general else gen.sd_spaces(rng)
    pool = list(texpr.LETTERS)
    rng.shuffle(pool)
    spaces = [texpr.Sp(s.label, s.field, s.stype, [pool.pop() for _ in range(52 // len(fs))], 2) for s in fs]
    texpr.register(w, spaces)
    P = gen.make_product(w, fs, gen.rand_product(rng, fs, 6 if general else 8))
    e = w.WickTheorem().contract(texpr.rat(w, texpr.rand_coef(rng)), P, 0, rng.choice([0, 2, 4, 8]))
    if len(e) > 60:
        return Result("large", False)
    ctx.log(P)
    res, texts = False, []
    for key, lst in e.to_manybody_equation(rng.choice(["H", "R"])).items():
        for q in rng.sample(lst, min(len(lst), 6)):
            h = q.lhs().tensors()[0]
            H = (h.label(), [(x.space(), x.pos()) for x in h.lower()], [(x.space(), x.pos()) for x in h.upper()], "anti")
            t = texpr.back(w, q.rhs_expression())[0]
            ambit(ctx, w, spaces, q, H, t)
            r = both(ctx, rng, w, spaces, q, H, t)
            res |= r.nontrivial
            texts.append(str(q))
    return Result(texts, res)


def many(ctx, rng):
    """equations with about as many indices as there are letters"""
    w = ctx.w
    pool = list(texpr.LETTERS)
    rng.shuffle(pool)
    spaces = [texpr.Sp(l, "fermion", "general", [], 2) for l in rng.sample(texpr.LETTERS, 3)]
    m = rng.choice([0, 5, 17, 17])
    for s in spaces:
        s.names = [pool.pop() for _ in range(m)]
    texpr.register(w, spaces)
    n = rng.randint(20, 58) if rng.random() < 0.4 else rng.randint(44, 58)
    ixs = [(k % 3, k // 3) for k in range(n)]
    # open indices, and indices that are summed over two tensors
    k = rng.choice([0, 0, 2, 4, 9])
    open_ = rng.sample(ixs, k)
    H = ("H", open_[k // 2:], open_[:k // 2], "anti")
    rest = ixs + rng.sample(ixs, rng.choice([0, n // 2, n]))
    rng.shuffle(rest)
    tensors = []
    while rest:
        k = min(len(rest), rng.choice([1, 2, 3, 4, 6, 12]))
        part, rest = rest[:k], rest[k:]
        part = list(dict.fromkeys(part))
        j = rng.randint(0, len(part))
        tensors.append(("T", part[j:], part[:j], "anti"))
    t = texpr.PT(Fraction(1, 2), tensors, [])
    lhs, rhs = w.SymbolicTerm(), w.SymbolicTerm()
    for x in tensors:
        rhs.add(texpr.tensor(w, x))
    lhs.add(texpr.tensor(w, H))
    eq = w.Equation(lhs, rhs, w.rational(1, 2))
    ctx.log("%d indices: %s" % (n, eq))
    if n > 52:
        ctx.raises(lambda: eq.compile("einsum"), "not-refused", "an equation with %d indices" % n)
        ctx.count("refusals")
    else:
        letters(ctx, spaces, eq, H, t, eq.compile("einsum"), "Equation.compile", None)
    if (n + 2) // 3 > m:
        ctx.raises(lambda: w.compile_einsum(eq), "not-refused", "compile_einsum without enough names")
        ctx.count("refusals")
    else:
        letters(ctx, spaces, eq, H, t, w.compile_einsum(eq), "compile_einsum", {s: set(spaces[s].names) for s in range(3)})
    ambit(ctx, w, spaces, eq, H, t)
    return Result(str(eq), False)
