"""Derived and compiled equations give the exact residuals: the whole pipeline, executed."""
import itertools
import os
import re
import time
from fractions import Fraction

import numpy as np

from wv import ffock, gen, texpr
from wv.core import Result

VARIANTS = ["plain"]
CASES = {"quick": 4000, "thorough": 80000}
MIN_NONTRIVIAL = {"quick": 800, "thorough": 12000}
RULE = ("operators -> products, nested commutators or BCH series -> contraction -> many-body equations -> einsum code of either "
        "generator, executed on random amplitudes; the residual arrays are compared with dense Fock-space matrices: as an "
        "operator identity (all ranks), as the residuals <excited|O|reference> (window), as the exact exponential exp(-T) H exp(T) "
        "when the series ends, and for correlated states as expectation value; non-trivial when the value is not zero and at "
        "least two equations were executed; distinct = distinct equations")
ASSUMPTIONS = ["at most 6 orbitals; floating point comparison with relative tolerance 1e-10",
               "the expectation values of the correlated states factorize over the general spaces"]

TOL = 1e-10
ONE_LINE = re.compile(r"^\w+ \+= ")


class Ambiguous(Exception):
    pass


class Blocks(dict):
    def __init__(self, label):
        self.label = label


def rand_spaces(rng, general):
    if general:
        kind = rng.choice(["a", "a", "oa", "av", "oav", "oav", "ab", "avo"])
    else:
        kind = rng.choice(["ov", "ov", "ov", "ov", "vo", "oovv", "oVv"])
    n = {1: 4, 2: 2, 3: 2, 4: 1}[len(kind)]
    pool = list(texpr.LETTERS)
    rng.shuffle(pool)
    labs = list(kind.lower()) if len(set(kind.lower())) == len(kind) and rng.random() < 0.6 else [pool[k] for k in range(len(kind))]
    out = []
    for k, l in zip(kind, labs):
        t = {"o": "occupied", "v": "unoccupied"}.get(k.lower(), "general")
        m = n
        if len(kind) == 2:
            m = rng.choice([2, 2, 2, 3])
        if len(kind) == 4:
            m = rng.choice([1, 2])
        if len(kind) == 3:
            m = rng.choice([1, 2, 2])
        out.append([l, t, m])
    while sum(m for _, _, m in out) > 6:
        j = max(range(len(out)), key=lambda k: out[k][2])
        out[j][2] -= 1
    names = list(texpr.LETTERS)
    rng.shuffle(names)
    share = len(names) // len(out)
    return [texpr.Sp(l, "fermion", t, [names.pop() for _ in range(share)], m) for l, t, m in out]


def gen_comps(sp, rank, cs, as_, diagonal=True):
    """the components of gen_op(label, rank, cs, as_): nondecreasing spaces"""
    out = []
    for x in itertools.combinations_with_replacement(sorted(cs), rank):
        for y in itertools.combinations_with_replacement(sorted(as_), rank):
            if diagonal or x != y:
                out.append((tuple(x.count(k) for k in range(len(sp))), tuple(y.count(k) for k in range(len(sp)))))
    return out


def whole(ctx, rng, w, F, amps, sp, general):
    """a Hamiltonian with all components, and a full cluster operator"""
    every = list(range(len(sp)))
    occ = [k for k in every if sp[k].stype != "unoccupied"]
    vir = [k for k in every if sp[k].stype != "occupied"]
    lab = (lambda ks: "".join(sp[k].label for k in ks))
    two = rng.random() < 0.6
    H = [("f", 1, every, every, True)] + ([("v", 2, every, every, True)] if two else [])
    T = [("t", r, vir, occ, False) for r in rng.choice([(1,), (2,), (1, 2), (1, 2)])]
    objs, mats = [], []
    for comps in (H, T):
        e, M = None, np.zeros((F.D, F.D))
        for label, r, cs, as_, diag in comps:
            cc = gen_comps(sp, r, cs, as_, diag)
            if not cc:
                continue
            _, m = build(ctx, rng, w, F, amps, Op(label, cc))
            o = w.gen_op(label, r, lab(cs), lab(as_), diagonal=diag)
            e = o if e is None else e + o
            M = M + m
        if e is None:
            raise Ambiguous()
        objs.append(e)
        mats.append(M)
    he, te = objs
    hm, tm = mats
    what = "H = %s, T = %s" % (H, T)
    if general:
        if rng.random() < 0.4:
            A = w.gen_op("t", T[0][1], lab(occ), lab(vir), diagonal=False)
            _, m = build(ctx, rng, w, F, amps, Op("t", gen_comps(sp, T[0][1], occ, vir, False)))
            return w.commutator(he, te - A) if len(T) == 1 else w.commutator(he, te), \
                comm(hm, tm - m) if len(T) == 1 else comm(hm, tm), what + " commutator with T - A", "full"
        return w.commutator(he, te), comm(hm, tm), what + " commutator", "full"
    order = rng.choice([1, 2, 4]) if two else rng.choice([1, 2])
    e = w.bch_series(he, te, order)
    M, C = hm, hm
    for j in range(1, order + 1):
        C = comm(C, tm) / j
        M = M + C
    return e, M, what + " bch %d" % order, "full"


class Op:
    """a sum of operator components with the same label, with its numbers"""

    def __init__(self, label, comps):
        self.label, self.comps = label, comps


def build(ctx, rng, w, F, amps, op):
    """the library's object and its matrix"""
    sp = F.spaces
    e = w.op(op.label, [gen.component(sp, c, a) for c, a in op.comps])
    M = np.zeros((F.D, F.D))
    for c, a in op.comps:
        lo = [k for k, n in enumerate(c) for _ in range(n)]
        up = [k for k, n in enumerate(a) for _ in range(n)]
        blk = "".join(sp[k].label for k in up + lo)
        d = amps.setdefault(op.label, Blocks(op.label))
        if d.setdefault("_split", {}).setdefault(blk, len(up)) != len(up):
            raise Ambiguous()
        if blk not in d:
            axes = up + lo
            groups = [[j for j in range(len(up)) if up[j] == k] for k in range(len(sp))]
            groups += [[j for j in range(len(up), len(axes)) if axes[j] == k] for k in range(len(sp))]
            arr = ffock.antisymmetric(rng, [g for g in groups if g], tuple(sp[k].n for k in axes))
            d[blk] = arr if arr.shape else float(arr)
            f = 1.0
            for n in list(c) + list(a):
                for j in range(2, n + 1):
                    f /= j
            d.setdefault("_m", {})[blk] = F.string(up, lo, arr, f)
        M = M + d["_m"][blk]
    return e, M


def comm(a, b):
    return a @ b - b @ a


def legs(comps):
    return max(sum(c) + sum(a) for c, a in comps)


def rand_comps(rng, sp, kinds, nmax, even=True):
    out = []
    for _ in range(20):
        k = rng.choice(kinds)
        nc = na = k
        if not even and rng.random() < 0.3:
            nc, na = rng.choice([(1, 0), (0, 1), (2, 1), (2, 0), (0, 2)])
        c, a = gen.rand_counts(rng, sp, nc, na)
        if (c, a) not in out and sum(c) + sum(a):
            out.append((c, a))
        if len(out) >= nmax:
            break
    return out


def excitations(rng, sp, kinds, nmax):
    occ = [k for k, s in enumerate(sp) if s.stype != "unoccupied"]
    vir = [k for k, s in enumerate(sp) if s.stype != "occupied"]
    out = []
    for _ in range(10):
        k = rng.choice(kinds)
        c, a = [0] * len(sp), [0] * len(sp)
        for _ in range(k):
            c[rng.choice(vir)] += 1
            a[rng.choice(occ)] += 1
        if all(x <= s.n for x, s in zip(c, sp)) and all(x <= s.n for x, s in zip(a, sp)) and (tuple(c), tuple(a)) not in out:
            out.append((tuple(c), tuple(a)))
        if len(out) >= nmax:
            break
    return out


def run_case(ctx, rng, i):
    try:
        return pipeline(ctx, rng)
    except Ambiguous:      # T^{a}_{b} and T_{ab} share the array T["ab"] of the generated code
        return Result("ambiguous", False)


def pipeline(ctx, rng):
    w = ctx.w
    general = rng.random() < 0.4
    sp = rand_spaces(rng, general)
    F = ffock.Fock(sp, rng)
    texpr.register(w, sp)
    amps = {}
    ctx.log("spaces %s" % (sp,))
    total = rng.choice([8, 8, 10]) if not general else rng.choice([6, 6, 6, 8])
    mode = rng.choices(["product", "commutator", "bch", "exp"], [3, 4, 4, 0 if general else 3])[0]
    hl, tl = rng.choice([("H", "T"), ("f", "t"), ("V", "S"), ("h1", "t_2")])
    high = False
    full = rng.random() < 0.08 and len(sp) <= 3
    if full:
        e, M, what, mode = whole(ctx, rng, w, F, amps, sp, general)
    elif mode == "exp":
        k = rng.choice([1, 1, 2])
        T = Op(tl, excitations(rng, sp, [1, 1, 2] if k == 1 else [1, 1, 1, 2], rng.choice([1, 2])))
        H = Op(hl, rand_comps(rng, sp, [k, max(1, k - 1)], rng.choice([1, 2, 3]) if k == 1 else rng.choice([1, 2])))
        order = 2 * k
        if k == 2 and legs(T.comps) == 4:
            T.comps = T.comps[:1]
            H.comps = H.comps[:1]
        he, hm = build(ctx, rng, w, F, amps, H)
        te, tm = build(ctx, rng, w, F, amps, T)
        e = w.bch_series(he, te, order)
        pw, em, ep = np.eye(F.D), np.eye(F.D), np.eye(F.D)
        for j in range(1, F.N + 2):
            pw = pw @ tm / j
            ep = ep + pw
            em = em + pw * (-1) ** j
        M = em @ hm @ ep
        what = "bch_series(%s %s, %s %s, %d)" % (H.label, show(sp, H), T.label, show(sp, T), order)
    elif mode == "bch":
        high = not general and rng.random() < 0.12      # long series of one-body operators
        H = Op(hl, rand_comps(rng, sp, [1] if high else [1, 1, 2], 1 if high else rng.choice([1, 1, 2])))
        order = rng.choice([5, 5, 6]) if high else min(rng.choice([1, 2, 2, 3]), (total - legs(H.comps)) // 2)
        room = 2 if high else (total - legs(H.comps)) // order
        T = Op(tl, (excitations if rng.random() < 0.5 else rand_comps)(rng, sp, [1, 2] if room >= 4 else [1],
                                                                             1 if high else rng.choice([1, 1, 2])))
        he, hm = build(ctx, rng, w, F, amps, H)
        te, tm = build(ctx, rng, w, F, amps, T)
        what = "bch_series(%s %s, %s %s, %d)" % (H.label, show(sp, H), T.label, show(sp, T), order)
        if rng.random() < (0.7 if high else 0.3) and len(T.comps) == 1:
            # the unitary form, T - T^+
            D = Op(tl, [(a, c) for c, a in T.comps if (a, c) not in T.comps])
            if D.comps:
                de, dm = build(ctx, rng, w, F, amps, D)
                te, tm = te - de, tm - dm
                what += " unitary"
        e = w.bch_series(he, te, order)
        M, C = hm, hm
        for j in range(1, order + 1):
            C = comm(C, tm) / j
            M = M + C
    else:
        nops = rng.choice([2, 2, 3])
        ops, left = [], total
        for j in range(nops):
            o = Op(rng.choice([hl, tl, "X"]), rand_comps(rng, sp, [1, 1, 2] if left >= 4 + 2 * (nops - 1 - j) else [1],
                                                       rng.choice([1, 1, 2]), even=mode == "commutator"))
            if not o.comps or legs(o.comps) > left:
                continue
            left -= legs(o.comps)
            ops.append(o)
        if len(ops) < 2:
            return Result("small", False)
        built = [build(ctx, rng, w, F, amps, o) for o in ops]
        if mode == "commutator":
            e = w.commutator(*[b[0] for b in built])
            M = built[0][1]
            for _, m in built[1:]:
                M = comm(M, m)
        else:
            e, M = built[0]
            for ee, m in built[1:]:
                e, M = e @ ee, M @ m
        what = "%s of %s" % (mode, ", ".join("%s %s" % (o.label, show(sp, o)) for o in ops))
    f = rng.choice([Fraction(1), Fraction(1), Fraction(-1, 2), Fraction(rng.randint(1, 40), rng.randint(1, 40))])
    M = M * float(f)
    wt = w.WickTheorem()
    if high or rng.random() < 0.15:
        wt.do_canonicalize_graph(False)      # without it the cost grows with the factorial of the number of operators
    lo, hi = 0, 2 * total + 4
    target = "operator"
    if full:
        target = "expectation" if general else "residual"
        hi = 0 if general else rng.choice([2, 4, 4, 6])
    elif mode in ("bch", "exp", "commutator") or rng.random() < 0.5:
        if general:
            if rng.random() < 0.6:
                target, hi = "expectation", 0
        elif rng.random() < 0.7:
            target = "residual"
            lo = rng.choice([0, 0, 0, 2])
            hi = rng.choice([0, 2, 4, 6])
            hi = max(lo, hi)
    if high and hi > 2:
        target, lo, hi = "residual", 0, rng.choice([0, 2])
    ctx.top("order_of_the_series", order if mode in ("bch", "exp") else 0)
    what += " * %s, ranks %d..%d, %s" % (f, lo, hi, target)
    ctx.log(what)
    t0 = time.time()
    expr = wt.contract(texpr.rat(w, f), e, lo, hi)
    eqs = expr.to_manybody_equation("R")
    ctx.top("contract_s", time.time() - t0)
    if os.environ.get("WV_SHOW") and time.time() - t0 > 1:
        print("%.1fs" % (time.time() - t0), sp, what, flush=True)
    pretty = rng.random() < 0.3
    R, n, texts = {}, 0, []
    env = {"np": np}
    env.update(amps)
    for key, lst in eqs.items():
        for q in lst:
            h = q.lhs().tensors()[0]
            up = [x.space() for x in h.upper()]
            low = [x.space() for x in h.lower()]
            name = "R" + "".join(sp[k].label for k in up + low)
            if name not in R:
                z = np.zeros([sp[k].n for k in up + low])
                R[name] = (up, low)
                env[name] = z if z.shape else 0.0
            if R[name] != (up, low):
                raise Ambiguous()
            for t in q.rhs().tensors():
                reference_tensor(ctx, F, sp, env, t)
            code = None
            if pretty:
                try:
                    code = w.compile_einsum(q)
                except IndexError:      # not enough index names
                    code = None
            if code is None:
                code = q.compile("einsum")
            try:
                exec(compile(code, "<generated>", "exec"), env)
            except Exception as ex:
                ctx.fail("does-not-run", "%s: the code of\n%s\nis\n%s\nand raises %s: %s" % (what, q, code, type(ex).__name__, ex))
            n += 1
            if len(texts) < 8:
                texts.append(code)
    ctx.count("equations_executed", n)
    ctx.count("pipelines_" + target)
    ctx.count("pipelines_mode_" + mode)
    ctx.top("equations_of_a_pipeline", n)
    if target == "expectation":
        got = np.array([env.get("R", 0.0)])
        bad = [k for k in R if k != "R"]
        if bad:
            ctx.fail("window", "%s: equations for %s in a scalar window" % (what, bad))
        want = np.array([np.sum(F.rho * M.T)])
    elif target == "residual":
        got = np.zeros(F.D)
        for name, (up, low) in R.items():
            if all(sp[k].stype == "unoccupied" for k in low) and all(sp[k].stype == "occupied" for k in up):
                got = got + F.string(up, low, env[name])[:, F.phi]
        want = M[:, F.phi].copy()
        for x in range(F.D):
            d = bin(x ^ F.phi).count("1")
            if d < lo or d > hi:
                want[x] = 0
    else:
        got = np.zeros((F.D, F.D))
        for name, (up, low) in R.items():
            got = got + F.string(up, low, env[name])
        want = M
    scale = 1 + np.abs(want).max()
    err = np.abs(got - want).max()
    if not err <= TOL * scale * 10:
        ctx.fail("residual", "%s\nthe executed equations differ from the matrix elements by %g (largest value %g)\n%s"
                 % (what, err, np.abs(want).max(), "\n".join(texts)))
    value = float(np.abs(want).max())
    return Result([what] + texts[:3], n >= 2 and value > 1e-6, "%s: %d equations, largest element %.3g, deviation %.1e" % (what, n, value, err))


def reference_tensor(ctx, F, sp, env, t):
    l = t.label()
    m = re.fullmatch(r"gamma1|eta1|lambda(\d)", l)
    if not m:
        return
    up, low = [x.space() for x in t.upper()], [x.space() for x in t.lower()]
    b = env.setdefault(l, Blocks(l))
    blk = "".join(sp[k].label for k in up + low)
    if blk in b:
        return
    if l == "gamma1":
        b[blk] = F.gamma1(up[0], low[0])
    elif l == "eta1":
        b[blk] = F.eta1(up[0], low[0])
    else:
        b[blk] = F.lam(int(m.group(1)), up, low)


def show(sp, op):
    return " + ".join("{%s}" % gen.component(sp, c, a) for c, a in op.comps)
