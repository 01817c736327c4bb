"""Printed expressions read back to the same expression."""
from fractions import Fraction

from wv import gen, sem, texpr
from wv.core import Result

VARIANTS = ["plain"]
CASES = {"quick": 12000, "thorough": 300000}
MIN_NONTRIVIAL = {"quick": 3000, "thorough": 50000}
RULE = ("random indices, tensors, terms, expressions and rationals, and contraction, canonicalization and normal-ordering "
        "results, are printed and read back; the objects, their text, and an independent model of the text are compared; "
        "text written with other documented spacings is read; malformed indices and tensors must be refused; similar but "
        "different expressions must print differently; non-trivial when the expression has several terms, a coefficient "
        "other than one, a tensor and an operator; distinct = distinct texts")
ASSUMPTIONS = ["tensor labels are words that start with a letter", "non-negative index positions"]


def text_index(rng, spaces, i, fancy=True):
    zeros = "0" * rng.choice([1, 1, 2, 5]) if fancy and rng.random() < 0.04 else ""
    return "%s%s%s%d" % (spaces[i[0]].label, "_" if fancy and rng.random() < 0.3 else "", zeros, i[1])


def sp(rng):
    return rng.choice(["", "", " ", "  "])


def text_tensor(rng, spaces, t, fancy=True):
    lab, lo, up, _ = t

    def lst(ix):
        if not fancy:
            return ",".join(text_index(rng, spaces, i, False) for i in ix)
        return ",".join(sp(rng) + text_index(rng, spaces, i) + sp(rng) for i in ix)
    return "%s^{%s}_{%s}" % (lab, lst(up), lst(lo))


def text_term(rng, spaces, t, first, fancy=True):
    """the documented notation of a term"""
    s = ["%s" % text_tensor(rng, spaces, x, fancy) for x in t.tensors]
    o = ["%s%s(%s)" % ("b" if spaces[a].field == "boson" else "a", "+" if c else "-",
                       text_index(rng, spaces, (a, b), fancy)) for c, a, b in t.ops]
    if o and t.flag:
        o = ["{"] + o + ["}"]
    body = " ".join(s + o)
    c = t.coef
    sign = "-" if c < 0 else ("" if first else "+")
    if not body:
        return sign + str(abs(c))
    if abs(c) == 1:
        num = rng.choice(["", "1 "]) if fancy else ""
    else:
        num = str(abs(c)) + " "
    return sp(rng) + sign + num + body if fancy else sign + num + body


def same(ctx, what, a, b):
    """two lists of PT: same terms, order, coefficients, flags and symmetries"""
    fa = [(t.key(), t.coef, t.flag, [x[3] for x in t.tensors]) for t in a]
    fb = [(t.key(), t.coef, t.flag, [x[3] for x in t.tensors]) for t in b]
    if fa != fb:
        k = next((k for k in range(min(len(fa), len(fb))) if fa[k] != fb[k]), None)
        ctx.fail("round-trip", "%s: %d and %d terms; first difference\n%s\n%s"
                 % (what, len(fa), len(fb), fa[k] if k is not None else "-", fb[k] if k is not None else "-"))


def run_case(ctx, rng, i):
    r = rng.random()
    if r < 0.2:
        return small(ctx, rng)
    if r < 0.3:
        return results(ctx, rng)
    if r < 0.55:
        return written(ctx, rng)
    return expressions(ctx, rng)


def sym_value(w, s):
    return {"anti": w.sym.anti, "symm": w.sym.symm, "none": w.sym.none}[s]


def rand_pos(rng):
    return rng.choice([0, 1, 2, 3, 9, 10, 11, 12, 99, 100, 123456, 2147483647])


def small(ctx, rng):
    """indices, tensors, operators, rationals"""
    w = ctx.w
    spaces = texpr.rand_spaces(rng)
    texpr.register(w, spaces)
    ctx.log("spaces %s" % spaces)
    for _ in range(6):
        ij = (rng.randrange(len(spaces)), rand_pos(rng))
        x = w.Index(*ij)
        s = str(x)
        y = w.index(s)
        if not (x == y) or (y.space(), y.pos()) != ij or str(y) != s or s != repr(x):
            ctx.fail("index", "%s (%s) is read as %s (%d,%d)" % (s, ij, y, y.space(), y.pos()))
        t = text_index(rng, spaces, ij)
        y = w.index(t)
        if (y.space(), y.pos()) != ij:
            ctx.fail("index", "%s is read as (%d,%d), expected %s" % (t, y.space(), y.pos(), ij))
        o = (rng.random() < 0.5, *ij)
        for p in (w.sqoperator(t, w.type.cre if o[0] else w.type.ann), (w.cre if o[0] else w.ann)(s), texpr.sqop(w, o)):
            want = "%s%s(%s)" % ("b" if spaces[ij[0]].field == "boson" else "a", "+" if o[0] else "-", s)
            if (p.type() == w.type.cre, p.index().space(), p.index().pos()) != o or str(p) != want:
                ctx.fail("operator", "%s read as %s" % (want, p))
        ctx.count("indices_read", 5)
    ixs = [(rng.randrange(len(spaces)), rand_pos(rng)) for _ in range(rng.randint(1, 6))]
    t = ",".join(sp(rng) + text_index(rng, spaces, x) + sp(rng) for x in ixs)
    got = [(x.space(), x.pos()) for x in w.indices(t)]
    if got != ixs:
        ctx.fail("indices", "%r is read as %s, expected %s" % (t, got, ixs))
    for _ in range(4):
        lab = rng.choice(texpr.LABELS + ["T1b", "_x", "a", "b", "a_", "%s1" % spaces[0].label, "Lambda22"])
        lab = lab if lab[0] != "_" else "x" + lab
        nl, nu = rng.randint(0, 4), rng.randint(0, 4)
        pt = (lab, [(rng.randrange(len(spaces)), rand_pos(rng)) for _ in range(nl)],
              [(rng.randrange(len(spaces)), rand_pos(rng)) for _ in range(nu)], rng.choice(texpr.SYMS))
        x = texpr.tensor(w, pt)
        if str(x) != text_tensor(rng, spaces, pt, False) or repr(x) != str(x):
            ctx.fail("tensor", "%s is printed as %s" % (pt, x))
        txt = text_tensor(rng, spaces, pt)
        for y in (w.tensor(str(x), sym_value(w, pt[3])), w.tensor(txt, sym_value(w, pt[3])),
                  w.tensor(lab, [text_index(rng, spaces, q) for q in pt[1]], [text_index(rng, spaces, q) for q in pt[2]],
                           sym_value(w, pt[3]))):
            b = (y.label(), [(q.space(), q.pos()) for q in y.lower()], [(q.space(), q.pos()) for q in y.upper()])
            if b != pt[:3] or y.symmetry() != sym_value(w, pt[3]) or not str(y) == str(x):
                ctx.fail("tensor", "%s or %s is read as %s" % (x, txt, y))
        ctx.count("tensors_read", 3)
    used = {s.label for s in spaces}
    free = rng.choice([c for c in texpr.LETTERS if c not in used])
    l0 = spaces[0].label
    for s in rng.sample(["", " ", l0, "1", l0 + "_", "_1", l0 + "-1", l0 + l0 + "1", l0 + "1" + l0, l0 + "1.5", l0 + "__1", "?1",
                         l0 + " 1", l0 + "1 ", free + "0", free + "_3", l0 + "99999999999", "{%s1}" % l0, l0 + "^1", l0 + "1,"], 6):
        ctx.raises(lambda: w.index(s), "malformed-index", "index(%r) with spaces %s" % (s, sorted(used)))
        ctx.raises(lambda: w.cre(s), "malformed-index", "cre(%r)" % s)
        ctx.raises(lambda: w.tensor("T", [s], [], w.sym.anti), "malformed-index", "tensor('T',[%r],[])" % s)
        ctx.count("refusals", 3)
    for s in rng.sample(["T", "T^{}", "T_{}", "T_{}^{}", "^{}_{}", "T^{%s0}_{%s}" % (l0, l0), "T^{%s0}_{%s0" % (l0, l0),
                         "T^{%s1 %s2}_{}" % (l0, l0), "T^{%s0,}_{,}" % l0 if False else "T^{,}_{}", "T^%s0_%s1" % (l0, l0),
                         "T^{%s0}_{%s0}" % (free, l0), "T^{%s0}_{%s0}x" % (l0, l0), "T-^{%s0}_{%s0}" % (l0, l0), "",
                         "T^{%s0}_{{%s0}}" % (l0, l0), "T^{%s0}_{}^{%s1}" % (l0, l0), "T^{-1}_{}"], 5):
        ctx.raises(lambda: w.tensor(s, w.sym.anti), "malformed-tensor", "tensor(%r) with spaces %s" % (s, sorted(used)))
        ctx.count("refusals")
    for _ in range(4):
        f = rng.choice([texpr.rand_coef(rng, True), Fraction(0), Fraction(1), Fraction(-1)])
        x = texpr.rat(w, f)
        for s in (x.str(False), x.str(True)):
            y = w.make_rational(s)
            if not (y == x) or sem.q(y) != f or y.str(True) != x.str(True):
                ctx.fail("rational", "%s is printed as %r and read as %r" % (f, s, y))
        ctx.count("rationals_read", 2)
    return Result((ctx.trace, ixs), len(ixs) > 1)


def expressions(ctx, rng):
    w = ctx.w
    spaces = texpr.rand_spaces(rng)
    texpr.register(w, spaces)
    big = rng.random() < 0.4
    pmax = rng.choice([3, 12, 200])
    # one symmetry and one order per expression: both are parameters of the reader
    sym = rng.choice(texpr.SYMS)
    pts = [texpr.rand_term(rng, spaces, ntens=(0, 3), nops=(0, 5), big=big, pmax=pmax)
           for _ in range(rng.choice([70, 130]) if rng.random() < 0.01 else rng.choice([1, 1, 2, 4, 7]))]
    for t in pts:
        t.tensors = [(l, lo, up, sym) for l, lo, up, _ in t.tensors]
        if not t.ops:
            t.flag = False
    if rng.random() < 0.15:
        pts.append(texpr.PT(texpr.rand_coef(rng, big), [], []))
    e = texpr.expression(w, pts, rng)
    mine = texpr.back(w, e)
    s = str(e)
    ctx.log(s)
    for t, line in zip(mine, s.split("\n")):
        pass
    # what is printed: the documented notation, one term per line
    first = [text_term(rng, spaces, t, k == 0, False) for k, t in enumerate(mine)]
    if s.split("\n") != first and mine:
        ctx.fail("printed", "the expression prints as\n%s\nbut its terms are\n%s" % (s, "\n".join(first)))
    if repr(e) != s:
        ctx.fail("printed", "repr differs from str")
    if sym == "anti":
        back = w.string_to_expr(s)
        same(ctx, "string_to_expr(str(e)) for\n" + s, texpr.back(w, back), mine)
        if not (back == e) or not (e == back) or str(back) != s:
            ctx.fail("round-trip", "the expression read back from\n%s\nis not equal to it:\n%s" % (s, back))
    back = w.Expression()
    for line in s.split("\n"):
        x = w.expression(line, sym_value(w, sym))
        if len(x) > 1:
            ctx.fail("round-trip", "%r is read as %d terms" % (line, len(x)))
        back += x
    same(ctx, "expression(line) for\n" + s, texpr.back(w, back), mine)
    ctx.count("terms_read", 2 * len(mine))
    # the printed forms of single terms
    for t in pts:
        o = texpr.term(w, t)
        if "".join(str(o).split()) != "".join(text_term(rng, spaces, t, True, False).split()) or repr(o) != str(o):
            ctx.fail("printed", "the term prints as\n%r\nexpected\n%r" % (str(o), text_term(rng, spaces, t, True, False)))
        x = w.expression(str(o), sym_value(w, sym))
        same(ctx, "term " + str(o), texpr.back(w, x), [t])
        y = w.expression(str(texpr.symterm(w, t)), sym_value(w, sym))
        if t.tensors or t.ops:
            u = t.copy()
            u.coef = Fraction(1)
            same(ctx, "symbolic term " + str(o), texpr.back(w, y), [u])
        ctx.count("terms_read", 2)
    # similar expressions print differently
    if mine:
        for _ in range(3):
            u = [t.copy() for t in mine]
            t = rng.choice(u)
            mutate(rng, spaces, t)
            f = texpr.expression(w, u)
            if len(f) != len(u):
                continue
            if texpr.model(u) != texpr.model(mine):
                ctx.count("similar_pairs_compared")
                if str(f) == s:
                    ctx.fail("same-text", "two different expressions print as\n%s" % s)
                if f == e:
                    ctx.fail("equal", "two different expressions are equal:\n%s\n%s" % (s, f))
    nt = len(mine) > 1 and any(abs(t.coef) != 1 for t in mine) and any(t.tensors for t in mine) and any(t.ops for t in mine)
    return Result(s, nt, s if nt else None)


def mutate(rng, spaces, t):
    r = rng.random()
    if r < 0.2:
        t.coef = rng.choice([-t.coef, t.coef + 1, 1 / t.coef, t.coef + Fraction(1, 10 ** 40)]) or Fraction(7)
    elif r < 0.6 and t.tensors:
        k = rng.randrange(len(t.tensors))
        l, lo, up, s = t.tensors[k]
        q = rng.choice(["swap", "label", "index", "move"])
        if q == "swap":
            lo, up = up, lo
        elif q == "label":
            l += rng.choice(["1", "a", "_"])
        elif q == "index" and lo:
            j = rng.randrange(len(lo))
            lo[j] = rng.choice([(lo[j][0], lo[j][1] + 1), (lo[j][0], lo[j][1] * 10 + 1),
                                ((lo[j][0] + 1) % len(spaces), lo[j][1])])
        elif q == "move" and lo:
            up = up + [lo[-1]]
            lo = lo[:-1]
        t.tensors[k] = (l, lo, up, s)
    elif t.ops:
        k = rng.randrange(len(t.ops))
        c, a, b = t.ops[k]
        q = rng.choice(["type", "index", "swap", "drop"])
        if q == "type":
            t.ops[k] = (not c, a, b)
        elif q == "index":
            t.ops[k] = (c, a, b * 10 + 1)
        elif q == "swap":
            j = rng.randrange(len(t.ops))
            t.ops[k], t.ops[j] = t.ops[j], t.ops[k]
        else:
            del t.ops[k]


def written(ctx, rng):
    """text in the documented notation, not produced by the library"""
    w = ctx.w
    spaces = texpr.rand_spaces(rng)
    texpr.register(w, spaces)
    sym = rng.choice(texpr.SYMS)
    big = rng.random() < 0.3
    lines, want = [], []
    for k in range(rng.choice([1, 2, 4])):
        t = texpr.rand_term(rng, spaces, ntens=(0, 3), nops=(0, 4), big=big, pmax=rng.choice([3, 200]))
        t.tensors = [(l, lo, up, sym) for l, lo, up, _ in t.tensors]
        t.flag = t.flag and bool(t.ops)
        s = text_term(rng, spaces, t, k == 0)
        ctx.log(repr(s))
        x = w.expression(s, sym_value(w, sym))
        same(ctx, "expression(%r)" % s, texpr.back(w, x), [t])
        lines.append(s)
        want.append(t)
        ctx.count("terms_read")
    if sym == "anti":
        x = w.string_to_expr("\n".join(lines))
        got = {t.key(): t.coef for t in texpr.back(w, x)}
        if got != texpr.model(want):
            ctx.fail("text", "string_to_expr(%r) is\n%s" % ("\n".join(lines), x))
    return Result(lines, len(lines) > 1 and any(t.tensors and t.ops for t in want))


def results(ctx, rng):
    """what the library itself derives"""
    w = ctx.w
    general = rng.random() < 0.4
    spaces = gen.general_spaces(rng) if general else gen.sd_spaces(rng)
    gen.add_spaces(w, spaces)
    ops = gen.rand_product(rng, spaces, 6 if general else 8)
    P = gen.make_product(w, spaces, ops)
    wt = w.WickTheorem()
    e = wt.contract(texpr.rat(w, texpr.rand_coef(rng)), P, 0, 8)
    if len(e) > 60:
        return Result("large", False)
    ctx.log(P)
    if rng.random() < 0.3:
        e = e.adjoint()
    if rng.random() < 0.3:
        e = e.canonicalize()
    s = str(e)
    back = w.string_to_expr(s)
    if not (back == e) or str(back) != s:
        ctx.fail("round-trip", "the result\n%s\nis read back as\n%s" % (s, back))
    ctx.count("terms_read", len(e))
    for eqs in e.to_manybody_equation("H").values():
        for q in eqs:
            x = q.rhs_expression()
            y = w.string_to_expr(str(x))
            if not (y == x):
                ctx.fail("round-trip", "the right-hand side\n%s\nis read back as\n%s" % (x, y))
            ctx.count("terms_read")
    return Result(s, len(e) > 1)
