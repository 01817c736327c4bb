"""LaTeX output is faithful."""
import re
from fractions import Fraction

from wv import gen, sem, texpr
from wv.core import Result

VARIANTS = ["plain"]
CASES = {"quick": 24000, "thorough": 500000}
MIN_NONTRIVIAL = {"quick": 6000, "thorough": 100000}
RULE = ("the LaTeX of random expressions (fermions and bosons, large coefficients, indices within and beyond the registered "
        "names) and of contraction results is parsed by an independent reader that resolves index labels through the registered "
        "names, and compared term by term with the object: coefficient, tensor labels, index order, operators, braces; "
        "non-trivial when the expression has several terms, operators, and an index beyond the registered names; "
        "distinct = distinct LaTeX texts")
ASSUMPTIONS = ["tensor labels that LaTeX output accepts: a word and an optional number (greek names lose the number by design)",
               "registered index names contain no spaces and do not look like label_{n}"]

GREEK = {"alpha", "beta", "gamma", "delta", "epsilon", "zeta", "eta", "theta", "iota", "kappa", "lambda", "mu", "nu", "xi",
         "omicron", "pi", "rho", "sigma", "tau", "upsilon", "phi", "chi", "psi", "omega"}
LABELS = ["T", "V", "F", "X", "Gamma1", "lambda2", "h_1", "t2", "A9", "eta1", "gamma1", "delta", "Lambda", "R", "omega", "T12",
          "lambda12", "eta_10", "rho_333", "chi", "T_104", "Sigma20", "alpha0", "taus", "Mu"] + sorted(GREEK)
BR = r"\{((?:[^{}]|\{[^{}]*\})*)\}"


class Unreadable(Exception):
    pass


class Reader:
    def __init__(self, spaces):
        self.map = {}
        self.spaces = spaces
        for s, x in enumerate(spaces):
            for p, n in enumerate(x.names):
                self.map[n] = (s, p)
        self.label = {x.label: s for s, x in enumerate(spaces)}

    def index(self, t):
        if t in self.map:
            return self.map[t]
        m = re.fullmatch(r"([a-zA-Z])_\{(\d+)\}", t)
        if not m or m.group(1) not in self.label:
            raise Unreadable("index label %r" % t)
        s, p = self.label[m.group(1)], int(m.group(2))
        if p < len(self.spaces[s].names):
            raise Unreadable("index %r has the registered name %s" % (t, self.spaces[s].names[p]))
        return s, p

    def indices(self, t):
        return [self.index(x) for x in t.split(" ") if x] if t else []

    def body(self, s):
        """tensors and operators of a term; (tensors, ops, flag)"""
        ts, ops, flag = [], [], False
        s = s.strip()
        while s.startswith("{"):
            m = re.match(r"\{(\\?)([a-zA-Z]+)(?:_\{(\d+)\})?\}\^%s_%s(?: |$)" % (BR, BR), s)
            if not m:
                raise Unreadable("tensor at %r" % s[:60])
            if bool(m.group(1)) is not (m.group(2) in GREEK):
                raise Unreadable("tensor label %r" % m.group(0))
            ts.append(((m.group(2), m.group(3)), self.indices(m.group(5)), self.indices(m.group(4))))
            s = s[m.end():].lstrip()
        if s.startswith("\\{"):
            if not s.endswith("\\}"):
                raise Unreadable("braces %r" % s)
            flag = True
            s = s[2:-2].strip()
        while s:
            m = re.match(r"\\hat\{([ab])\}(?:\^%s_%s|\^%s|_%s)(?: |$)" % (BR, BR, BR, BR), s)
            if not m:
                raise Unreadable("operator at %r" % s[:60])
            k, g = m.group(1), m.groups()[1:]
            if g[0] is not None or g[1] is not None:
                up, lo = self.indices(g[0]), self.indices(g[1])
                ops += [(k, True, i) for i in up] + [(k, False, i) for i in reversed(lo)]
            elif g[2] is not None:
                ops.append((k, True, self.index(g[2])))
            else:
                ops.append((k, False, self.index(g[3])))
            s = s[m.end():].lstrip()
        return ts, ops, flag

    def term(self, s, first):
        m = re.match(r"([+-]?)(?:\\frac\{(\d+)\}\{(\d+)\}|(\d+))?(?= |$)", s)
        if not m or (not first and not m.group(1) and m.group(4) != "0"):
            raise Unreadable("coefficient at %r" % s[:60])
        rest = s[m.end():].strip()
        if m.group(2):
            c = Fraction(int(m.group(2)), int(m.group(3)))
            if c.denominator != int(m.group(3)):
                raise Unreadable("fraction %r" % m.group(0))
        elif m.group(4):
            c = Fraction(int(m.group(4)))
        elif rest:
            c = Fraction(1)
        else:
            raise Unreadable("a scalar without a number: %r" % s)
        return -c if m.group(1) == "-" else c, self.body(rest)


def shown(label):
    m = re.fullmatch(r"([a-zA-Z]+)_?(\d+)?", label)
    return (m.group(1), None if m.group(1) in GREEK else m.group(2))


def model(spaces, t):
    return ([(shown(l), list(lo), list(up)) for l, lo, up, _ in t.tensors],
            [("b" if spaces[s].field == "boson" else "a", c, (s, p)) for c, s, p in t.ops], bool(t.flag and t.ops))


def reading(ctx, key, fn, text):
    try:
        return fn()
    except Unreadable as e:
        ctx.fail(key, "unreadable LaTeX (%s):\n%s" % (e, text))


def compare(ctx, rd, spaces, what, text, pts, sep):
    lines = text.split(sep) if pts else ([] if text == "" else [text])
    if len(lines) != len(pts):
        ctx.fail("terms", "%s has %d terms but its LaTeX\n%s" % (what, len(pts), text))
    for k, (line, t) in enumerate(zip(lines, pts)):
        c, b = reading(ctx, "unreadable", lambda: rd.term(line, k == 0), line)
        ctx.count("terms_compared")
        if c != t.coef:
            ctx.fail("coefficient", "the LaTeX of %s is\n%s" % (t.show(spaces), line))
        if b != model(spaces, t):
            ctx.fail("term", "the LaTeX of\n%s\nis\n%s" % (t.show(spaces), line))


def run_case(ctx, rng, i):
    w = ctx.w
    if rng.random() < 0.1:
        return wick(ctx, rng)
    spaces = texpr.rand_spaces(rng)
    for s in spaces:
        if s.names and rng.random() < 0.3:
            s.names[rng.randrange(len(s.names))] = rng.choice(["\\alpha", "x'", "i1", "k_2"]) + s.label
    pmax = rng.choice([3, 9, 30, 30, 400, 5000])
    if rng.random() < 0.08:
        # spaces with many names
        pmax = rng.choice([60, 150])
        for s in spaces:
            s.names += ["%s_%d" % (s.label, n) for n in range(rng.choice([30, 70, 120]))]
    texpr.register(w, spaces)
    rd = Reader(spaces)
    big = rng.random() < 0.3
    pts = [texpr.rand_term(rng, spaces, ntens=(0, 3), nops=(0, 5), labels=rng.sample(LABELS, 3), big=big, pmax=pmax)
           for _ in range(rng.choice([1, 2, 4]))]
    for t in pts:
        if rng.random() < 0.5:
            t.ops = [o for o in t.ops if o[0]] + [o for o in t.ops if not o[0]]
    if rng.random() < 0.1:
        pts.append(texpr.PT(texpr.rand_coef(rng), [], []))
    e = texpr.expression(w, pts, rng)
    mine = texpr.back(w, e)
    ctx.log("spaces %s %s\n%s" % (spaces, [s.names for s in spaces], e))
    sep = " \\\\ \n"
    text = e.latex()
    compare(ctx, rd, spaces, "the expression", text, mine, sep)
    sep = rng.choice(["\n", " ; ", "@"])
    compare(ctx, rd, spaces, "the expression", e.latex(sep), mine, sep)
    for t in pts:
        x = texpr.term(w, t).latex()
        compare(ctx, rd, spaces, "the term", x, [t], "@@")
        y = texpr.symterm(w, t).latex()
        b = reading(ctx, "unreadable", lambda: rd.body(y), y)
        if b != model(spaces, t):
            ctx.fail("term", "the LaTeX of\n%s\nis\n%s" % (t.show(spaces), y))
        for x in t.tensors:
            y = texpr.tensor(w, x).latex()
            b = reading(ctx, "unreadable", lambda: rd.body(y), y)
            if b != ([(shown(x[0]), x[1], x[2])], [], False):
                ctx.fail("tensor", "the LaTeX of %s is %s" % (x, y))
        for o in t.ops:
            y = texpr.sqop(w, o).latex()
            b = reading(ctx, "unreadable", lambda: rd.body(y), y)
            if b != model(spaces, texpr.PT(1, [], [o]))[:0] + ([], model(spaces, texpr.PT(1, [], [o]))[1], False):
                ctx.fail("operator", "the LaTeX of %s is %s" % (texpr.sqop(w, o), y))
    # labels: the registered names, then the label with a number; all different
    seen = {}
    for s, x in enumerate(spaces):
        for p in range(len(x.names) + 3):
            y = w.Index(s, p).latex()
            want = x.names[p] if p < len(x.names) else "%s_{%d}" % (x.label, p)
            if y != want:
                ctx.fail("index", "index %s is shown as %s, expected %s" % (w.Index(s, p), y, want))
            if seen.setdefault(y, (s, p)) != (s, p):
                ctx.fail("index", "two indices are shown as %s" % y)
            ctx.count("labels_compared")
    for _ in range(3):
        f = rng.choice([texpr.rand_coef(rng, True), Fraction(0)])
        for first in (True, False):
            y = texpr.rat(w, f).latex(first)
            c = f if y in ("+", "-") and f == (1 if y == "+" else -1) else \
                reading(ctx, "unreadable", lambda: rd.term(y, first or f == 0)[0], y)
            if c != f:
                ctx.fail("rational", "the LaTeX of %s is %r" % (f, y))
    beyond = any(p >= len(spaces[s].names) for t in mine for s, p in t.indices())
    return Result(text, len(mine) > 1 and beyond and any(t.ops for t in mine), text)


def wick(ctx, rng):
    w = ctx.w
    general = rng.random() < 0.5
    fs = gen.general_spaces(rng) if general else gen.sd_spaces(rng)
    pool = list(texpr.LETTERS)
    rng.shuffle(pool)
    spaces = [texpr.Sp(s.label, s.field, s.stype, [pool.pop() for _ in range(rng.choice([1, 3, 6]))]) for s in fs]
    texpr.register(w, spaces)
    P = gen.make_product(w, fs, gen.rand_product(rng, fs, 6 if general else 8))
    e = w.WickTheorem().contract(texpr.rat(w, texpr.rand_coef(rng)), P, 0, 8)
    if len(e) > 80:
        return Result("large", False)
    ctx.log("%s\n%s" % (P, e))
    text = e.latex()
    compare(ctx, Reader(spaces), spaces, "the result", text, texpr.back(w, e), " \\\\ \n")
    return Result(text, len(e) > 1)
