"""Random symbolic expressions together with an independent Python model of them."""
import string
from fractions import Fraction

LETTERS = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"


class Sp:
    """a registered orbital space"""

    def __init__(self, label, field, stype, names, n=2):
        self.label, self.field, self.stype, self.names, self.n = label, field, stype, names, n

    def __repr__(self):
        return "%s(%s,%s)" % (self.label, self.field, self.stype)


def rand_spaces(rng, bosons=0.3, kmax=4, names=True):
    k = rng.choices(range(1, kmax + 1), [2, 4, 3, 1][:kmax] if kmax <= 4 else None)[0]
    many = kmax > 1 and rng.random() < 0.03
    if many:
        k = rng.choice([5, 6, 7])
    labs = rng.sample(LETTERS, k)
    pool = [c for c in string.ascii_letters]
    rng.shuffle(pool)
    out = []
    for l in labs:
        f = "boson" if rng.random() < bosons else "fermion"
        t = rng.choice(["occupied", "unoccupied", "general"])
        m = rng.choice([0, 2, 5, 7])
        nm = [pool.pop() for _ in range(m)] if names else []
        out.append(Sp(l, f, t, nm, 2 if many else rng.choice([2, 2, 3])))
    return out


def register(w, spaces):
    w.reset_space()
    for s in spaces:
        w.add_space(s.label, s.field, s.stype, s.names)


class PT:
    """coefficient, tensors (label, lower, upper, sym), operators (creation?, space, pos)"""

    def __init__(self, coef, tensors, ops, flag=False):
        self.coef, self.tensors, self.ops, self.flag = Fraction(coef), tensors, ops, flag

    def key(self):
        return (tuple((l, tuple(lo), tuple(up)) for l, lo, up, _ in self.tensors), tuple(self.ops))

    def copy(self):
        return PT(self.coef, [(l, list(lo), list(up), s) for l, lo, up, s in self.tensors], list(self.ops), self.flag)

    def indices(self):
        d = []
        for _, lo, up, _ in self.tensors:
            d += lo + up
        d += [o[1:] for o in self.ops]
        return list(dict.fromkeys(d))

    def rename(self, m):
        f = (lambda i: m.get(i, i))
        return PT(self.coef, [(l, [f(i) for i in lo], [f(i) for i in up], s) for l, lo, up, s in self.tensors],
                  [(c, *f((s, p))) for c, s, p in self.ops], self.flag)

    def show(self, spaces):
        n = (lambda i: "%s%d" % (spaces[i[0]].label, i[1]))
        s = [str(self.coef)]
        for l, lo, up, y in self.tensors:
            s.append("%s^{%s}_{%s}%s" % (l, ",".join(map(n, up)), ",".join(map(n, lo)), "" if y == "anti" else ":" + y))
        o = ["%s%s(%s)" % ("b" if spaces[a].field == "boson" else "a", "+" if c else "-", n((a, b)))
             for c, a, b in self.ops]
        if o and self.flag:
            o = ["{"] + o + ["}"]
        return " ".join(s + o)


SYMS = ("anti", "symm", "none")


FAR = [9, 10, 11, 19, 20, 25, 26, 27, 51, 52, 99, 100, 101, 999, 1000]


def rand_index(rng, spaces, pmax=4):
    if rng.random() < 0.02:
        return (rng.randrange(len(spaces)), rng.choice(FAR))
    return (rng.randrange(len(spaces)), rng.randrange(pmax))


def rand_coef(rng, big=False):
    r = rng.random()
    if r < 0.3:
        return Fraction(1)
    if r < 0.45:
        return Fraction(-1)
    if big and r < 0.7:
        return Fraction(rng.choice([-1, 1]) * rng.randint(1, 10 ** rng.randint(1, 60)), rng.randint(1, 10 ** rng.randint(0, 60)))
    if r < 0.7:
        return Fraction(rng.choice([-1, 1]) * rng.randint(1, 12))
    return Fraction(rng.choice([-1, 1]) * rng.randint(1, 30), rng.randint(1, 30))


LABELS = ["T", "V", "F", "X", "Gamma1", "lambda2", "h_1", "t2", "A9", "eta1", "delta", "Lb_c"]
ALIKE = ["T1", "T1b", "T1c", "T12", "T", "lambda2", "lambda3", "lambda22", "Lb_c", "Lb_d"]


def rand_labels(rng, k):
    """k different labels, in some cases labels that begin alike"""
    return rng.sample(ALIKE if rng.random() < 0.15 else LABELS, k)


def sym_of(label, syms=("anti", "symm")):
    """the symmetry is a function of the label: equality of tensors ignores it"""
    return {"V": "symm", "t2": "symm"}.get(label, "anti") if "none" not in syms else \
        {"V": "symm", "t2": "symm", "delta": "none", "h_1": "none"}.get(label, "anti")


def rand_tensor(rng, spaces, labels, pool, maxrank=3, syms=("anti", "symm")):
    lab = rng.choice(labels)
    nl, nu = rng.choice([(1, 1), (1, 1), (2, 2), (2, 1), (0, 1), (1, 0), (0, 2), (2, 0), (0, 0), (2, 2), (maxrank, maxrank)])
    if rng.random() < 0.03:
        nl, nu = rng.choice([(4, 4), (4, 0), (0, 4), (5, 5), (4, 1), (1, 5), (6, 0), (0, 6)])
    pick = (lambda: rng.choice(pool))
    return (lab, [pick() for _ in range(nl)], [pick() for _ in range(nu)], sym_of(lab, syms))


def rand_term(rng, spaces, ntens=(0, 3), nops=(0, 5), pool=None, labels=None, flag=None, big=False,
              repeat=0.5, syms=("anti", "symm"), pmax=4):
    if pool is None:
        pool = [rand_index(rng, spaces, pmax) for _ in range(rng.randint(2, 7))]
    labels = labels or rand_labels(rng, rng.randint(1, 4))
    ts = [rand_tensor(rng, spaces, labels, pool, syms=syms) for _ in range(rng.randint(*ntens))]
    ops = []
    for _ in range(rng.randint(*nops)):
        s, p = rng.choice(pool) if rng.random() < 0.85 else rand_index(rng, spaces, pmax)
        ops.append((rng.random() < 0.5, s, p))
    return PT(rand_coef(rng, big), ts, ops, rng.random() < 0.3 if flag is None else flag)


# ------------------------------------------------------------------ to the library
def rat(w, fr):
    fr = Fraction(fr)
    if abs(fr.numerator) < 2 ** 31 and fr.denominator < 2 ** 31:
        return w.rational(fr.numerator, fr.denominator)
    return w.make_rational("%d/%d" % (fr.numerator, fr.denominator))


def tensor(w, t):
    lab, lo, up, sym = t
    s = {"anti": w.sym.anti, "symm": w.sym.symm, "none": w.sym.none}[sym]
    return w.Tensor(lab, [w.Index(*i) for i in lo], [w.Index(*i) for i in up], s)


def sqop(w, o):
    return w.SQOperator(w.type.cre if o[0] else w.type.ann, w.Index(o[1], o[2]))


def symterm(w, pt):
    st = w.SymbolicTerm()
    st.set_normal_ordered(pt.flag)
    for t in pt.tensors:
        st.add(tensor(w, t))
    for o in pt.ops:
        st.add(sqop(w, o))
    return st


def term(w, pt):
    t = w.Term()
    t.set(rat(w, pt.coef))
    t.set_normal_ordered(pt.flag)
    for x in pt.tensors:
        t.add(tensor(w, x))
    for o in pt.ops:
        t.add(sqop(w, o))
    return t


def expression(w, pts, rng=None):
    e = w.Expression()
    for pt in pts:
        r = rng.random() if rng else 0
        if r < 0.5:
            e += term(w, pt)
        elif r < 0.8:
            e += (symterm(w, pt), rat(w, pt.coef))
        else:
            e = e + expression(w, [pt])
    return e


def model(pts):
    """the formal combination {key: coefficient}"""
    d = {}
    for t in pts:
        k = t.key()
        d[k] = d.get(k, 0) + t.coef
        if d[k] == 0:
            del d[k]
    return d


# ---------------------------------------------------------------- from the library
def back(w, e):
    """list of PT read from an expression"""
    from wv import sem
    out = []
    syms = {w.sym.anti: "anti", w.sym.symm: "symm", w.sym.none: "none"}
    for st, c in e:
        out.append(back_sym(w, st, sem.q(c), syms))
    return out


def back_sym(w, st, coef=1, syms=None):
    syms = syms or {w.sym.anti: "anti", w.sym.symm: "symm", w.sym.none: "none"}
    ts = [(t.label(), [(i.space(), i.pos()) for i in t.lower()], [(i.space(), i.pos()) for i in t.upper()],
           syms[t.symmetry()]) for t in st.tensors()]
    ops = [(o.type() == w.type.cre, o.index().space(), o.index().pos()) for o in st.ops()]
    s = str(st)
    return PT(coef, ts, ops, bool(ops) and s.rstrip().endswith("}") and s.rfind("{ ") >= 0)
