"""Neutral views of the library's objects, read through its public Python API."""
import re
from collections import namedtuple
from fractions import Fraction

Tens = namedtuple("Tens", "label up lo sym")
Term = namedtuple("Term", "coef tensors ops no")  # ops: (is_creation, space, pos)


def q(r):
    """exact value of a wicked rational"""
    m = re.fullmatch(r"rational\((-?\d+),(-?\d+)\)", repr(r))
    if not m:
        raise ValueError("unreadable rational %r" % repr(r))
    return Fraction(int(m.group(1)), int(m.group(2)))


def raw_q(r):
    m = re.fullmatch(r"rational\((-?\d+),(-?\d+)\)", repr(r))
    return int(m.group(1)), int(m.group(2))


def idx(i):
    return (i.space(), i.pos())


def tens(w, t):
    sym = {w.sym.anti: "anti", w.sym.symm: "symm", w.sym.none: "none"}[t.symmetry()]
    return Tens(t.label(), [idx(i) for i in t.upper()], [idx(i) for i in t.lower()], sym)


def symterm(w, st, coef=Fraction(1)):
    ts = [tens(w, t) for t in st.tensors()]
    ops = [(o.type() == w.type.cre, *idx(o.index())) for o in st.ops()]
    return Term(coef, ts, ops, "{ " in str(st) and bool(ops))


def terms(w, e):
    return [symterm(w, st, q(c)) for st, c in e]


def key(t):
    """structural identity of a term (everything but the coefficient)"""
    return (tuple((x.label, tuple(x.up), tuple(x.lo)) for x in t.tensors), tuple(t.ops))


def as_dict(ts):
    d = {}
    for t in ts:
        k = key(t)
        d[k] = d.get(k, 0) + t.coef
    return {k: c for k, c in d.items() if c != 0}


def show(ts, labels, limit=40):
    out = []
    for t in ts[:limit]:
        s = str(t.coef)
        for x in t.tensors:
            s += " %s^{%s}_{%s}" % (x.label, ",".join(labels[a] + str(b) for a, b in x.up),
                                    ",".join(labels[a] + str(b) for a, b in x.lo))
        for c, a, b in t.ops:
            s += " a%s(%s%d)" % ("+" if c else "-", labels[a], b)
        out.append(s)
    if len(ts) > limit:
        out.append("... %d terms" % len(ts))
    return "\n".join(out)


_num = r"(\d+)(?:/(\d+))?"


def opexpr(w, oe, labels):
    """[(coef, [(label, cre counts, ann counts)...])] read from the printed form"""
    s = str(oe)
    res = []
    if s == "":
        return res
    pos = {l: k for k, l in enumerate(labels)}
    for line in s.split("\n"):
        m = re.match(r"([+-]?)(?:(\d+)(?:/(\d+))?)?(?= |$)", line)
        if not m:
            raise ValueError("unreadable operator expression line %r" % line)
        c = Fraction(int(m.group(2) or 1), int(m.group(3) or 1))
        if m.group(1) == "-":
            c = -c
        rest = line[m.end():].strip()
        prod = []
        while rest:
            m = re.match(r"(?:(-?\d+)(?:/(\d+))? )?(\S+) \{((?: [A-Za-z]\+?)*) \}\s*", rest)
            if not m:
                raise ValueError("unreadable operator %r" % rest)
            cre = [0] * len(labels)
            ann = [0] * len(labels)
            for el in m.group(4).split():
                (cre if el.endswith("+") else ann)[pos[el[0]]] += 1
            pref = Fraction(int(m.group(1) or 1), int(m.group(2) or 1))
            prod.append((m.group(3), tuple(cre), tuple(ann), pref))
            rest = rest[m.end():]
        res.append((c, prod))
    return res
