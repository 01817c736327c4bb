"""No call sequence corrupts memory or crashes the process: hostile call sequences under ASan and UBSan."""
import copy
import importlib
import pickle
import re

from wv import core, gen, texpr
from wv.core import Result, Violation, Inconclusive

VARIANTS = ["asan"]
CASES = {"quick": 4000, "thorough": 120000}
MIN_NONTRIVIAL = {"quick": 1500, "thorough": 20000}
RULE = ("random sequences of about 40 calls with valid and hostile arguments (wrong types, extreme numbers, odd strings, objects "
        "of earlier registries, aliases) on a pool of objects of every class, with the orbital spaces "
        "changed in between, and the workloads of the other checks, in a build with AddressSanitizer, "
        "UndefinedBehaviorSanitizer and libstdc++ assertions; any report or death of the process is a violation, and after "
        "a call that raises the printed forms of its object, its arguments and the registry must be unchanged; non-trivial when "
        "the sequence contained successful and refused calls on at least four classes; distinct = distinct sequences")
ASSUMPTIONS = ["calls whose cost grows without bound with a numeric argument get moderate numbers",
               "objects made with __new__ but never initialized are not used (pybind11 does not protect any class from that)",
               "memory leaks are not counted as corruption"]

BIG = [0, 1, 2, 3, -1, -2, 63, 64, 65, 127, 128, 255, 256, 1000, 2 ** 31 - 1, -2 ** 31, 2 ** 31, 2 ** 63, -2 ** 63 - 1]
LABELS = ["T", "V", "", "t2", "a+", "{}", "^_", "lambda9", "gamma1", "eta1", "\u03b1", "x" * 60, " ", "T T", "\0", "-1", "1/0"]
TEXTS = ["", " ", "o", "o0", "v1", "x0", "o_0", "o-1", "o999999999999", "o0 v1", "o0,v1", "o0,,v1", "0", "zz", "\u00e9",
         "o0^", "a+(o0) a-(v0)", "a+(o0", "a+()", "a-(x9)", "T^{o0}_{v0}", "T^{o0}_{v0", "T^{}_{}", "T^{o0,o0}_{v0,v0}",
         "1/2 T^{o0}_{v0} a+(v0) a-(o0)", "1/0 T^{o0}_{v0}", "{ a+(v0) a-(o0) }", "+1", "-", "1/2", "--1", "1//2", "T^{o0}",
         "-1/3 T^{o0}_{v0} { a+(v0) a-(o0) }\n+2 V^{o0,o1}_{v0,v1} a+(v0) a+(v1) a-(o1) a-(o0)", "\0", "a" * 300,
         "T^{v0,v1,v2,v3,v4,v5}_{o0,o1,o2,o3,o4,o5}", "b+(o0) b-(o0)", "99999999999999999999999999999999/3"]
COMPS = ["o+ v", "v+ o", "v+ v+ o o", "o+ o", "v+ v", "", "+", "o", "o+", "x+ y", "o+ o+ o+ o+", "v+ v+ v+ o o o", "oo", "o ++",
         "o+ v+ v o", "a+ a", "a+ a+ a a", "g+ g", "v+ a", "\u00e9+ o", "0+ 1", "o+v"]
FIELDS = ["fermion", "boson", "fermions", "", "Fermion", "none"]
TYPES = ["occupied", "unoccupied", "general", "composite", "", "virtual"]
OTHER = ["c01", "c02", "c03", "c07", "c08", "c09", "c10", "c12", "c13", "c14", "c15", "c16", "c17", "c18", "c20", "c21", "c22", "c11"]

CLASSES = ["Index", "SQOperator", "Tensor", "SymbolicTerm", "Term", "Expression", "Operator", "OperatorExpression", "Equation",
           "rational", "WickTheorem", "OrbitalSpaceInfo"]


def long_text(rng, n=None):
    """strings that make a recursive matcher run out of stack"""
    n = n or rng.choice([3000, 20000, 50000])
    return rng.choice([
        lambda: "T" * n + "^{o0}_{v0}", lambda: "o" + "1" * n, lambda: "1/" + "3" * n, lambda: " " * n + "T^{o0}_{v0}",
        lambda: "T^{" + ",".join("o%d" % k for k in range(n // 6)) + "}_{v0}", lambda: "T^{" + " " * n + "}_{}",
        lambda: "{ " + " ".join("a+(v%d)" % (k % 50) for k in range(n // 9)) + " }", lambda: "T_" + "1" * n, lambda: "o+ " * (n // 3)])()


class Entry:
    """an object with bounds of its size: legs of the longest string, number of terms"""

    def __init__(self, cls, obj, legs=0, terms=1):
        self.cls, self.obj, self.legs, self.terms = cls, obj, legs, terms


def text(x):
    try:
        return str(x)
    except (RuntimeError, ValueError, IndexError, OverflowError, TypeError) as e:
        return "<%s>" % type(e).__name__


class Fuzz:
    def __init__(self, ctx, rng):
        self.ctx, self.rng, self.w = ctx, rng, ctx.w
        self.pool = {c: [] for c in CLASSES}
        self.ok = self.refused = 0
        self.used = set()

    # ------------------------------------------------------------- arguments
    def num(self):
        return self.rng.choice(BIG) if self.rng.random() < 0.25 else self.rng.randrange(6)

    def small(self, hi=6):
        return self.rng.randrange(hi) if self.rng.random() < 0.85 else self.rng.choice([-1, -5, 63, 64, 200])

    def pick(self, cls):
        """an entry of the class; sometimes of a wrong class, or garbage"""
        r = self.rng.random()
        if r < 0.02:
            return Entry("?", self.rng.choice([None, 3, "o0", [], {}, 1.5, object(), b"x"]))
        if r < 0.04:
            cls = self.rng.choice(CLASSES)
        if not self.pool[cls] or self.rng.random() < 0.1:
            self.make(cls)
        return self.rng.choice(self.pool[cls]) if self.pool[cls] else Entry(cls, None)

    def labels(self):
        try:
            return list(self.w.osi().to_dict()) or ["o"]
        except UnicodeDecodeError:
            return ["o", "v"]

    def text(self, n=None):
        if self.rng.random() < 0.006:
            self.ctx.count("long_strings")
            return long_text(self.rng, n)
        return self.rng.choice(TEXTS)

    def comps(self, n):
        """component strings; most of the time of spaces that exist"""
        if self.rng.random() < 0.25:
            return [self.rng.choice(COMPS) for _ in range(self.rng.randrange(n))]
        labs = self.labels()
        out = []
        for _ in range(self.rng.randint(1, n)):
            a, b = self.rng.choice([(1, 1), (1, 1), (2, 2), (2, 2), (1, 0), (2, 1), (0, 2), (3, 3)])
            out.append(" ".join([self.rng.choice(labs) + "+" for _ in range(a)] + [self.rng.choice(labs) for _ in range(b)]))
        return out

    def put(self, cls, obj, legs=0, terms=1):
        l = self.pool[cls]
        l.append(Entry(cls, obj, legs, terms))
        if len(l) > 5:
            del l[self.rng.randrange(len(l))]

    def some(self, cls, hi=4):
        return [self.pick(cls) for _ in range(self.rng.randrange(hi))]

    # -------------------------------------------------------------- one call
    def call(self, name, fn, *entries, keep=None):
        """runs fn; a call that raises must leave what it was called on unchanged"""
        self.used |= {e.cls for e in entries}
        before = [(text(e.obj), len(e.obj) if e.cls == "Expression" and isinstance(e.obj, self.w.Expression) and initialized(e.obj) else 0)
                  for e in entries]
        reg = text(self.w.osi())
        self.ctx.log(name)
        try:
            r = fn()
        except SystemError:
            raise
        except (RuntimeError, ValueError, IndexError, OverflowError, TypeError, AttributeError, ZeroDivisionError, KeyError,
                MemoryError, pickle.PicklingError) as ex:
            self.refused += 1
            self.ctx.log("   -> %s" % type(ex).__name__)
            after = [(text(e.obj), len(e.obj) if e.cls == "Expression" and isinstance(e.obj, self.w.Expression) and initialized(e.obj) else 0)
                     for e in entries]
            if after != before:
                self.ctx.fail("changed-by-failure", "%s raised %s: %s\nand changed an object:\n%s\n%s" % (name, type(ex).__name__, ex, before, after))
            if not name.startswith(("reset", "OrbitalSpaceInfo")) and text(self.w.osi()) != reg:
                self.ctx.fail("changed-by-failure", "%s raised %s: %s\nand changed the registry:\n%s\n%s"
                              % (name, type(ex).__name__, ex, reg, text(self.w.osi())))
            self.ctx.count("refused_calls")
            return None
        self.ok += 1
        self.ctx.count("successful_calls")
        text(r)
        return r

    # ---------------------------------------------------------- constructors
    def make(self, cls):
        w, rng = self.w, self.rng
        legs, terms = 0, 1
        if cls == "Index":
            r = rng.random()
            if r < 0.7:
                a, b = self.small(4), self.num()
                o = self.call("Index(%d,%d)" % (a, b), lambda: w.Index(a, b))
            else:
                t = self.text()
                o = self.call("index(%r)" % t[:80], lambda: w.index(t))
        elif cls == "SQOperator":
            if rng.random() < 0.7:
                i = self.pick("Index")
                ty = rng.choice([w.type.cre, w.type.ann]) if rng.random() < 0.97 else rng.choice([w.stat.boson, 7, None])
                o = self.call("SQOperator(%s,%s)" % (ty, text(i.obj)), lambda: w.SQOperator(ty, i.obj), i)
            else:
                t = self.text()
                f = rng.choice([w.cre, w.ann])
                o = self.call("cre/ann(%r)" % t[:80], lambda: f(t))
        elif cls == "Tensor":
            lo, up = self.some("Index", 7), self.some("Index", 7)
            l = rng.choice(LABELS) if rng.random() < 0.995 else "T" * 60000
            s = rng.choice([w.sym.anti, w.sym.symm, w.sym.none])
            if rng.random() < 0.75:
                o = self.call("Tensor(%r,...)" % l[:80], lambda: w.Tensor(l, [e.obj for e in lo], [e.obj for e in up], s), *lo, *up)
            elif rng.random() < 0.5:
                t = self.text()
                o = self.call("tensor(%r)" % t[:80], lambda: w.tensor(t, s))
            else:
                a, b = ([rng.choice(["o0", "v1", "zz", ""]) for _ in range(3)] for _ in "ab")
                o = self.call("tensor(%r,%s,%s)" % (l, a, b), lambda: w.tensor(l, a, b, s))
        elif cls == "SymbolicTerm":
            o = w.SymbolicTerm()
            n = self.fill(o, "SymbolicTerm")
            legs = n
        elif cls == "Term":
            if rng.random() < 0.5:
                o = w.Term()
                legs = self.fill(o, "Term")
            else:
                s = self.pick("SymbolicTerm")
                o = self.call("Term(symterm)", lambda: w.Term(s.obj), s)
                legs = s.legs
        elif cls == "rational":
            r = rng.random()
            if r < 0.5:
                a, b = self.num(), self.num()
                o = self.call("rational(%d,%d)" % (a, b), lambda: w.rational(a, b))
            elif r < 0.6:
                a = self.num()
                o = self.call("rational(%d)" % a, lambda: w.rational(a))
            else:
                t = rng.choice(["1/2", "-3", "", "1/0", "0/0", "x", "1/", "/2", "+4/6", " 5", "1 /2", "9" * 400, "1/" + "7" * 330, "-" + "8" * 290,
                                "--1", "1.5", "1e5", "0x10", "\0", "-"])
                o = self.call("make_rational(%r)" % t[:40], lambda: w.make_rational(t))
        elif cls == "Operator":
            n = rng.randrange(6)
            c = [self.small(3) for _ in range(n)]
            a = [self.small(3) for _ in range(n if rng.random() < 0.8 else rng.randrange(10))]
            f = w.diag_operator if rng.random() < 0.3 else w.Operator
            l = rng.choice(LABELS)
            o = self.call("Operator(%r,%s,%s)" % (l, c, a), lambda: f(l, c, a))
            legs = sum(abs(x) for x in c + a)
            if legs > 6:
                return
        elif cls == "OperatorExpression":
            r = rng.random()
            if r < 0.7:
                comps = self.comps(4)
                l = rng.choice(LABELS)
                u = rng.random() < 0.5
                o = self.call("op(%r,%s,%s)" % (l, comps, u), lambda: w.op(l, comps, unique=u))
                legs, terms = max([len(c.split()) for c in comps] + [0]), len(comps)
            elif r < 0.8:
                ops = [e for e in self.some("Operator", 3)]
                f = self.pick("rational")
                o = self.call("OperatorExpression([ops])", lambda: w.OperatorExpression([[e.obj for e in ops]], f.obj), *ops, f)
                legs = sum(e.legs for e in ops)
            else:
                a, b = rng.choice(["ov", "o", "v", "oa", "xy", "", "ova"]), rng.choice(["ov", "o", "v", "oa", "xy", ""])
                k, d = rng.choice([0, 1, 1, 2, -1]), rng.random() < 0.5
                o = self.call("gen_op('G',%d,%r,%r,%s)" % (k, a, b, d), lambda: w.gen_op("G", k, a, b, diagonal=d))
                legs, terms = 2 * abs(k), 4 ** abs(k)
            if legs > 6 or terms > 12:
                return
        elif cls == "Expression":
            r = rng.random()
            if r < 0.5:
                t = self.text(2000)
                s = rng.choice([w.sym.anti, w.sym.symm, w.sym.none])
                o = self.call("expression(%r)" % t[:80], lambda: w.expression(t, s))
                legs = 4
            elif r < 0.65:
                comps = self.comps(3)
                f = self.pick("rational")
                l, no = rng.choice(LABELS), rng.random() < 0.5
                o = self.call("operator_expr(%r,%s)" % (l, comps),
                              lambda: w.operator_expr(l, comps, no, coefficient=f.obj), f)
                legs = max([len(c.split()) for c in comps] + [0])
            else:
                o = w.Expression()
                for t in self.some("Term", 3) + self.some("SymbolicTerm", 2):
                    if t.legs <= 7:
                        r = self.iadd(o, t)
                        if r is not None:
                            o = r
                            legs = max(legs, t.legs)
                terms = 4
        elif cls == "Equation":
            l, r = self.pick("SymbolicTerm"), self.pick("SymbolicTerm")
            f = self.pick("rational")
            o = self.call("Equation(...)", lambda: w.Equation(l.obj, r.obj, f.obj), l, r, f)
        elif cls == "WickTheorem":
            o = w.WickTheorem()
        elif cls == "OrbitalSpaceInfo":
            o = w.osi() if rng.random() < 0.5 else w.OrbitalSpaceInfo()
        if o is not None and len(text(o)) < 1000:
            self.put(cls, o, legs, terms)

    def iadd(self, e, t):
        def f():
            nonlocal e
            e += t.obj
            return e
        # the target of the addition is watched too
        return self.call("Expression += %s" % t.cls, f, Entry("Expression", e), t)

    def fill(self, o, cls):
        n = 0
        for _ in range(self.rng.randrange(5)):
            r = self.rng.random()
            me = Entry(cls, o)
            if r < 0.4:
                t = self.pick("Tensor")
                self.call("%s.add(tensor %s)" % (cls, text(t.obj)[:200]), lambda: o.add(t.obj), me, t)
            elif r < 0.7:
                q = self.pick("SQOperator")
                self.call("%s.add(op %s)" % (cls, text(q.obj)), lambda: o.add(q.obj), me, q)
                n += 1
            elif r < 0.85:
                qs = self.some("SQOperator", 4)
                self.call("%s.add(ops)" % cls, lambda: o.add([q.obj for q in qs]), me, *qs)
                n += len(qs)
            elif r < 0.93:
                v = self.rng.random() < 0.5
                self.call("%s.set_normal_ordered(%s)" % (cls, v), lambda: o.set_normal_ordered(v), me)
            elif cls == "Term":
                f = self.pick("rational")
                self.call("Term.set(rational)", lambda: o.set(f.obj), me, f)
            else:
                qs = self.some("SQOperator", 4)
                self.call("SymbolicTerm.set(ops)", lambda: o.set([q.obj for q in qs]), me, *qs)
                n = max(n, len(qs))
        return n

    # ----------------------------------------------------------------- steps
    def registry(self):
        w, rng = self.w, self.rng
        r = rng.random()
        tgt = self.pick("OrbitalSpaceInfo") if rng.random() < 0.25 else None
        if r < 0.3:
            if tgt:
                self.call("osi.reset_space()", lambda: tgt.obj.reset_space())
            else:
                self.call("reset_space()", w.reset_space)
        if rng.random() < 0.1:      # many spaces, operators are limited to eight
            for c in rng.sample("bcdhlmrstwxyABCDEFG", rng.randint(4, 12)):
                self.call("add_space(%s)" % c, lambda: w.add_space(c, "fermion", rng.choice(TYPES[:3]), []))
        if r < 0.7:
            if rng.random() < 0.5:
                self.call("reset_space()", w.reset_space)
            std = [("o", "fermion", "occupied", ["i", "j", "k"]), ("v", "fermion", "unoccupied", ["a", "b", "c"]),
                   ("a", "fermion", "general", ["u", "v", "x"]), ("g", "boson", "general", ["p", "q"]),
                   ("e", "boson", "unoccupied", [])]
            rng.shuffle(std)
            for s in std[:rng.randint(1, 4)]:
                self.call("add_space%s" % (s,), lambda: w.add_space(*s))
        else:
            for _ in range(rng.choice([1, 1, 2, 9])):
                l = rng.choice(list("oveagzQ") + ["", "ab", "\u00e9", " ", "+", "1", "0", "{"])
                f, t = rng.choice(FIELDS[:2]) if rng.random() < 0.8 else rng.choice(FIELDS), rng.choice(TYPES)
                n = [rng.choice(["i", "j", "p%d" % rng.randrange(99), "", "a", "\\beta"]) for _ in range(rng.randrange(4))]
                el = [rng.choice(["o", "v", "a", "Z", "", "ab"]) for _ in range(rng.choice([0, 0, 0, 1, 2, 3]))]
                if tgt:
                    self.call("OrbitalSpaceInfo.add_space", lambda: tgt.obj.add_space(l, f, t, n, el), tgt)
                else:
                    self.call("add_space(%r,%r,%r,%s,%s)" % (l, f, t, n, el), lambda: w.add_space(l, f, t, n, el))
        o = self.pick("OrbitalSpaceInfo")
        n, c = self.num(), rng.choice(["o", "v", "x", "", "oo", "\u00e9"])
        self.call("osi.label(%d)" % n, lambda: o.obj.label(n), o)
        self.call("osi.indices(%r)" % c, lambda: o.obj.indices(n if rng.random() < 0.5 else c), o)
        self.call("osi.to_dict()", lambda: o.obj.to_dict(), o)
        self.call("osi.num_spaces()", lambda: (o.obj.num_spaces(), w.num_spaces()), o)

    def step(self):
        w, rng = self.w, self.rng
        cls = rng.choice(["registry", "make", "Index", "SQOperator", "Tensor", "SymbolicTerm", "Expression", "Expression", "Expression",
                          "OperatorExpression", "OperatorExpression", "WickTheorem", "WickTheorem", "Equation", "rational", "misc"])
        if cls == "registry":
            return self.registry() if rng.random() < 0.4 else self.make("OrbitalSpaceInfo")
        if cls == "make":
            return self.make(rng.choice(CLASSES))
        if cls == "misc":
            return self.misc()
        e = self.pick(cls)
        o = e.obj
        self.used.add(e.cls)
        getattr(self, "do_" + cls)(e, o)

    def do_Index(self, e, o):
        f = self.pick("Index")
        self.call("Index methods", lambda: (o.space(), o.pos()), e)
        for m in ("latex", "compile"):
            fm = self.rng.choice(["ambit", "einsum", "", "x"])
            self.call("Index.%s" % m, lambda: o.latex() if m == "latex" else o.compile(fm), e)
        self.call("Index < ==", lambda: (o < f.obj, o == f.obj, o > f.obj, o != f.obj), e, f)
        l = self.some("Index", 9)
        rev = self.rng.random() < 0.5
        self.call("canonicalize_indices", lambda: self.w.canonicalize_indices([x.obj for x in l], rev), *l)
        t = self.text()
        self.call("indices(%r)" % t[:40], lambda: self.w.indices(t))

    def do_SQOperator(self, e, o):
        f = self.pick("SQOperator")
        self.call("SQOperator methods", lambda: (o.type(), o.index()), e)
        self.call("SQOperator.field_type", lambda: o.field_type(), e)
        self.call("SQOperator.latex", lambda: o.latex(), e)
        self.call("SQOperator < ==", lambda: (o < f.obj, o == f.obj), e, f)
        self.call("normal_ordered_less", lambda: o.normal_ordered_less(f.obj), e, f)

    def do_Tensor(self, e, o):
        self.call("Tensor methods", lambda: (o.label(), o.lower(), o.upper(), o.symmetry()), e)
        self.call("Tensor.latex", lambda: o.latex(), e)
        fm = self.rng.choice(["ambit", "einsum", "", "x"])
        self.call("Tensor.compile(%r)" % fm, lambda: o.compile(fm), e)

    def do_SymbolicTerm(self, e, o):
        self.call("SymbolicTerm methods", lambda: (o.ops(), o.tensors()), e)
        self.call("SymbolicTerm.latex", lambda: o.latex(), e)
        t = self.pick("Term")
        self.call("Term.latex", lambda: t.obj.latex(), t)

    def do_Expression(self, e, o):
        w, rng = self.w, self.rng
        f = self.pick("Expression")
        k = rng.choice(["add", "sub", "mul", "scale", "neg", "eq", "dot", "norm", "latex", "mb", "canon", "adj", "vno", "isvno", "iter", "iadd",
                        "iadd", "drain", "pair", "str"])
        if k in ("add", "sub") and e.terms + f.terms <= 60:
            r = self.call("Expression " + k, lambda: o + f.obj if k == "add" else o - f.obj, e, f)
            self.store(r, max(e.legs, f.legs), e.terms + f.terms)
        elif k == "mul" and e.legs + f.legs <= 8 and e.terms * f.terms <= 40:
            r = self.call("Expression @", lambda: o @ f.obj, e, f)
            self.store(r, e.legs + f.legs, e.terms * f.terms)
        elif k == "scale":
            q = self.pick("rational")
            self.store(self.call("Expression * %s" % text(q.obj)[:40], lambda: o * q.obj, e, q), e.legs, e.terms)
        elif k == "neg":
            self.store(self.call("-Expression", lambda: -o, e), e.legs, e.terms)
        elif k == "eq":
            self.call("Expression ==", lambda: (o == f.obj, o != f.obj, o == o), e, f)
        elif k == "dot":
            self.call("Expression.dot", lambda: o.dot(f.obj), e, f)
        elif k == "norm":
            self.call("Expression.norm", lambda: o.norm(), e)
        elif k == "latex":
            self.call("Expression.latex", lambda: o.latex() if rng.random() < 0.5 else o.latex(rng.choice(["", "\0", "%s", "&"])), e)
        elif k == "mb":
            l = rng.choice(LABELS)
            r = self.call("to_manybody_equation(%r)" % l, lambda: o.to_manybody_equation(l), e)
            if r:
                for q in list(r.values())[0][:2]:
                    self.put("Equation", q)
        elif k == "canon":
            self.call("Expression.canonicalize", lambda: o.canonicalize(), e)
        elif k == "adj":
            self.store(self.call("Expression.adjoint", lambda: o.adjoint(), e), e.legs, e.terms)
        elif k == "vno" and e.legs <= 7 and e.terms <= 12:
            b = rng.random() < 0.5
            r = self.call("vacuum_normal_ordered(%s)" % b, lambda: o.vacuum_normal_ordered(b), e)
            if r is not None and len(r) <= 60:
                self.store(r, e.legs, len(r))
        elif k == "isvno":
            self.call("is_vacuum_normal_ordered", lambda: o.is_vacuum_normal_ordered(), e)
        elif k == "iter":
            r = self.call("list(Expression)", lambda: list(o), e)
            if r and isinstance(r[0], tuple):
                t, c = rng.choice(r)
                self.put("SymbolicTerm", t, e.legs)
                self.put("rational", c)
                del r
                self.fill(t, "SymbolicTerm")
        elif k == "iadd":
            t = self.pick(rng.choice(["Term", "SymbolicTerm"]))
            if t.legs <= 7 and e.terms < 60 and isinstance(o, w.Expression):
                self.iadd(o, t)
                e.legs, e.terms = max(e.legs, t.legs), e.terms + 1
        elif k == "drain":
            def drain():
                x = o + w.Expression()
                for t, c in x:
                    x += (t, w.rational(0) - c)
                    x += (t, c) if rng.random() < 0.3 else (t, w.rational(1))
                return x
            if e.terms <= 30:
                self.call("removing terms while iterating", drain, e)
        elif k == "pair":
            t, q = self.pick("SymbolicTerm"), self.pick("rational")

            def pair():
                x = o
                x += (t.obj, q.obj)
                return x
            if t.legs <= 7 and e.terms < 60 and isinstance(o, w.Expression):
                self.call("Expression += (term, rational)", pair, e, t, q)
                e.legs, e.terms = max(e.legs, t.legs), e.terms + 1
        elif k == "str":
            s = text(o)
            if len(s) < 2000 and "<" not in s:
                self.store(self.call("expression(str(e))", lambda: w.expression(s)), e.legs, e.terms)

    def store(self, r, legs, terms):
        if isinstance(r, self.w.Expression) and legs <= 8 and terms <= 60:
            self.put("Expression", r, legs, terms)

    def storeoe(self, r, legs, terms):
        if isinstance(r, self.w.OperatorExpression) and legs <= 8 and terms <= 40:
            self.put("OperatorExpression", r, legs, terms)

    def do_OperatorExpression(self, e, o):
        w, rng = self.w, self.rng
        f = self.pick("OperatorExpression")
        k = rng.choice(["add", "sub", "mul", "scale", "eq", "comm", "comm3", "bch", "adj", "canon", "add1", "add2", "copy"])
        L, T = e.legs + f.legs, e.terms + f.terms
        if k in ("add", "sub"):
            self.storeoe(self.call("OE " + k, lambda: o + f.obj if k == "add" else o - f.obj, e, f), max(e.legs, f.legs), T)
        elif k == "mul" and L <= 8:
            self.storeoe(self.call("OE @", lambda: o @ f.obj, e, f), L, e.terms * f.terms)
        elif k == "scale":
            q = self.pick("rational")
            self.storeoe(self.call("rational * OE", lambda: q.obj * o, q, e), e.legs, e.terms)
        elif k == "eq":
            self.call("OE ==", lambda: (o == f.obj, o == o), e, f)
        elif k == "comm":
            if L <= 8:
                self.storeoe(self.call("commutator", lambda: w.commutator(o, f.obj), e, f), L, 2 * e.terms * f.terms)
            self.call("commutator()", lambda: w.commutator())
            self.call("commutator(bad)", lambda: w.commutator(o, rng.choice([3, None, "x"])), e)
        elif k == "comm3" and e.legs + 2 * f.legs <= 8:
            self.storeoe(self.call("commutator3", lambda: w.commutator(f.obj, o, f.obj), e, f), L + f.legs, 4 * T ** 3)
        elif k == "bch":
            n = rng.choice([-1, 0, 1, 2, 3])
            if e.legs + max(n, 0) * f.legs <= 8 and e.terms * f.terms ** max(n, 0) <= 40:
                self.storeoe(self.call("bch_series(%d)" % n, lambda: w.bch_series(o, f.obj, n), e, f),
                             e.legs + max(n, 0) * f.legs, 2 ** max(n, 0) * e.terms * f.terms ** max(n, 0) + T)
        elif k == "adj":
            self.storeoe(self.call("OE.adjoint", lambda: o.adjoint(), e), e.legs, e.terms)
        elif k == "canon":
            self.call("OE.canonicalize", lambda: o.canonicalize(), e)
        elif k == "add1":
            ops, q = self.some("Operator", 3), self.pick("rational")
            l = sum(x.legs for x in ops)
            if l <= 8 and e.terms < 40:
                self.call("OE.add", lambda: o.add([x.obj for x in ops], q.obj), e, q, *ops)
                e.legs, e.terms = max(e.legs, l), e.terms + 1
        elif k == "add2":
            if T <= 40:
                q = self.pick("rational")
                self.call("OE.add2", lambda: o.add2(f.obj, q.obj) if rng.random() < 0.5 else o.add2(o if rng.random() < 0.3 else f.obj), e, f, q)
                e.legs, e.terms = max(e.legs, f.legs), T + e.terms
        elif k == "copy":
            self.storeoe(self.call("OperatorExpression(oe)", lambda: w.OperatorExpression(o), e), e.legs, e.terms)
        self.call("OE.size", lambda: o.size(), e)

    def do_WickTheorem(self, e, o):
        w, rng = self.w, self.rng
        r = rng.random()
        if r < 0.25:
            v = rng.choice([0, 1, 2, 3, 5, -1, -7, 100])
            self.call("set_max_cumulant(%d)" % v, lambda: o.set_max_cumulant(v), e)
        elif r < 0.35:
            v = rng.random() < 0.5
            self.call("set_single_threaded(%s)" % v, lambda: o.set_single_threaded(v), e)
        elif r < 0.42:
            v = rng.random() < 0.6
            self.call("do_canonicalize_graph(%s)" % v, lambda: o.do_canonicalize_graph(v), e)
        elif r < 0.47:
            v = rng.choice([w.PrintLevel.none, w.PrintLevel.none, w.PrintLevel.basic, w.PrintLevel.all])
            self.call("set_print(%s)" % v, lambda: o.set_print(v), e)
        else:
            self.do_contract(e, o)
        self.call("timers", lambda: o.timers(), e)

    def do_contract(self, e, o):
        w, rng = self.w, self.rng
        x, q = self.pick("OperatorExpression"), self.pick("rational")
        if x.legs > 8 or x.terms > 24:
            return
        lo, hi = rng.choice([0, 0, 0, 2, -1, 5]), rng.choice([0, 2, 4, 10, -1, 100])
        r = rng.random()
        if r < 0.7:
            res = self.call("contract(%s,OE,%d,%d)" % (text(q.obj)[:30], lo, hi), lambda: o.contract(q.obj, x.obj, lo, hi), e, x, q)
        elif r < 0.85:
            res = self.call("contract(OE,%d,%d)" % (lo, hi), lambda: o.contract(x.obj, lo, hi), e, x)
        else:
            ops = self.some("Operator", 4)
            if sum(y.legs for y in ops) > 8:
                return
            res = self.call("contract(%s,ops,%d,%d)" % (text(q.obj)[:30], lo, hi), lambda: o.contract(q.obj, [y.obj for y in ops], lo, hi), e, q, *ops)
        if isinstance(res, w.Expression):
            self.ctx.count("contractions")
            self.ctx.top("terms_of_a_contraction", len(res))
            if len(res) <= 60:
                self.store(res, 8, len(res))

    def big_contract(self):
        """operators with many legs; the window admits no or only the first contractions, which keeps the cost low"""
        w, rng = self.w, self.rng
        wt = w.WickTheorem()
        wt.set_max_cumulant(1)      # the number of cumulants grows without bound
        wt.set_single_threaded(rng.random() < 0.5)
        labels = [w.osi().label(k) for k in range(w.num_spaces())]
        if not labels:
            return
        s, t = rng.choice(labels), rng.choice(labels)
        n = rng.choice([9, 33, 60, 99, 101, 120])
        l = rng.choice([["%s+ " % s * n, "%s " % s * n], ["%s " % s * n, "%s+ " % s * n], ["%s+ %s " % (s, t) * n, "%s+ %s " % (t, s) * n],
                        ["%s+ " % s * (n // 2), "%s+ " % s * (n - n // 2), "%s " % s * n]])
        ops = [self.call("op(%d legs)" % n, lambda c=c: w.op("A", [c])) for c in l]
        if not all(isinstance(x, w.OperatorExpression) for x in ops):
            return
        x = ops[0] @ ops[1] if len(ops) == 2 else ops[0] @ ops[1] @ ops[2]
        tot = sum(c.count(s) + (c.count(t) if t != s else 0) for c in l)
        lo = tot - rng.choice([0, 2]) if n <= 33 and "%s+ %s " % (s, t) not in l[0] else tot + 1
        r = self.call("contract(big,%d)" % lo, lambda: wt.contract(w.rational(1), x, lo, tot + 5))
        if isinstance(r, w.Expression):
            self.ctx.count("big_contractions")
            self.ctx.top("legs_of_a_contraction", tot)
            text(r)

    def big_term(self):
        """a term with more indices of a space than any fixed-size table would hold"""
        w, rng = self.w, self.rng
        k = max(w.num_spaces(), 1)
        n = rng.choice([33, 63, 64, 65, 66, 70, 128, 129, 257])
        main = rng.randrange(k)
        idx = [w.Index(main if rng.random() < 0.95 else rng.randrange(k), rng.choice([p, p, p + 1, 1000 * p]))
               for p in range(n)]
        t = w.SymbolicTerm()
        sym = rng.choice([w.sym.anti, w.sym.anti, w.sym.symm, w.sym.none])
        left = list(idx)
        while left:
            m = rng.choice([1, 2, 40, 200])
            a, left = left[:m], left[m:]
            h = rng.randrange(len(a) + 1)
            self.call("SymbolicTerm.add(tensor with %d and %d indices)" % (h, len(a) - h),
                      lambda: t.add(w.Tensor(rng.choice("TVW"), a[:h], a[h:], sym)), Entry("SymbolicTerm", t))
        nops = rng.choice([0, 0, 2, 6, n])
        for i in rng.sample(idx, nops):
            self.call("SymbolicTerm.add(op)", lambda: t.add(w.SQOperator(rng.choice([w.type.cre, w.type.ann]), i)))
        e = w.Expression()
        e += (t, w.rational(1, 3))
        me = Entry("Expression", e)
        self.call("canonicalize (%d indices)" % n, e.canonicalize, me)
        self.call("canonicalize again", e.canonicalize, me)
        for name in rng.sample(["str", "latex", "mb", "parse", "adj"], 2):
            if name == "str":
                self.call("str", lambda: str(e), me)
            elif name == "latex":
                self.call("latex", lambda: e.latex(), me)
            elif name == "adj":
                self.call("adjoint", lambda: e.adjoint(), me)
            elif name == "parse" and n < 100:
                self.call("expression(str)", lambda: w.expression(str(e)), me)
            elif name == "mb":
                r = self.call("to_manybody_equation", lambda: e.to_manybody_equation("r"), me)
                for q in (list(r.values())[0][:1] if r else []):
                    for fm in ("einsum", "ambit"):
                        self.call("compile(%s)" % fm, lambda: q.compile(fm), Entry("Equation", q))
        self.ctx.count("big_terms")
        self.ctx.top("indices_of_a_term", n)

    def do_Equation(self, e, o):
        w = self.w
        self.call("Equation methods", lambda: (o.lhs(), o.rhs(), o.rhs_factor()), e)
        self.call("Equation.rhs_expression", lambda: o.rhs_expression(), e)
        self.call("Equation.latex", lambda: o.latex(), e)
        fm = self.rng.choice(["ambit", "einsum", "einsum", "", "x\0"])
        self.call("Equation.compile(%r)" % fm, lambda: o.compile(fm), e)
        self.call("compile_einsum", lambda: w.compile_einsum(o), e)

    def do_rational(self, e, o):
        f = self.pick("rational")
        k = self.rng.choice("+-*/=")
        a = f.obj
        r = self.call("rational %s" % k, lambda: o + a if k == "+" else o - a if k == "-" else o * a if k == "*" else o / a if k == "/" else o == a, e, f)
        if isinstance(r, self.w.rational) and len(text(r)) < 150:
            self.put("rational", r)
        self.call("rational methods", lambda: (o.latex(True), o.latex(False), o.numerator(), o.denominator(), float(o), o.str(True), o.str(False)), e)
        fm = self.rng.choice(["ambit", "einsum", "", "x"])
        self.call("rational.compile(%r)" % fm, lambda: o.compile(fm), e)

    def misc(self):
        w, rng = self.w, self.rng
        n, m = self.small(14), self.small(14)
        if max(n, m) < 40:
            self.call("integer_partitions(%d,%d)" % (n, m), lambda: w.integer_partitions(n, m))
        t = self.text(2000)      # searching takes quadratic time
        self.call("string_to_expr(%r)" % t[:40], lambda: w.string_to_expr(t))
        if rng.random() < 0.12:
            self.big_contract()
        if rng.random() < 0.12:
            self.big_term()
        e = self.pick(rng.choice(CLASSES))
        self.call("copy", lambda: copy.copy(e.obj), e)
        self.call("deepcopy", lambda: copy.deepcopy(e.obj), e)
        self.call("pickle", lambda: pickle.dumps(e.obj), e)
        self.call("hash/bool", lambda: (bool(e.obj), hash(e.obj)), e)


def initialized(x):
    try:
        len(x)
        return True
    except TypeError:
        return False


_mods = {}


def other(ctx, rng, i):
    """the workload of another check; only the sanitizers judge it"""
    name = rng.choice(OTHER)
    m = _mods.get(name)
    if m is None:
        m = _mods[name] = importlib.import_module("wv.checks." + name)
    sub = core.Ctx(ctx.w, name.upper(), ctx.seed, "quick", "asan", ctx.worker)
    sub.trace = ctx.trace
    ctx.log("workload of %s, case %d" % (name, i))
    if hasattr(m, "setup") and not hasattr(m, "_c06"):
        m._c06 = True
        m.setup(sub)
    try:
        r = m.run_case(sub, rng, i)
        sig, nt = r.sig, r.nontrivial
    except (Violation, Inconclusive):
        sig, nt = (name, i), False
    except Exception as e:      # judged by that check
        sig, nt = (name, i, type(e).__name__), False
    ctx.count("workload_cases_" + name)
    return Result((name, sig), nt)


def run_case(ctx, rng, i):
    if rng.random() < 0.4:
        return other(ctx, rng, i)
    f = Fuzz(ctx, rng)
    if rng.random() < 0.8:
        f.registry()
    n = rng.randint(15, 60)
    for _ in range(n):
        f.step()
    ctx.count("hostile_sequences")
    ctx.w.reset_space()
    # objects of the old registry are used and destroyed after the reset
    for l in f.pool.values():
        for e in l:
            text(e.obj)
    return Result((f.ctx.trace, f.ok, f.refused), f.ok >= 8 and f.refused >= 3 and len(f.used) >= 4,
                  "%d calls succeeded, %d were refused, on %s" % (f.ok, f.refused, sorted(f.used)))
