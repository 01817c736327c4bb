"""The orbital-space registry is consistent and updates are atomic."""
from wv import texpr
from wv.core import Result

VARIANTS = ["plain"]
CASES = {"quick": 4000, "thorough": 120000}
MIN_NONTRIVIAL = {"quick": 2000, "thorough": 60000}
RULE = ("random programs of 15-45 registrations (valid, with a label or names in use, repeated names, unknown types, unknown "
        "elementary spaces), resets and uses run next to a Python model; after every step the whole registry is read through "
        "every observer (lists, text, dictionary, printed and parsed indices, LaTeX labels, operator symbols, contractions that "
        "reveal statistics and type) from old and new handles; non-trivial when a rejected registration was followed by a "
        "registration that used its names; distinct = distinct programs")
ASSUMPTIONS = ["labels are letters; at most 8 spaces when operators are built (documented limit)"]

TYPES = ["occupied", "unoccupied", "general"]


def observe(ctx, w, model, handles, rng, deep):
    n = len(model)
    d = {s[0]: list(s[3]) for s in model}
    text = "\n\n".join("space label: %s\nfield type: %s\nspace type: %s\nindices: [%s]" % (l, f, t, ",".join(x))
                       for l, f, t, x in model)
    if w.num_spaces() != n:
        ctx.fail("num_spaces", "num_spaces() is %d, expected %d" % (w.num_spaces(), n))
    for h in handles + [w.osi()]:
        ctx.count("registry_readings")
        if h.num_spaces() != n or str(h) != text or h.to_dict() != d:
            ctx.fail("registry", "the registry is\n%s\n%s\nexpected\n%s" % (h, h.to_dict(), text))
        for k, (l, f, t, x) in enumerate(model):
            if h.label(k) != l or list(h.indices(k)) != list(x):
                ctx.fail("registry", "space %d is %s %s, expected %s %s" % (k, h.label(k), h.indices(k), l, x))
        for k in (-1, n, n + 3):
            ctx.raises(lambda: h.label(k), "out-of-range", "label(%d) with %d spaces" % (k, n))
            ctx.raises(lambda: h.indices(k), "out-of-range", "indices(%d) with %d spaces" % (k, n))
    for k, (l, f, t, x) in enumerate(model):
        p = rng.choice([0, 1, len(x) - 1, len(x), len(x) + 1, 57])
        p = max(p, 0)
        i = w.Index(k, p)
        want = x[p] if p < len(x) else "%s_{%d}" % (l, p)
        if str(i) != "%s%d" % (l, p) or i.latex() != want:
            ctx.fail("index-label", "index %d of space %s prints as %s and %s, expected %s" % (p, l, i, i.latex(), want))
        j = w.index("%s%d" % (l, p))
        if (j.space(), j.pos()) != (k, p):
            ctx.fail("index-parse", "%s%d is read as (%d,%d)" % (l, p, j.space(), j.pos()))
        sym = {"fermion": "a", "boson": "b"}[f]
        o = w.cre("%s%d" % (l, p))
        if str(o) != "%s+(%s%d)" % (sym, l, p):
            ctx.fail("symbol", "the creation operator of %s (%s) prints as %s" % (l, f, o))
        ctx.count("labels_compared", 3)
    if deep:
        for k, (l, f, t, x) in enumerate(model):
            # the type decides which operators annihilate the reference
            a, b = w.ann(l + "0"), w.cre(l + "0")
            if a.normal_ordered_less(b) is not (t == "occupied") or b.normal_ordered_less(a) is not (t != "occupied"):
                ctx.fail("type", "the operators of the %s space %s have the wrong quasiparticle order" % (t, l))
        if n <= 8:
            for k, (l, f, t, x) in enumerate(model):
                if f != "fermion":
                    continue
                e1 = w.WickTheorem().contract(w.rational(1), w.op("A", [l]) @ w.op("B", [l + "+"]), 0, 0)
                e2 = w.WickTheorem().contract(w.rational(1), w.op("A", [l + "+"]) @ w.op("B", [l]), 0, 0)
                # <a a+> = eta, <a+ a> = gamma
                if t == "general":
                    want1 = "A^{%s0}_{} B^{}_{%s1} eta1^{%s1}_{%s0}" % (l, l, l, l)
                    ok = len(e1) == 1 and len(e2) == 1 and "eta1" in str(e1) and "gamma1" in str(e2) and \
                        "gamma1" not in str(e1) and "eta1" not in str(e2)
                else:
                    ok = (len(e1) == 1) is (t == "unoccupied") and (len(e2) == 1) is (t == "occupied") and \
                        "gamma" not in str(e1) + str(e2) and "eta" not in str(e1) + str(e2)
                ctx.count("contractions")
                if not ok:
                    ctx.fail("type", "contractions over the %s space %s give\n%s\n%s" % (t, l, e1, e2))
    used = {s[0] for s in model}
    free = [c for c in texpr.LETTERS if c not in used]
    if free:
        c = rng.choice(free)
        for fn, s in ((lambda: w.index(c + "0"), "index"), (lambda: w.op("T", [c + "+"]), "op"),
                      (lambda: w.expression("T^{%s0}_{}" % c), "expression"),
                      (lambda: w.diag_operator("T", [c], []), "diag_operator"),
                      (lambda: w.operator_expr("T", [c + "+"], True), "operator_expr")):
            ctx.raises(fn, "unknown-space", "%s with the unknown space %s" % (s, c))
        ctx.count("refusals", 5)


def run_case(ctx, rng, i):
    w = ctx.w
    w.reset_space()
    model, handles = [], [w.osi()]
    rejected = set()
    reused = False
    names = ["%s" % c for c in texpr.LETTERS] + ["i1", "\\alpha", "a_1", "x'", "long name", "", "é"]
    lim = rng.choice([3, 8, 8, 14, 26])

    def taken():
        return {x for s in model for x in s[3]}

    for step in range(rng.randint(12, 30) + (40 if lim == 26 and rng.random() < 0.3 else 0)):
        r = rng.random()
        if r < 0.06:
            ctx.log("reset")
            (w.reset_space if rng.random() < 0.7 else handles[0].reset_space)()
            model.clear()
        elif r < 0.1 and len(handles) < 4:
            handles.append(w.osi())
        elif r < 0.15 and model:
            # values returned earlier are copies
            d = w.osi().to_dict()
            d.clear()
            w.osi().indices(rng.randrange(len(model))).append("zz")
        else:
            used = {s[0] for s in model}
            free = [c for c in texpr.LETTERS if c not in used]
            avail = [x for x in names if x not in taken()]
            pick = [x for x in avail if x in rejected]
            label, field, stype = rng.choice(free), rng.choice(["fermion", "fermion", "boson"]), rng.choice(TYPES)
            m = rng.choice([0, 1, 3, 6, 6, 15, 40])
            x = rng.sample(avail, min(m, len(avail)))
            if pick and rng.random() < 0.5:
                x = list(dict.fromkeys(x + [rng.choice(pick)]))
            if rejected and rng.random() < 0.4:
                labs = [c for c in free if c in rejected]
                label = rng.choice(labs) if labs else label
            elem = rng.sample(sorted(used), rng.randint(0, len(used))) if rng.random() < 0.3 else []
            bad = None
            if rng.random() < 0.45:
                bad = rng.choice(["label", "name", "twice", "field", "type", "elementary", "longlabel", "nolabel", "notlist"])
            if bad == "label" and used:
                label = rng.choice(sorted(used))
            elif bad == "name" and taken():
                x = x + [rng.choice(sorted(taken()))]
                rng.shuffle(x)
            elif bad == "twice" and x:
                x.insert(rng.randint(0, len(x)), rng.choice(x))
            elif bad == "field":
                field = rng.choice(["", "Fermion", "fermions", "fermion ", "spin", "occupied"])
            elif bad == "type":
                stype = rng.choice(["", "occ", "Occupied", "general ", "fermion"])
            elif bad == "elementary":
                elem = elem + [next(c for c in texpr.LETTERS if c not in used and c != label)]
                rng.shuffle(elem)
            elif bad == "longlabel":
                label = rng.choice(["ab", "o1", "occ"])
            elif bad == "nolabel":
                label = ""
            elif bad == "notlist":
                x = rng.choice([3, None, [1, 2]])
            else:
                bad = None
            if bad is None and len(model) >= lim:
                continue
            ctx.log("add_space(%r,%r,%r,%r,%r) %s" % (label, field, stype, x, elem, bad or ""))
            if bad:
                ctx.raises(lambda: w.add_space(label, field, stype, x, elem), "accepted",
                           "add_space with %s: %r %r %r %r %r" % (bad, label, field, stype, x, elem))
                ctx.count("rejected_registrations")
                if bad not in ("label", "longlabel", "nolabel"):
                    rejected.add(label)
                if isinstance(x, list):
                    rejected.update(y for y in x if isinstance(y, str) and y not in taken())
            else:
                w.add_space(label, field, stype, x, *([elem] if elem or rng.random() < 0.5 else []))
                ctx.count("registrations")
                reused |= label in rejected or bool(rejected.intersection(x))
                rejected.discard(label)
                rejected.difference_update(x)
                model.append((label, field, stype, tuple(x)))
        observe(ctx, w, model, handles, rng, rng.random() < 0.1)
    observe(ctx, w, model, handles, rng, True)
    ctx.top("spaces", len(model))
    return Result(ctx.trace, reused)
