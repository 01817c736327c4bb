"""Exact evaluation of second-quantized objects in a small Fock space, modulo a prime.

This is the oracle: it never uses Wick's theorem on products of operators.
 * a normal-ordered string {q1...qn} is turned into ordinary operators by
   inverting  q1...qn = sum_R sgn <R> {S\\R}   (the definition of normal order
   with respect to a reference state; <R> are moments of that reference);
 * ordinary strings act on a random vector by occupation-number bit arithmetic;
 * density cumulants of the general spaces are derived from the moments of a
   random, correlated, number-conserving density matrix.
"""
import itertools
from functools import lru_cache

import numpy as np

P = 1048573  # prime below 2**20: products fit comfortably in int64


def frac_mod(fr):
    n, d = fr.numerator % P, fr.denominator % P
    if d == 0:
        raise ZeroDivisionError("denominator divisible by the oracle's prime")
    return n * pow(d, P - 2, P) % P


def perm_sign(seq):
    seq = list(seq)
    s = 1
    for i in range(len(seq)):
        while seq[i] != i:
            j = seq[i]
            seq[i], seq[j] = seq[j], seq[i]
            s = -s
    return s


def sort_sign(seq):
    """sign of the permutation that stably sorts seq, and the sorting order"""
    order = sorted(range(len(seq)), key=lambda k: (seq[k], k))
    return perm_sign(order), order


def einsum_mod(operands, out):
    """operands: list of (array, tuple_of_index_names); contracts to the names in out.
    Names in `out` that no operand carries must not occur (callers broadcast)."""
    ops = [(a, tuple(ix)) for a, ix in operands]
    if not ops:
        return np.ones((), dtype=np.int64)

    def reduce_one(a, ix, keep):
        # diagonalise repeated names, sum the names not kept
        names = sorted(set(ix), key=ix.index)
        tgt = [n for n in names if n in keep]
        if tgt == list(ix):
            return a, tuple(ix)
        let = {n: i for i, n in enumerate(names)}
        r = np.einsum(a, [let[n] for n in ix], [let[n] for n in tgt]) % P
        return r, tuple(tgt)

    def others(skip):
        s = set(out)
        for k, (_, ix) in enumerate(ops):
            if k not in skip:
                s.update(ix)
        return s

    ops = [reduce_one(a, ix, others((k,))) for k, (a, ix) in enumerate(ops)]
    while len(ops) > 1:
        best = None
        for i in range(len(ops)):
            for j in range(i + 1, len(ops)):
                oth = others((i, j))
                un = dict(zip(ops[i][1], ops[i][0].shape))
                un.update(zip(ops[j][1], ops[j][0].shape))
                size = 1
                for n, d in un.items():
                    if n in oth:
                        size *= d
                shared = len(set(ops[i][1]) & set(ops[j][1]))
                key = (size, -shared)
                if best is None or key < best[0]:
                    best = (key, i, j)
        _, i, j = best
        oth = others((i, j))
        a, ia = ops[i]
        b, ib = ops[j]
        names = list(dict.fromkeys(ia + ib))
        tgt = [n for n in names if n in oth]
        let = {n: k for k, n in enumerate(names)}
        r = np.einsum(a, [let[n] for n in ia], b, [let[n] for n in ib], [let[n] for n in tgt]) % P
        ops = [o for k, o in enumerate(ops) if k not in (i, j)] + [(r, tuple(tgt))]
    a, ix = ops[0]
    assert set(ix) == set(out), (ix, out)
    return np.transpose(a, [ix.index(n) for n in out]) % P if ix else a % P


class Space:
    def __init__(self, label, field, stype, n):
        self.label, self.field, self.stype, self.n = label, field, stype, n


class Model:
    """Random tensors and a random reference over a set of (fermionic) spaces."""

    def __init__(self, spaces, rng):
        self.spaces = spaces
        self.rng = rng
        self.np = np.random.default_rng(rng.getrandbits(63))
        self.off = []
        n = 0
        for s in spaces:
            self.off.append(n)
            n += s.n
        self.N = n
        self.D = 1 << n
        self.blocks = {}
        self._mom = {}
        self._w = {}
        self._cum = {}
        self._trip = {}
        self.rho = {}
        x = np.arange(self.D, dtype=np.int64)
        par = np.zeros(self.D, dtype=np.int64)
        for b in range(n):
            par ^= (x >> b) & 1
        self.par = par  # parity of the popcount
        for k, s in enumerate(spaces):
            if s.stype == "general":
                self.rho[k] = self._random_rho(s.n)

    # ---------------------------------------------------------------- tensors
    def block(self, label, up, lo):
        """antisymmetric random block for sorted space tuples"""
        key = (label, up, lo)
        if key not in self.blocks:
            shape = tuple(self.spaces[s].n for s in up + lo)
            t = self.np.integers(0, P, size=shape, dtype=np.int64)
            t = self._antisym(t, up, 0)
            t = self._antisym(t, lo, len(up))
            self.blocks[key] = t
        return self.blocks[key]

    @staticmethod
    def _antisym(t, spaces, base):
        i = 0
        nd = t.ndim
        while i < len(spaces):
            j = i
            while j < len(spaces) and spaces[j] == spaces[i]:
                j += 1
            if j - i > 1:
                acc = np.zeros_like(t)
                for p in itertools.permutations(range(j - i)):
                    ax = list(range(nd))
                    for k in range(j - i):
                        ax[base + i + k] = base + i + p[k]
                    acc = acc + perm_sign(p) * np.transpose(t, ax)
                t = acc % P
            i = j
        return t

    def tensor(self, label, up, lo, sym="anti"):
        """values of a tensor whose index slots live in spaces up / lo (any order)"""
        up, lo = tuple(up), tuple(lo)
        if label == "delta" and len(up) == 1 and len(lo) == 1:
            if up[0] != lo[0]:
                return np.zeros((self.spaces[up[0]].n, self.spaces[lo[0]].n), dtype=np.int64)
            return np.eye(self.spaces[up[0]].n, dtype=np.int64)
        c = self._reference_tensor(label, up, lo)
        if c is not None:
            return c
        if sym == "none":
            key = (label, up, lo, "none")
            if key not in self.blocks:
                self.blocks[key] = self.np.integers(
                    0, P, size=tuple(self.spaces[s].n for s in up + lo), dtype=np.int64)
            return self.blocks[key]
        su, ou = sort_sign(up)
        sl, ol = sort_sign(lo)
        if sym == "symm":
            t = self._symblock(label, tuple(up[k] for k in ou), tuple(lo[k] for k in ol))
            su = sl = 1
        else:
            t = self.block(label, tuple(up[k] for k in ou), tuple(lo[k] for k in ol))
        # t's axis k carries the slot ou[k]; bring the slots back in the given order
        inv_u = [ou.index(k) for k in range(len(up))]
        inv_l = [len(up) + ol.index(k) for k in range(len(lo))]
        return np.transpose(t, inv_u + inv_l) * (su * sl) % P

    def _symblock(self, label, up, lo):
        key = (label, up, lo, "symm")
        if key not in self.blocks:
            shape = tuple(self.spaces[s].n for s in up + lo)
            t = self.np.integers(0, P, size=shape, dtype=np.int64)
            for spaces, base in ((up, 0), (lo, len(up))):
                i = 0
                while i < len(spaces):
                    j = i
                    while j < len(spaces) and spaces[j] == spaces[i]:
                        j += 1
                    acc = np.zeros_like(t)
                    for p in itertools.permutations(range(j - i)):
                        ax = list(range(t.ndim))
                        for k in range(j - i):
                            ax[base + i + k] = base + i + p[k]
                        acc = acc + np.transpose(t, ax)
                    t = acc % P
                    i = j
            self.blocks[key] = t
        return self.blocks[key]

    # -------------------------------------------------------------- reference
    def _random_rho(self, n):
        d = 1 << n
        pc = np.array([bin(x).count("1") for x in range(d)])
        r = self.np.integers(0, P, size=(d, d), dtype=np.int64)
        r[pc[:, None] != pc[None, :]] = 0
        tr = int(np.trace(r)) % P
        while tr == 0:
            r[0, 0] += 1
            tr = int(np.trace(r)) % P
        return r * pow(tr, P - 2, P) % P

    @staticmethod
    @lru_cache(maxsize=None)
    def _single_ops(n):
        d = 1 << n
        cre, ann = [], []
        for p in range(n):
            a = np.zeros((d, d), dtype=np.int64)
            for x in range(d):
                if x >> p & 1:
                    s = -1 if bin(x & ((1 << p) - 1)).count("1") & 1 else 1
                    a[x ^ (1 << p), x] = s
            ann.append(a)
            cre.append(a.T.copy())
        return np.array(cre), np.array(ann)

    def moment(self, s, types):
        """<q1...qk> in general space s as a tensor of rank k; types: tuple of bool (creation)"""
        key = (s, types)
        if key in self._mom:
            return self._mom[key]
        n = self.spaces[s].n
        k = len(types)
        if sum(types) * 2 != k:
            r = np.zeros((n,) * k, dtype=np.int64)
        else:
            cre, ann = self._single_ops(n)
            # acc[i1..ij] = rho q1..qj
            acc = self.rho[s]
            for t in types:
                m = cre if t else ann
                acc = np.tensordot(acc, m, axes=([acc.ndim - 1], [1])) % P
                # axes: (i1..i_{j-1}, x, n, y) -> move n before x
                acc = np.moveaxis(acc, -2, acc.ndim - 3)
            r = np.trace(acc, axis1=acc.ndim - 2, axis2=acc.ndim - 1) % P
        self._mom[key] = r
        return r

    def wcoef(self, s, types):
        """w with  sum_{R1+R2=R} sgn <R1> w(R2) = delta(R,0)"""
        key = (s, types)
        if key in self._w:
            return self._w[key]
        k = len(types)
        n = self.spaces[s].n
        if k == 0:
            r = np.ones((), dtype=np.int64)
        elif sum(types) * 2 != k:
            r = np.zeros((n,) * k, dtype=np.int64)
        else:
            r = np.zeros((n,) * k, dtype=np.int64)
            for sz in range(2, k + 1, 2):
                for R1 in itertools.combinations(range(k), sz):
                    t1 = tuple(types[i] for i in R1)
                    if sum(t1) * 2 != sz:
                        continue
                    R2 = tuple(i for i in range(k) if i not in R1)
                    sg = perm_sign(R1 + R2)
                    m = np.multiply.outer(self.moment(s, t1), self.wcoef(
                        s, tuple(types[i] for i in R2))) % P
                    order = R1 + R2
                    m = np.transpose(m, [order.index(i) for i in range(k)])
                    r = r - sg * m
            r %= P
        self._w[key] = r
        return r

    def cumulant(self, s, types):
        """connected part of <q1...qk> (k even)"""
        key = (s, types)
        if key in self._cum:
            return self._cum[key]
        k = len(types)
        if k >= 8 and types == (True,) * (k // 2) + (False,) * (k // 2):
            r = self._cum[key] = self._cumulant_log(s, k // 2)
            return r
        r = self.moment(s, types).copy()
        # subtract all partitions with more than one block: the block of element 0 is B
        for sz in range(2, k, 2):
            for rest in itertools.combinations(range(1, k), sz - 1):
                B = (0,) + rest
                tb = tuple(types[i] for i in B)
                if sum(tb) * 2 != sz:
                    continue
                C = tuple(i for i in range(k) if i not in B)
                tc = tuple(types[i] for i in C)
                if sum(tc) * 2 != len(C):
                    continue
                sg = perm_sign(B + C)
                m = np.multiply.outer(self.cumulant(s, tb), self.moment(s, tc)) % P
                order = B + C
                r = r - sg * np.transpose(m, [order.index(i) for i in range(k)])
        r %= P
        self._cum[key] = r
        return r

    def _cumulant_log(self, s, k):
        """the same cumulant from the logarithm of the generating function, a polynomial in Grassmann variables"""
        n = self.spaces[s].n
        if ("log", s) not in self._cum:
            cre, ann = self._single_ops(n)
            sub = [[c for c in itertools.combinations(range(n), j)] for j in range(n + 1)]
            m = {}
            for j in range(1, n + 1):
                for I in sub[j]:
                    A = self.rho[s]
                    for i in I:
                        A = A @ cre[i] % P
                    for J in sub[j]:
                        B = A
                        for i in J:
                            B = B @ ann[i] % P
                        x = int(np.trace(B)) % P
                        if x:
                            m[sum(1 << i for i in I) | sum(1 << (n + i) for i in J)] = x

            def mul(a, b):
                r = {}
                for x, cx in a.items():
                    for y, cy in b.items():
                        if x & y:
                            continue
                        sg, t = 0, x >> 1
                        while t:
                            sg += bin(t & y).count("1")
                            t >>= 1
                        r[x | y] = (r.get(x | y, 0) + (-cx * cy if sg & 1 else cx * cy)) % P
                return r

            log, pw = {}, {0: 1}
            for j in range(1, n + 1):
                pw = mul(pw, m)
                f = pow(j, P - 2, P) * (1 if j % 2 else -1)
                for x, c in pw.items():
                    log[x] = (log.get(x, 0) + f * c) % P
            self._cum[("log", s)] = log
        log = self._cum[("log", s)]
        r = np.zeros((n,) * (2 * k), dtype=np.int64)
        perms = np.array(list(itertools.permutations(range(k))), dtype=np.int64)
        sg = np.array([perm_sign(p) for p in perms], dtype=np.int64)
        for x, c in log.items():
            if bin(x).count("1") != 2 * k:
                continue
            I = np.array([i for i in range(n) if x >> i & 1])[perms]
            J = np.array([i for i in range(n) if x >> (n + i) & 1])[perms]
            N = len(perms)
            ix = [np.repeat(I[:, a], N) for a in range(k)] + [np.tile(J[:, a], N) for a in range(k)]
            r[tuple(ix)] = (c * np.repeat(sg, N) * np.tile(sg, N)) % P
        return r

    def _reference_tensor(self, label, up, lo):
        """gamma1, eta1, lambda_k of the reference; None when label is an ordinary tensor"""
        if label not in ("gamma1", "eta1") and not (
                label.startswith("lambda") and label[6:].isdigit()):
            return None
        if len(up) != len(lo):
            return None
        k = len(up)
        sp = set(up) | set(lo)
        if len(sp) != 1:
            return None
        s = sp.pop()
        if s not in self.rho:
            return None
        if label == "gamma1" and k == 1:
            return self.moment(s, (True, False))  # [cre, ann] = gamma^{cre}_{ann}
        if label == "eta1" and k == 1:
            return np.transpose(self.moment(s, (False, True)))  # <a_l a+_u> indexed [u, l]
        if label == "lambda%d" % k and k >= 2:
            c = self.cumulant(s, (True,) * k + (False,) * k)
            # axes: c1..ck, then lk..l1
            return np.transpose(c, list(range(k)) + [2 * k - 1 - i for i in range(k)])
        return None

    # --------------------------------------------------------- operator action
    def _is_qcre(self, cre, s):
        st = self.spaces[s].stype
        return (not cre) if st == "occupied" else cre

    def _triplets(self, types):
        """sparse action of all plain strings of a type.
        returns (combos index arrays per slot, rows, cols, sign, comb_no) restricted
        to increasing index tuples inside runs of equal (cre, space)"""
        if types in self._trip:
            return self._trip[types]
        groups = []
        i = 0
        while i < len(types):
            j = i
            while j < len(types) and types[j] == types[i]:
                j += 1
            groups.append((i, j))
            i = j
        per = []
        for (i, j) in groups:
            n = self.spaces[types[i][1]].n
            per.append(list(itertools.combinations(range(n), j - i)))
        combos = [sum(c, ()) for c in itertools.product(*per)]
        M = len(combos)
        k = len(types)
        idx = np.array(combos, dtype=np.int64).reshape(M, k)
        rows, cols, sgn, num = [], [], [], []
        chunk = max(1, (1 << 21) // self.D)
        for c0 in range(0, M, chunk):
            sub = idx[c0:c0 + chunk]
            st = np.broadcast_to(np.arange(self.D, dtype=np.int64), (len(sub), self.D)).copy()
            ok = np.ones(st.shape, dtype=bool)
            sg = np.zeros(st.shape, dtype=np.int64)
            for pos in range(k - 1, -1, -1):
                cre, s = types[pos]
                bit = (sub[:, pos] + self.off[s])[:, None]
                occ = (st >> bit) & 1
                ok &= (occ == 0) if cre else (occ == 1)
                sg ^= self.par[st & ((1 << bit) - 1)]
                st ^= (1 << bit)
            m, c = np.nonzero(ok)
            rows.append(st[m, c])
            cols.append(c)
            sgn.append(1 - 2 * sg[m, c])
            num.append(m + c0)
        cat = (lambda z: np.concatenate(z) if z else np.zeros(0, dtype=np.int64))
        r = (groups, idx, cat(rows), cat(cols), cat(sgn), cat(num))
        self._trip[types] = r
        return r

    def apply_plain(self, types, C, v):
        """sum_idx C[idx] q1..qk v,  v of shape (D, B)"""
        types = tuple(types)
        if not types:
            return int(C) * v % P
        groups, idx, rows, cols, sgn, num = self._triplets(types)
        C = C % P
        for (i, j) in groups:
            if j - i > 1:
                acc = np.zeros_like(C)
                for p in itertools.permutations(range(j - i)):
                    ax = list(range(C.ndim))
                    for t in range(j - i):
                        ax[i + t] = i + p[t]
                    acc = acc + perm_sign(p) * np.transpose(C, ax)
                C = acc % P
        out = np.zeros_like(v)
        if len(rows) == 0:
            return out
        coef = C[tuple(idx.T)][num] * sgn % P
        for b in range(v.shape[1]):
            w = (coef * v[cols, b] % P).astype(np.float64)
            out[:, b] = np.bincount(rows, weights=w, minlength=self.D).astype(np.int64) % P
        return out

    def apply_normal(self, types, C, v):
        """sum_idx C[idx] {q1..qk} v, normal order with respect to the reference"""
        types = tuple(types)
        if not types:
            return int(C) * v % P
        # class of each slot: q-creators, then one group per general space, then q-annihilators
        cls = []
        for cre, s in types:
            if self.spaces[s].stype == "general":
                cls.append(1 + s)
            elif self._is_qcre(cre, s):
                cls.append(0)
            else:
                cls.append(1000)
        # group equal (class, type, space) too: normal-ordered operators anticommute
        key = [(c, (t[1], not t[0])) if c in (0, 1000) else (c, (0, 0)) for c, t in zip(cls, types)]
        sg, order = sort_sign(key)
        C = np.transpose(C, order) * sg % P
        types = tuple(types[k] for k in order)
        cls = [cls[k] for k in order]
        gen = {}
        for k, c in enumerate(cls):
            if 0 < c < 1000:
                gen.setdefault(c - 1, []).append(k)
        out = np.zeros_like(v)
        # choose the removed subset in every general group
        choices = []
        for s, slots in gen.items():
            ch = []
            for sz in range(0, len(slots) + 1, 2):
                for R in itertools.combinations(slots, sz):
                    if sum(types[k][0] for k in R) * 2 == sz:
                        ch.append((s, R, tuple(k for k in slots if k not in R)))
            choices.append(ch)
        let = list(range(len(types)))
        acc = {}
        for pick in itertools.product(*choices):
            sgn = 1
            ops = [(C, tuple(let))]
            removed = set()
            for s, R, keep in pick:
                if not R:
                    continue
                base = R + keep
                lo = min(base)
                sgn *= perm_sign([b - lo for b in base])
                ops.append((self.wcoef(s, tuple(types[k][0] for k in R)), R))
                removed |= set(R)
            kept = tuple(k for k in let if k not in removed)
            r = einsum_mod(ops, kept) * sgn % P
            t = tuple(types[k] for k in kept)
            acc[t] = (acc[t] + r) % P if t in acc else r
        for t, r in acc.items():
            out = (out + self.apply_plain(t, r, v)) % P
        return out

    # ------------------------------------------------------------- expressions
    def eval_term(self, term, v=None):
        """(op types, coefficient tensor over the operators' slots) of one term.
        Every index is summed; op indices are the slots of the result."""
        names = []
        for t in term.tensors:
            names += t.up + t.lo
        opn = [o[1:] for o in term.ops]
        operands = []
        for t in term.tensors:
            operands.append((self.tensor(t.label, [s for s, _ in t.up], [s for s, _ in t.lo], t.sym),
                             tuple(t.up) + tuple(t.lo)))
        have = set(names)
        out = []
        for n in opn:
            if n not in out:
                out.append(n)
        for n in out:
            if n not in have:
                operands.append((np.ones(self.spaces[n[0]].n, dtype=np.int64), (n,)))
        C = einsum_mod(operands, tuple(out)) if operands else np.ones((), dtype=np.int64)
        if len(out) != len(opn):  # an operator index occurs twice: put on the diagonal
            full = np.zeros(tuple(self.spaces[n[0]].n for n in opn), dtype=np.int64)
            for ix in itertools.product(*[range(self.spaces[n[0]].n) for n in out]):
                m = dict(zip(out, ix))
                full[tuple(m[n] for n in opn)] = C[ix]
            C = full
        types = tuple((o[0], o[1]) for o in term.ops)
        return types, C * frac_mod(term.coef) % P

    def collect(self, terms):
        acc = {}
        for t in terms:
            types, C = self.eval_term(t)
            sg, order = sort_sign([(not c, s) for c, s in types]) if self._collect_sorted else (1, None)
            if order is not None:
                types = tuple(types[k] for k in order)
                C = np.transpose(C, order) * sg % P
            acc[types] = (acc[types] + C) % P if types in acc else C
        return acc

    _collect_sorted = True

    def apply_expression(self, terms, v):
        """normal-ordered expression (operators in a string anticommute inside {})"""
        out = np.zeros_like(v)
        for types, C in self.collect(terms).items():
            out = (out + self.apply_normal(types, C, v)) % P
        return out

    def apply_operator(self, label, cre, ann, v):
        """T = 1/(prod cre! ann!) sum T^{ann}_{cre} {cre... rev(ann)...} applied to v"""
        from fractions import Fraction
        import math
        lo = [s for s, c in enumerate(cre) for _ in range(c)]
        up = [s for s, c in enumerate(ann) for _ in range(c)]
        f = Fraction(1)
        for c in list(cre) + list(ann):
            f /= math.factorial(c)
        T = self.tensor(label, up, lo)
        nu, nl = len(up), len(lo)
        # string: lower indices in order, then upper indices reversed
        order = [nu + k for k in range(nl)] + [nu - 1 - k for k in range(nu)]
        C = np.transpose(T, order) * frac_mod(f) % P
        types = [(True, s) for s in lo] + [(False, s) for s in reversed(up)]
        return self.apply_normal(types, C, v)

    def apply_opexpr(self, opexpr, v):
        """opexpr: list of (coef, [ (label, cre, ann), ... ])"""
        out = np.zeros_like(v)
        for c, prod in opexpr:
            w = v
            for label, cre, ann in reversed(prod):
                w = self.apply_operator(label, cre, ann, w)
            out = (out + frac_mod(c) * w) % P
        return out

    def random_vector(self, B=1):
        return self.np.integers(0, P, size=(self.D, B), dtype=np.int64)
