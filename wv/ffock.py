"""Dense floating point operators on a small Fock space (independent of fock.py)."""
import itertools

import numpy as np


def perm_parity(p):
    s, p = 1, list(p)
    for i in range(len(p)):
        while p[i] != i:
            j = p[i]
            p[i], p[j] = p[j], p[i]
            s = -s
    return s


class Fock:
    """spaces: objects with stype and n; mode numbers run over the spaces in order"""

    def __init__(self, spaces, rng):
        self.spaces = spaces
        self.off, self.N = [], 0
        for s in spaces:
            self.off.append(self.N)
            self.N += s.n
        self.D = 1 << self.N
        self.ann = []
        for m in range(self.N):
            a = np.zeros((self.D, self.D))
            for x in range(self.D):
                if x >> m & 1:
                    a[x ^ (1 << m), x] = (-1) ** bin(x & ((1 << m) - 1)).count("1")
            self.ann.append(a)
        self.cre = [a.T.copy() for a in self.ann]
        self.rho = self._state(rng)
        self.phi = 0
        for k, s in enumerate(spaces):
            if s.stype == "occupied":
                self.phi |= ((1 << s.n) - 1) << self.off[k]
        self._plain, self._no, self._mom = {((), ()): np.eye(self.D)}, {}, {}

    def _state(self, rng):
        """occupied full, unoccupied empty, every general space in its own random mixed state of conserved number"""
        diag = np.array([[1.0]])
        for s in self.spaces:
            d = 1 << s.n
            r = np.zeros((d, d))
            if s.stype == "occupied":
                r[d - 1, d - 1] = 1
            elif s.stype == "unoccupied":
                r[0, 0] = 1
            else:
                for n in range(s.n + 1):
                    st = [x for x in range(d) if bin(x).count("1") == n]
                    b = np.array([[rng.gauss(0, 1) for _ in st] for _ in st])
                    r[np.ix_(st, st)] = b @ b.T * rng.uniform(0.1, 1)
                r /= np.trace(r)
            diag = np.kron(r, diag)     # later spaces are the higher bits
        return diag

    def plain(self, C, A):
        """a+(C1)..a+(Ck) a(A1)..a(Al), in this order"""
        m = self._plain.get((C, A))
        if m is None:
            m = self.plain(C, A[:-1]) @ self.ann[A[-1]] if A else self.plain(C[:-1], ()) @ self.cre[C[-1]]
            self._plain[(C, A)] = m
        return m

    def moment(self, C, A):
        """<a+(C1)..a+(Ck) a(A1)..a(Al)>"""
        if len(C) != len(A):
            return 0.0
        v = self._mom.get((C, A))
        if v is None:
            v = self._mom[(C, A)] = float(np.sum(self.rho * self.plain(C, A).T))
        return v

    def normal(self, C, A):
        """{a+(C).. a(A)..}: what remains of the string when every expectation value of a sub-string is taken out"""
        m = self._no.get((C, A))
        if m is not None:
            return m
        m = self.plain(C, A).copy()
        n, k = len(C) + len(A), len(C)
        for r in range(2, n + 1, 2):
            h = r // 2
            if h > k or h > len(A):
                break
            for sc in itertools.combinations(range(k), h):
                for sa in itertools.combinations(range(k, n), h):
                    v = self.moment(tuple(C[i] for i in sc), tuple(A[i - k] for i in sa))
                    if abs(v) < 1e-300:
                        continue
                    S = sc + sa
                    rest = [i for i in range(n) if i not in S]
                    sg = perm_parity(S + tuple(rest))
                    m -= sg * v * self.normal(tuple(C[i] for i in rest if i < k), tuple(A[i - k] for i in rest if i >= k))
        self._no[(C, A)] = m
        return m

    def modes(self, space):
        return range(self.off[space], self.off[space] + self.spaces[space].n)

    def string(self, up, lo, array, weight=1.0):
        """sum over all indices of array[up + lo] {a+(lo1) a+(lo2).. a(up_k)..a(up1)}; up, lo: space numbers"""
        arr = np.asarray(array, dtype=float)
        ranges = [self.modes(s) for s in up + lo]
        acc = {}
        for ix in np.ndindex(*arr.shape):
            x = arr[ix]
            if x == 0:
                continue
            g = [r[j] for r, j in zip(ranges, ix)]
            U, L = g[:len(up)], g[len(up):]
            A = U[::-1]
            if len(set(A)) < len(A) or len(set(L)) < len(L):
                continue
            pc = sorted(range(len(L)), key=lambda j: L[j])
            pa = sorted(range(len(A)), key=lambda j: A[j])
            key = (tuple(L[j] for j in pc), tuple(A[j] for j in pa))
            acc[key] = acc.get(key, 0.0) + x * perm_parity(pc) * perm_parity(pa)
        m = np.zeros((self.D, self.D))
        for (C, A), x in acc.items():
            if x:
                m += x * self.normal(C, A)
        return weight * m

    # reference tensors, as arrays over the general space k (indices: upper, then lower)
    def gamma1(self, up, lo):
        """gamma^{p}_{q}: expectation value of a+(p) a(q)"""
        return self._one(up, lo, lambda p, q: self.moment((p,), (q,)))

    def eta1(self, up, lo):
        """eta^{p}_{q}: delta(p, q) - gamma"""
        return self._one(up, lo, lambda p, q: float(p == q) - self.moment((p,), (q,)))

    def _one(self, up, lo, f):
        return np.array([[f(p, q) for q in self.modes(lo)] for p in self.modes(up)])

    def cumulant(self, cs, as_):
        """the cumulant of a+(c1).. a+(ck) a(a1).. a(ak), modes given"""
        k = len(cs)
        if len(set(cs)) < k or len(set(as_)) < k:
            return 0.0
        key = ("cum", cs, as_)
        v = self._mom.get(key)
        if v is not None:
            return v
        # moment minus all partitions into more than one block, each block balanced
        n = 2 * k
        ops = list(range(n))
        v = self.moment(cs, as_)
        for part in balanced_partitions(list(range(k)), list(range(k, n))):
            if len(part) == 1:
                continue
            sg = perm_parity([x for b in part for x in b])
            t = 1.0
            for b in part:
                t *= self.cumulant(tuple(cs[x] for x in b if x < k), tuple(as_[x - k] for x in b if x >= k))
                if t == 0:
                    break
            v -= sg * t
        self._mom[key] = v
        return v

    def lam(self, k, up, lo):
        """lambda_k^{u1..uk}_{l1..lk}: the cumulant of a+(u1)..a+(uk) a(lk)..a(l1)"""
        arr = np.zeros([self.spaces[s].n for s in up + lo])
        ranges = [self.modes(s) for s in up + lo]
        for ix in np.ndindex(*arr.shape):
            g = [r[j] for r, j in zip(ranges, ix)]
            arr[ix] = self.cumulant(tuple(g[:k]), tuple(g[k:][::-1]))
        return arr


def balanced_partitions(cs, as_):
    """set partitions with as many creators as annihilators in every block (blocks: creators first)"""
    if not cs:
        yield []
        return
    c0, rest = cs[0], cs[1:]
    for r in range(len(rest) + 1):
        for more in itertools.combinations(rest, r):
            for an in itertools.combinations(as_, r + 1):
                rc = [c for c in rest if c not in more]
                ra = [a for a in as_ if a not in an]
                for p in balanced_partitions(rc, ra):
                    yield [(c0,) + more + an] + p


def antisymmetric(rng, groups, dims):
    """random array antisymmetric within every group of axes; groups: lists of axis numbers"""
    n = 1
    for d in dims:
        n *= d
    a = np.array([rng.uniform(-1, 1) for _ in range(n)]).reshape(dims)
    for g in groups:
        if len(g) > 1:
            b = np.zeros_like(a)
            for p in itertools.permutations(range(len(g))):
                ax = list(range(a.ndim))
                for i, j in enumerate(p):
                    ax[g[i]] = g[j]
                b += perm_parity(p) * a.transpose(ax)
            a = b / np.sqrt(float(len(list(itertools.permutations(range(len(g)))))))
    return a
