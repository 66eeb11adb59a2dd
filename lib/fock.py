"""Exact Fock-space algebra: second-quantized operators as sparse matrices over the rationals,
normal ordering with respect to an arbitrary (possibly correlated, mixed) reference, and evaluation
of printed expressions for concrete tensors."""
import itertools, re
from fractions import Fraction as F
from functools import lru_cache


class Fock:
    """modes: list of (space label, kind) with kind in o/u/g; rho: density matrix of the g modes as
    dict {(state, state): F}, states being bit masks over the g modes (mode order)."""

    def __init__(self, modes, rho=None):
        self.modes = modes
        self.n = len(modes)
        self.dim = 1 << self.n
        self.by_space = {}
        for k, (s, _) in enumerate(modes):
            self.by_space.setdefault(s, []).append(k)
        g = [k for k, m in enumerate(modes) if m[1] == "g"]
        # full density matrix: occupied modes filled, unoccupied modes empty
        base = sum(1 << k for k, m in enumerate(modes) if m[1] == "o")

        def expand(x):
            return base | sum(1 << g[i] for i in range(len(g)) if x >> i & 1)
        self.rho = {(expand(a), expand(b)): v for (a, b), v in (rho or {(0, 0): F(1)}).items()}
        assert sum(v for (a, b), v in self.rho.items() if a == b) == 1
        self._no = {}
        self._mat = {}
        self._lam = {}

    # ---- plain strings: tuple of (cre, mode)
    def apply(self, string, st):
        sign = 1
        for cre, m in reversed(string):
            occ = st >> m & 1
            if cre == bool(occ):
                return 0, 0
            if bin(st & ((1 << m) - 1)).count("1") & 1:
                sign = -sign
            st ^= 1 << m
        return sign, st

    def matrix(self, string):
        r = self._mat.get(string)
        if r is None:
            r = {}
            for c in range(self.dim):
                s, t = self.apply(string, c)
                if s:
                    r[(t, c)] = F(s)
            self._mat[string] = r
        return r

    def expect(self, string):
        tot = F(0)
        for (a, b), v in self.rho.items():  # Tr(rho O) = sum rho[a,b] O[b,a]
            s, t = self.apply(string, a)
            if s and t == b:
                tot += v * s
        return tot

    # ---- cumulants
    def elem(self, sub):
        """value of the elementary contraction of the operators `sub` (tuple of (cre, mode) in string order)"""
        v = self._lam.get(sub)
        if v is not None:
            return v
        kinds = {self.modes[m][0] for _, m in sub}
        nc = sum(1 for c, _ in sub if c)
        if 2 * nc != len(sub) or len(kinds) != 1:
            v = F(0)
        elif nc == 1:
            v = self.expect(sub)
        elif self.modes[sub[0][1]][1] != "g":
            v = F(0)
        else:
            # antisymmetric under any exchange of operators: bring to creators first
            order = sorted(range(len(sub)), key=lambda i: (not sub[i][0], i))
            s = parity(order)
            ssub = tuple(sub[i] for i in order)
            if ssub != sub:
                v = s * self.elem(ssub)
            else:
                # <string> = sum over all complete contractions; remove those with smaller blocks
                v = self.expect(sub) - sum(x for sets, x in self.contractions(sub, full=True) if len(sets) > 1)
        self._lam[sub] = v
        return v

    def contractions(self, string, full=False):
        """all sets of disjoint elementary contractions of a string -> (sets, sign * value)"""
        n = len(string)

        def rec(rem, sets):
            if not rem:
                yield sets, []
                return
            i, rest = rem[0], rem[1:]
            if not full:
                for s, f in rec(rest, sets):
                    yield s, [i] + f
            for k in range(1, len(rest) + 1, 2):
                for sub in itertools.combinations(rest, k):
                    blk = (i,) + sub
                    if full and len(blk) == n:
                        if True:
                            continue
                    nc = sum(1 for x in blk if string[x][0])
                    if 2 * nc != len(blk):
                        continue
                    if self.elem(tuple(string[x] for x in blk)) == 0:
                        continue
                    yield from rec([x for x in rest if x not in sub], sets + [blk])
        for sets, free in rec(list(range(n)), []):
            if full and free:
                continue
            seq = [x for b in sets for x in b] + free
            v = F(parity(seq))
            for b in sets:
                v *= self.elem(tuple(string[x] for x in b))
            yield (sets, v) if full else ((sets, free), v)

    def normal_ordered(self, string):
        """matrix of {string} with respect to the reference"""
        r = self._no.get(string)
        if r is None:
            r = dict(self.matrix(string))
            for (sets, free), v in self.contractions(string):
                if not sets or v == 0:
                    continue
                sub = self.normal_ordered(tuple(string[x] for x in free))
                madd(r, sub, -v)
            self._no[string] = r
        return r

    # ---- densities with wicked's conventions
    def gamma(self, p, q):   # gamma1^{p}_{q} = <a+_p a_q>
        return self.expect(((True, p), (False, q)))

    def eta(self, p, q):     # eta1^{p}_{q} = <a_q a+_p>
        return self.expect(((False, q), (True, p)))

    def lam(self, up, lo):   # lambda^{p1..pk}_{q1..qk}: cumulant of a+p1..a+pk a_qk..a_q1
        return self.elem(tuple((True, p) for p in up) + tuple((False, q) for q in reversed(lo)))


def parity(seq):
    s = 1
    for i in range(len(seq)):
        for j in range(i + 1, len(seq)):
            if seq[i] > seq[j]:
                s = -s
    return s


def madd(r, m, c):
    for k, v in m.items():
        x = r.get(k, 0) + c * v
        if x:
            r[k] = x
        else:
            r.pop(k, None)


def mmul(a, b):
    byrow = {}
    for (i, j), v in b.items():
        byrow.setdefault(i, []).append((j, v))
    r = {}
    for (i, k), v in a.items():
        for j, u in byrow.get(k, ()):
            x = r.get((i, j), 0) + v * u
            if x:
                r[(i, j)] = x
            else:
                r.pop((i, j), None)
    return r


TOK = re.compile(r"([A-Za-z][A-Za-z0-9]*)\^\{([^}]*)\}_\{([^}]*)\}|([ab])([+-])\((\w+)\)|(\{|\})")


def parse_line(line):
    """-> (coef, [(label, [up], [lo])], [(cre, idx, sym)])"""
    m = re.match(r"^\s*([+-]?)\s*(\d+(?:/\d+)?)?\s*", line)
    c = F(m.group(2) or 1)
    if m.group(1) == "-":
        c = -c
    tens, ops = [], []
    for t in TOK.finditer(line[m.end():]):
        if t.group(1):
            tens.append((t.group(1), [x for x in t.group(2).split(",") if x], [x for x in t.group(3).split(",") if x]))
        elif t.group(4):
            ops.append((t.group(5) == "+", t.group(6), t.group(4)))
    return c, tens, ops


def parse_expr(text):
    return [parse_line(l) for l in str(text).split("\n") if l]
