"""Enumeration of symbolic terms (tensors and normal-ordered operators with every pattern of index names) and fast
construction through the public interface. A term is (tensors, ops, flag): tensors = ((label, ups, los), ...),
ops = ((creation?, index), ...), indices are (space label, number)."""
import itertools


def istr(i):
    return "%s%d" % i


def tstr(t):
    return "%s^{%s}_{%s}" % (t[0], ",".join(map(istr, t[1])), ",".join(map(istr, t[2])))


def text(term, sym="a", bos=()):
    ts, ops, no = term
    p = [tstr(t) for t in ts]
    o = ["%s%s(%s)" % ("b" if i[0] in bos else "a", "+" if c else "-", istr(i)) for c, i in ops]
    if o and no:
        o = ["{"] + o + ["}"]
    return " ".join(p + o)


class Builder:
    def __init__(self, w, labels, sym):
        """sym: dict label -> 'A' / 'S' / 'N'"""
        self.w = w
        self.sp = {l: k for k, l in enumerate(labels)}
        self.sym = sym
        S = w.sym
        self.S = dict(A=S.anti, S=S.symm, N=S.none)
        self.idx = {(l, n): w.Index(k, n) for l, k in self.sp.items() for n in range(520)}
        T = w.type
        self.ops = {(c, i): w.SQOperator(T.cre if c else T.ann, x) for i, x in self.idx.items() for c in (True, False)}

    def sterm(self, term):
        ts, ops, no = term
        s = self.w.SymbolicTerm()
        for l, u, d in ts:
            s.add(self.w.Tensor(l, [self.idx[i] for i in d], [self.idx[i] for i in u], self.S[self.sym.get(l, "A")]))
        if ops:
            s.add([self.ops[o] for o in ops])
        s.set_normal_ordered(no)
        return s

    def expr(self, terms):
        """terms: [(term, rational or None)]"""
        e = self.w.Expression()
        for t, c in terms:
            s = self.sterm(t)
            if c is None:
                e += s
            else:
                x = self.w.Term(s)
                x.set(c)
                e += x
        return e


def shapes(n, labels, maxt, maxo):
    """all (tensor shapes, operator pattern) with n slots: tensors are a non-decreasing tuple of (label, nu, nl)"""
    one = [(l, k - d, d) for l in labels for k in range(1, n + 1) for d in range(k + 1)]
    out = []

    def rec(start, left, acc):
        if left <= maxo:
            for p in itertools.product((True, False), repeat=left):
                out.append((tuple(acc), p))
        if len(acc) == maxt:
            return
        for k in range(start, len(one)):
            s = one[k][1] + one[k][2]
            if s <= left:
                rec(k, left - s, acc + [one[k]])
    rec(0, n, [])
    return out


def fill(shape, slots):
    """put the indices `slots` into a shape"""
    ts, ops = shape
    k, out = 0, []
    for l, nu, nl in ts:
        out.append((l, tuple(slots[k:k + nu]), tuple(slots[k + nu:k + nu + nl])))
        k += nu + nl
    return (tuple(out), tuple(zip(ops, slots[k:])), True)


def nslots(shape):
    return sum(a + b for _, a, b in shape[0]) + len(shape[1])


def matchings(n):
    def rec(rem):
        if not rem:
            yield []
            return
        a = rem[0]
        for b in rem[1:]:
            for r in rec([x for x in rem[1:] if x != b]):
                yield [(a, b)] + r
    return rec(list(range(n)))


NAMES = (lambda k, n: k, lambda k, n: n - 1 - k, lambda k, n: (5 * k + 2) % 11)


def closed(shape, spaces, names=NAMES):
    """all closed terms of a shape: every index occurs exactly twice"""
    n = nslots(shape)
    for m in matchings(n):
        for sp in itertools.product(spaces, repeat=n // 2):
            tot = {s: sp.count(s) for s in spaces}
            if max(tot.values()) == 1:
                use = names[::2]
            else:
                use = names
            for f in use:
                cnt = {s: 0 for s in spaces}
                sl = [None] * n
                for (a, b), s in zip(m, sp):
                    sl[a] = sl[b] = (s, f(cnt[s], tot[s]))
                    cnt[s] += 1
                yield fill(shape, sl)


BIG = [((("A", 1, 1), ("B", 1, 1)), (True, False)), ((("A", 2, 2),), (True, True, False, False)), ((("A", 2, 2),), (True, False, True, False)),
       ((("A", 2, 2), ("B", 1, 1)), (True, False)), ((("A", 1, 1), ("A", 1, 1), ("B", 1, 1)), (False, True)), ((("A", 1, 1), ("B", 1, 1), ("C", 1, 1)), (True, False)),
       ((("A", 2, 2), ("B", 2, 2)), ()), ((("A", 2, 2), ("A", 1, 1), ("B", 1, 1)), ()), ((("A", 2, 2), ("S", 2, 2)), ()), ((("S", 2, 2), ("S", 1, 1)), (True, False)),
       ((("A", 2, 1), ("B", 1, 2)), (True, False)), ((("A", 3, 1), ("S", 1, 1)), (False, False)), ((("A", 0, 2), ("B", 2, 0)), (True, True, False, False)),
       ((("A", 0, 2), ("B", 1, 0), ("C", 1, 0)), (True, True)), ((("A", 2, 0), ("B", 0, 1), ("B", 0, 1)), ()), ((("A", 1, 1), ("A", 1, 1), ("A", 1, 1)), ()),
       ((("A", 1, 1), ("A", 1, 1), ("A", 1, 1), ("A", 1, 1)), ()), ((("A", 2, 0), ("A", 0, 2), ("S", 1, 1)), ()), ((("S", 0, 3), ("A", 1, 1)), (True, False, True)),
       ((("A", 3, 3),), (True, False)), ((("A", 2, 2), ("A", 2, 2)), ()), ((("A", 2, 1), ("A", 1, 2), ("B", 1, 1)), ()), ((("A", 4, 4),), ())]


def distinguishable(term, spaces):
    """tensors differ pairwise by label or by the numbers of upper/lower indices per space"""
    sig = [(l,) + tuple((sum(i[0] == s for i in u), sum(i[0] == s for i in d)) for s in spaces) for l, u, d in term[0]]
    return len(set(sig)) == len(sig)


LETTERS = ("A", "B", "C", "D", "E", "F", "G", "H", "K", "L", "M", "P", "Q")


def assemble(n, bonds, spaces, same=False, flip=False):
    """a term of n tensors from its bonds (i, j, space number): the line is an upper index of i and a lower index of j;
    an end of -1 is an operator (annihilation for an upper, creation for a lower index)"""
    cnt = {s: 0 for s in spaces}
    up, lo = [[] for _ in range(n)], [[] for _ in range(n)]
    cre, ann = [], []
    for k, (i, j, s) in enumerate(bonds):
        s = spaces[s % len(spaces)]
        x = (s, cnt[s])
        cnt[s] += 1
        if flip:
            i, j = j, i
        if i >= 0:
            up[i].append(x)
        else:
            cre.append((True, x))
        if j >= 0:
            lo[j].append(x)
        else:
            ann.append((False, x))
    ts = tuple(("A" if same else LETTERS[k], tuple(up[k]), tuple(lo[k])) for k in range(n))
    return (ts, tuple(cre + ann[::-1]), True)


def large(spaces, top):
    """terms of many tensors and indices (every index occurs twice): chains, rings, stars, complete graphs, blocks of
    parallel lines, single tensors with many operators; up to `top` tensors"""
    seen = set()

    def put(name, t):
        if t not in seen:
            seen.add(t)
            yield name, t
    for mul in (1, 2, 3):
        for sp in range(4):  # all lines in the first space, alternating, parallel lines alternating, blocks of four
            f = lambda b, m: (0, b, m, b // 4)[sp]
            for n in range(1, top + 1):
                if n * mul > 2 * top:
                    continue
                ch = [(b - 1, b, f(b, m)) for b in range(1, n) for m in range(mul)]
                ends = [(-1, 0, f(0, m)) for m in range(mul)], [(n - 1, -1, f(n, m)) for m in range(mul)]
                for flip in (False, True):
                    yield from put("chain", assemble(n, ch, spaces, flip=flip))
                    yield from put("open chain", assemble(n, ends[0] + ch + ends[1], spaces, flip=flip))
                    yield from put("half-open chain", assemble(n, ch + ends[1], spaces, flip=flip))
                    yield from put("ring", assemble(n, ch + [(n - 1, 0, f(n, m)) for m in range(mul)], spaces, flip=flip))
                    yield from put("star", assemble(n, [(0, b, f(b, m)) for b in range(1, n) for m in range(mul)], spaces, flip=flip))
                    yield from put("star with operators", assemble(n, [(0, b, f(b, m)) for b in range(1, n) for m in range(mul)] + [(b, -1, f(b, 0)) for b in range(n)], spaces, flip=flip))
                    yield from put("ladder", assemble(n, [(b, b + 2, f(b, m)) for b in range(n - 2) for m in range(mul)] + [(b, b + 1, f(b, 1)) for b in range(0, n - 1, 2)], spaces, flip=flip))
                    if n <= 5:
                        yield from put("complete graph", assemble(n, [(i, j, f(i + j, m)) for i in range(n) for j in range(n) if i != j for m in range(mul)], spaces, flip=flip))
                    # one label, distinguished by the number of lines
                    if n <= 5:
                        yield from put("growing chain", assemble(n, [(b - 1, b, f(b, m)) for b in range(1, n) for m in range(b)], spaces, same=True, flip=flip))
                # one tensor with many lines to operators or to another tensor
                k = n * mul
                yield from put("operators", assemble(1, [(-1, 0, f(m, m)) for m in range(k)] + [(0, -1, f(m, m)) for m in range(k)], spaces))
                yield from put("block", assemble(2, [(0, 1, f(m, m)) for m in range(k)] + [(1, 0, f(m + 1, m + 1)) for m in range(k)], spaces))
                yield from put("operators of two", assemble(2, [(-1, m % 2, f(m, m)) for m in range(k)] + [(1 - m % 2, -1, f(m, m)) for m in range(k)], spaces))


def perm_sign(p):
    p, s = list(p), 1
    for i in range(len(p)):
        while p[i] != i:
            j = p[i]
            p[i], p[j] = p[j], p[i]
            s = -s
    return s


def some_perms(n):
    """reversal, all rotations, all transpositions of neighbours, an interleaving"""
    r = list(range(n))
    out = [r[::-1]] + [r[k:] + r[:k] for k in range(1, n)] + [r[:k] + [k + 1, k] + r[k + 2:] for k in range(n - 1)] + [r[::2] + r[1::2]]
    seen, res = {tuple(r)}, []
    for p in out:
        if tuple(p) not in seen:
            seen.add(tuple(p))
            res.append(tuple(p))
    return res


def large_presentations(term, bos=()):
    """(presentation, sign) of a term with equal value: names, order of tensors, order of operators"""
    ts, ops, no = term
    names = {}
    for i in sorted({i for _, u, d in ts for i in u + d}):
        names.setdefault(i[0], []).append(i[1])
    maps = []
    m = max(map(len, names.values()), default=0)
    for f in [lambda x, n: x, lambda x, n: n - 1 - x, lambda x, n: 2 * x, lambda x, n: x + 9, lambda x, n: 98 + x, lambda x, n: 25 * x % 63] + [lambda x, n, k=k: (x + k) % n for k in range(1, m)]:
        maps.append({(s, x): (s, f(x, len(v))) for s, v in names.items() for x in v})
    tp = [tuple(range(len(ts)))] + some_perms(len(ts))
    op = [tuple(range(len(ops)))] + some_perms(len(ops))
    combos = [(i, 0, 0) for i in range(len(maps))] + [(0, i, 0) for i in range(1, len(tp))] + [(0, 0, i) for i in range(1, len(op))]
    combos += [(k % len(maps), (3 * k + 1) % len(tp), (5 * k + 2) % len(op)) for k in range(max(len(maps), len(tp), len(op)))]
    for a, b, c in combos:
        g = lambda i: maps[a].get(i, i)
        s = perm_sign([x for x in op[c] if ops[x][1][0] not in bos]) if not bos else None
        if bos:
            fo = [x for x in op[c] if ops[x][1][0] not in bos]
            r = sorted(fo)
            s = perm_sign([r.index(x) for x in fo])
        yield (tuple((ts[k][0], tuple(map(g, ts[k][1])), tuple(map(g, ts[k][2]))) for k in tp[b]), tuple((ops[k][0], g(ops[k][1])) for k in op[c]), no), s


def big_terms(spaces, top):
    """two presentations of every large term"""
    for j, (_, t) in enumerate(large(spaces, top)):
        ps = list(large_presentations(t))
        for q in {j % len(ps), (7 * j + 3) % len(ps)}:
            yield ps[q][0]


def wide(spaces, sizes, coefs):
    """sums of many different terms: [(term, coefficient)] in several orders"""
    a, b = spaces[0], spaces[1 % len(spaces)]
    for n in sizes:
        r = []
        for k in range(n):
            x, y, z = (a, k), (b, (7 * k) % 97), (a, k + 1)
            t = (((("A", (x,), (y,)),), (), False), ((("B", (x, y), (z,)), ("C", (z,), (x,))), (), False), ((), ((True, x), (False, y)), bool(k % 2)),
                 ((("A", (y,), (x,)),), ((True, x), (False, z)), True), ((), ((True, x),), False))[k % 5]
            r.append((t, coefs[(k * k + k // 5) % len(coefs)]))
        for o in (list(range(n)), list(range(n))[::-1], [(k * 61) % n for k in range(n)] if n % 61 else [], list(range(0, n, 2)) + list(range(1, n, 2))):
            if len(o) == n:
                yield [r[k] for k in o]
