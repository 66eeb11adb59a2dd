"""C25: orderings and equality are consistent."""
import itertools, json, re
from fractions import Fraction as F
import common as C
import terms as T
import vc

ID = "C25"
LEVEL = "model_checking"
TECHNIQUE = "bounded exhaustive enumeration: the comparison relations of the real code are tabulated on all pairs and checked against the axioms on all triples and against the documented order; all insertion orders of sums"
RULE = ("for every registry the relations <, ==, >, != of all indices, <, ==, normal_ordered_less of all operators over all spaces and numbers of the bound are tabulated by calling the real code on all pairs; "
        "on the table irreflexivity, antisymmetry, totality, compatibility with equality and transitivity on all triples, and agreement with the documented order, are decided; all lists up to a length "
        "are sorted (sorted(), canonicalize_indices both ways) and compared; for expressions and operator expressions the equality of all pairs of a pool (objects equal, equal up to construction, "
        "different) is compared with equality of the objects; sums of all pairs and triples in all insertion orders are equal, print alike and in an order that is a total order; "
        "operators with up to 129 lines of a kind are distinguished in comparisons and sums; equal objects are exchanged in every operation and the results compared")
ASSUME = ["a tensor label is used with one symmetry (comparisons do not look at the symmetry)"]
REGS = ["ov", "vo", "g", "cav", "ovb", "fb", "uov", "ovx", "hg", "og", "gg4", "ou8", "mix8"]
NUMS = [0, 1, 2, 9, 10, 2 ** 31 - 1]


def axioms(name, n, lt, eq, show):
    """lt, eq: bit rows"""
    full = (1 << n) - 1
    for i in range(n):
        if lt[i] >> i & 1:
            return "%s: %s is less than itself" % (name, show(i))
        if not eq[i] >> i & 1:
            return "%s: %s is not equal to itself" % (name, show(i))
        for j in range(n):
            a, b, e, f = lt[i] >> j & 1, lt[j] >> i & 1, eq[i] >> j & 1, eq[j] >> i & 1
            if e != f or a + b + e != 1:
                return "%s: %s and %s: less %d, greater %d, equal %d/%d" % (name, show(i), show(j), a, b, e, f)
            if a and lt[j] & ~lt[i]:
                k = (lt[j] & ~lt[i]).bit_length() - 1
                return "%s: %s < %s < %s but not first < last" % (name, show(i), show(j), show(k))
            if e and (lt[j] != lt[i] or eq[j] != eq[i]):
                return "%s: %s equals %s but they compare differently" % (name, show(i), show(j))
    return None


def table(objs, f):
    return [sum(1 << j for j, y in enumerate(objs) if f(x, y)) for x in objs]


def keyt(keys):
    return [sum(1 << j for j, y in enumerate(keys) if x < y) for x in keys]


def first_diff(a, b, n):
    for i in range(n):
        if a[i] != b[i]:
            return i, ((a[i] ^ b[i]).bit_length() - 1)


def check_index(w, reg, a):
    C.spaces(w, reg)
    ns = len(C.CFG[reg])
    labs = C.labels(reg)
    keys = [(s, p) for s in range(ns) for p in NUMS]
    # two separately made copies of every object
    objs = [w.Index(*k) for k in keys] + [w.index("%s%d" % (labs[s], p)) for s, p in keys]
    keys = keys * 2
    n = len(objs)
    lt, eq = table(objs, lambda x, y: x < y), table(objs, lambda x, y: x == y)
    gt, ne = table(objs, lambda x, y: x > y), table(objs, lambda x, y: x != y)
    show = lambda i: str(objs[i])
    m = axioms("indices of %s" % reg, n, lt, eq, show)
    if m:
        return m
    full = (1 << n) - 1
    for what, got, want in (("<", lt, keyt(keys)), (">", gt, [sum(1 << j for j in range(n) if lt[j] >> i & 1) for i in range(n)]), ("!=", ne, [full & ~e for e in eq])):
        if got != want:
            i, j = first_diff(got, want, n)
            return "registry %s: %s %s %s is %s" % (reg, show(i), what, show(j), bool(got[i] >> j & 1))
    a.states += n
    a.transitions += 4 * n * n
    a.count("pairs", 4 * n * n)
    a.count("triples decided on the table", n ** 3)
    return None


def check_ops(w, reg, a):
    C.spaces(w, reg)
    cf = C.CFG[reg]
    labs = C.labels(reg)
    raw = [(c, s, p) for c in (True, False) for s in range(len(cf)) for p in NUMS]
    ty = {True: w.type.cre, False: w.type.ann}
    mk = {True: w.cre, False: w.ann}
    objs = [w.SQOperator(ty[c], w.Index(s, p)) for c, s, p in raw] + [mk[c]("%s%d" % (labs[s], p)) for c, s, p in raw]
    raw = raw * 2
    n = len(objs)
    show = lambda i: str(objs[i])
    okey = lambda q, s, p: (0, s, p) if q else (1, -s, -p)
    qc = lambda c, s: c != (cf[s][2] == "occupied")
    # the order for normal ordering distinguishes creation from annihilation only through the quasi-particle type
    for what, f, keys in (("<", lambda x, y: x < y, [okey(c, s, p) for c, s, p in raw]), ("normal_ordered_less", lambda x, y: x.normal_ordered_less(y), [okey(qc(c, s), s, p) for c, s, p in raw])):
        lt, eq = table(objs, f), table(objs, lambda x, y: x == y)
        m = axioms("operators of %s with %s" % (reg, what), n, lt, eq, show)
        if m:
            return m
        want = keyt(keys)
        if lt != want:
            i, j = first_diff(lt, want, n)
            return "registry %s: %s %s %s is %s" % (reg, show(i), what, show(j), bool(lt[i] >> j & 1))
        a.states += n
        a.transitions += 2 * n * n
        a.count("pairs", 2 * n * n)
        a.count("triples decided on the table", n ** 3)
    gt, ne = table(objs, lambda x, y: x > y), table(objs, lambda x, y: x != y)
    for i in range(n):
        for j in range(n):
            if bool(gt[i] >> j & 1) != (objs[j] < objs[i]) or bool(ne[i] >> j & 1) == (objs[i] == objs[j]):
                return "registry %s: > or != of %s and %s disagree with < and ==" % (reg, show(i), show(j))
    return None


def parity(keys):
    """sign of the permutation that sorts distinct keys"""
    s = 1
    for i, j in itertools.combinations(range(len(keys)), 2):
        if keys[i] > keys[j]:
            s = -s
    return s


def check_sort(w, reg, l):
    """l: list of (space, number)"""
    C.spaces(w, reg)
    l = [tuple(x) for x in l]
    o = [w.Index(*x) for x in l]
    k = lambda q: [(i.space(), i.pos()) for i in q]
    if k(sorted(o)) != sorted(l):
        return "sorted(%s) is %s" % (o, sorted(o))
    for rev in (False, True):
        sg, r = w.canonicalize_indices(o, rev)
        if k(r) != sorted(l, reverse=rev):
            return "canonicalize_indices(%s, %s) is %s" % (o, rev, r)
        if len(set(l)) == len(l):
            want = parity(l) * (parity(sorted(l, reverse=True)) if rev else 1)
            if F(sg.numerator(), sg.denominator()) != want:
                return "canonicalize_indices(%s, %s) has sign %s instead of %d" % (o, rev, sg.str(False), want)
    cf = C.CFG[reg]
    n = len(l)
    patts = range(1 << n) if n < 9 else [0, (1 << n) - 1] + [int(b * n, 2) % (1 << n) for b in ("01", "110", "1000", "100110")] + [(1 << (n // 2)) - 1, (1 << n) - (1 << (n // 2))]
    for patt in patts:
        raw = [(bool(patt >> i & 1), x) for i, x in enumerate(l)]
        q = [w.SQOperator(w.type.cre if c else w.type.ann, w.Index(*x)) for c, x in raw]
        r = sorted(q)
        want = sorted(raw, key=lambda z: (0, z[1]) if z[0] else (1, (-z[1][0], -z[1][1])))
        got = [(x.type() == w.type.cre, (x.index().space(), x.index().pos())) for x in r]
        if got != want:
            return "sorted(%s) is %s" % (q, r)
    return None


# ---------------------------------------------------------------- sums
def pool(th):
    o, v, b = (lambda n: ("o", n)), (lambda n: ("v", n)), (lambda n: ("B", n))
    A = lambda u, d: ("A", tuple(u), tuple(d))
    P = [((), (), False), ((A([o(0)], [v(0)]),), (), False), ((A([o(0)], [v(0)]),), (), True), ((A([v(0)], [o(0)]),), (), False), ((A([o(0)], [o(0)]),), (), False), ((A([o(1)], [v(0)]),), (), False),
         ((A([o(0), o(1)], []),), (), False), ((A([o(1), o(0)], []),), (), False), ((A([], [o(0), o(1)]),), (), False), ((A([], [o(0)]), A([o(0)], [])), (), False), ((A([o(0)], []), A([], [o(0)])), (), False),
         ((("B2", (o(0),), (v(0),)),), (), False), ((("AA", (o(0),), (v(0),)),), (), False), ((("A", (), ()), ("A", (), ())), (), False), ((("A", (), ()),), (), False),
         ((), ((True, o(0)),), False), ((), ((True, o(0)),), True), ((), ((False, o(0)),), False), ((), ((True, v(0)),), False), ((), ((True, o(1)),), False), ((), ((True, b(0)),), False),
         ((), ((True, o(0)), (False, o(0))), False), ((), ((True, o(0)), (False, o(0))), True), ((), ((False, o(0)), (True, o(0))), False), ((), ((True, o(0)), (False, v(0))), False),
         ((), ((True, v(0)), (False, o(0))), False), ((A([o(0)], [v(0)]),), ((True, v(0)), (False, o(0))), False), ((A([o(0)], [v(0)]),), ((True, v(0)), (False, o(0))), True),
         ((A([o(0)], [v(0)]),), ((True, v(0)),), False), ((A([o(10)], [v(2)]),), (), False), ((A([o(2)], [v(10)]),), (), False)]
    return P


def canon(t):
    return (t[0], t[1], t[2] if t[1] else False)


def bld(w):
    C.spaces(w, "ovb")
    return T.Builder(w, "ovB", {})


COEF = ["1/1", "-2/3", "5/1", "100000000000000000000000000001/100000000000000000000000000000"]


def model(terms):
    d = {}
    for t, c in terms:
        k = canon(t)
        d[k] = d.get(k, 0) + F(c)
    return {k: v for k, v in d.items() if v}


def lines(e):
    return str(e).split("\n") if str(e) else []


def check_pair(w, b, t, c, u, d):
    mk = lambda l: b.expr([(x, w.make_rational(y)) for x, y in l])
    x, y = mk([(t, c)]), mk([(u, d)])
    same = model([(t, c)]) == model([(u, d)])
    for p, q in ((x, y), (y, x)):
        if (p == q) != same or (p != q) == same:
            return "comparing\n%s\nwith\n%s\ngives == %s, != %s" % (p, q, p == q, p != q)
    s1, s2, s3, s4 = mk([(t, c), (u, d)]), mk([(u, d), (t, c)]), x + y, y + x
    n = len(model([(t, c), (u, d)]))
    for s in (s1, s2, s3, s4):
        if len(s) != n or not (s == s1) or str(s) != str(s1) or s.latex() != s1.latex():
            return "the sum of %s and %s depends on how it is made, or has the wrong number of terms:\n%s\n---\n%s" % (x, y, s1, s)
    if same:
        # interchangeable: every operation gives equal results
        z = mk([(pool(False)[25], "3/2")])
        r = w.make_rational("-2/7")
        for what, f in (("+", lambda e: e + z), ("-", lambda e: e - z), ("@", lambda e: e @ z), ("@ left", lambda e: z @ e), ("* number", lambda e: e * r),
                        ("canonicalize", lambda e: mk2(w, e).canonicalize()), ("vacuum_normal_ordered", lambda e: e.vacuum_normal_ordered()), ("dot", lambda e: e.dot(x)), ("dot2", lambda e: x.dot(e)),
                        ("adjoint", lambda e: e.adjoint()), ("norm", lambda e: e.norm()), ("str", str), ("latex", lambda e: e.latex()), ("many-body", lambda e: str(e.to_manybody_equation("R"))),
                        ("is_vacuum_normal_ordered", lambda e: e.is_vacuum_normal_ordered())):
            res = []
            for e in (x, y):
                try:
                    res.append(f(e))
                except RuntimeError as v:
                    res.append("error %s" % v)
            if not (res[0] == res[1]) or str(res[0]) != str(res[1]):
                return "%s of equal expressions %r (built from %s and %s) differs:\n%s\n---\n%s" % (what, str(x), t, u, res[0], res[1])
    return None


def mk2(w, e):
    r = w.Expression()
    r += e
    return r


def check_triple(w, b, ts, order):
    """sum of three terms in every insertion order; order: {(i, j)} printed order of pairs"""
    first = None
    for p in itertools.permutations(ts):
        e = b.expr([(t, w.make_rational(c)) for t, c in p])
        if first is None:
            first = e
        elif not (e == first) or str(e) != str(first):
            return "the sum of %s depends on the insertion order:\n%s\n---\n%s" % (ts, first, e)
    return None


def check_order(w, b):
    """the order of terms in sums is a strict total order and sums of more terms follow it"""
    P = [t for t in pool(True) if canon(t) == t]
    n = len(P)
    one = []
    for t in P:
        one.append(T.text(t, bos="B"))

    def seq(ix):
        e = b.expr([(P[i], w.make_rational("%d/1" % (i + 2))) for i in ix])
        # coefficients identify the terms
        return [int(re.match(r"\+?(\d+)", l)[1]) - 2 for l in lines(e)]
    lt = [0] * n
    eq = [1 << i for i in range(n)]
    for i in range(n):
        for j in range(n):
            if i != j:
                s = seq([i, j])
                if sorted(s) != sorted([i, j]):
                    return "the sum of %s and %s prints the terms %s" % (one[i], one[j], s)
                if s == [i, j]:
                    lt[i] |= 1 << j
    m = axioms("terms of a sum", n, lt, eq, lambda i: one[i])
    if m:
        return m
    full = sorted(range(n), key=lambda i: -bin(lt[i]).count("1"))
    for r in (list(range(n)), list(range(n))[::-1]):
        if seq(r) != full:
            return "the sum of all terms is printed in the order %s instead of %s" % (seq(r), full)
    for tr in itertools.combinations(range(n), 3):
        for p in (tr, tr[::-1]):
            if seq(p) != [i for i in full if i in tr]:
                return "the sum of %s is printed in the order %s" % ([one[i] for i in tr], seq(p))
    return None


# ---------------------------------------------------------------- operator expressions
OPS = [[("A", "o+ o")], [("B", "o+ o")], [("A", "v+ o")], [("A", "o+ v")], [("AA", "o+ o")], [("A", "o+ o"), ("B", "o+ o")], [("B", "o+ o"), ("A", "o+ o")], [("A", "o+ o"), ("A", "o+ o")],
       [("A", "v+ v+ o o")], [("A", "v+")], [("A", "o")], [("A", "v+ o"), ("A", "v+ o")], [("A", "")], []]


def mkop(w, words):
    """sum of products with coefficients"""
    r = None
    for l, c in words:
        p = None
        for lab, comp in l:
            o = w.op(lab, [comp])
            p = o if p is None else p @ o
        if p is None:
            p = w.OperatorExpression()
        x = w.OperatorExpression()
        if l:
            x.add2(p, w.make_rational(c))
        r = x if r is None else r + x
    return r


def omodel(words):
    d = {}
    for l, c in words:
        if l:
            k = tuple(l)
            d[k] = d.get(k, 0) + F(c)
    return {k: v for k, v in d.items() if v}


def check_opexpr(w, x, y):
    """x, y: lists of (word, coefficient)"""
    a, b = mkop(w, x), mkop(w, y)
    same = omodel(x) == omodel(y)
    if (a == b) != same or (b == a) != same or (a != b) == same:
        return "comparing the operators\n%s\nwith\n%s\ngives %s" % (a, b, a == b)
    s, t = a + b, b + a
    if not (s == t) or str(s) != str(t) or s.size() != len(omodel(x + y)):
        return "the sum of\n%s\nand\n%s\ndepends on the order:\n%s\n---\n%s" % (a, b, s, t)
    return None


def opcases(th):
    deep, th = th, True
    one = [[(l, c)] for l in OPS for c in COEF[:4 if th else 2]]
    two = [[(l, "1/1"), (m, "-2/3")] for l, m in itertools.product(OPS, repeat=2)]
    for x, y in itertools.product(one, repeat=2):
        yield x, y
    for x in two:
        for y in (x[::-1], x, [x[0]], [x[1]], [(x[0][0], "1/1"), (x[1][0], "2/3")]):
            yield x, y
            yield y, x
    if th:
        for x, y in itertools.product(two if deep else two[::5], two if deep else two[::3]):
            yield x, y


def long_lists(reg, top):
    """long lists of indices: sorted, reversed, rotated, with repeats, few values, interleaved"""
    ns = len(C.CFG[reg])
    for n in list(range(9, 40)) + [64, 65, 128, 129, 257][:top]:
        for k in range(6):
            f = [lambda x: (x % ns, x), lambda x: (x // 8 % ns, (5 * x + 3) % 997), lambda x: (x % ns, x // 3), lambda x: (x % 2, x % 3), lambda x: (0, n - x), lambda x: (-x % ns, x % 7)][k]
            l = [f(x) for x in range(n)]
            yield l
            yield sorted(l)
            yield sorted(l)[::-1]
            for r in (1, n // 2, n - 1):
                yield l[r:] + l[:r]
            yield l[::2] + l[1::2]


def wide_sums(tier):
    """the same sum of many terms built in several orders"""
    for reg in ("ov", "Bv", "o"):
        r = []
        for s in T.wide(reg, [10, 33, 70] if tier == "quick" else [10, 33, 70, 140, 300], COEF):
            if r and len(r[0]) != len(s):
                yield r
                r = []
            r.append(s)
        yield r


def check_wide(w, b, sums):
    first = None
    for s in sums:
        e = b.expr([(t, w.make_rational(c)) for t, c in s])
        h = b.expr([(t, w.make_rational(c)) for t, c in s[:len(s) // 2]]) + b.expr([(t, w.make_rational(c)) for t, c in s[len(s) // 2:]])
        if first is None:
            first = e
        for x in (e, h):
            if not (x == first) or not (first == x) or x != first or str(x) != str(first) or len(x) != len(s) or x.latex() != first.latex():
                return "the sum of %d terms depends on the order of insertion:\n%s\n---\n%s" % (len(s), first, x)
        if len(s) != len(model(s)):
            return "the sum of %d terms has %d" % (len(model(s)), len(e))
    k, (t, c) = len(sums[0]) // 2, sums[0][len(sums[0]) // 2]
    for other in (sums[0][:k] + sums[0][k + 1:], sums[0][:k] + [(t, "17/1")] + sums[0][k + 1:], sums[0] + [(((("Q", (), ()),), (), False), "1/1")]):
        x = b.expr([(t, w.make_rational(c)) for t, c in other])
        if x == first or first == x or not (x != first):
            return "sums that differ in one term are equal:\n%s\n---\n%s" % (first, x)
    return None


BIG = [1, 2, 7, 8, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129]


def big_comps(reg):
    """operators with many lines of one kind, or fewer of two kinds"""
    n = 2 * len(C.CFG[reg])
    for k in range(n):
        for m in BIG:
            yield tuple(m if i == k else 0 for i in range(n))
    for k, l in itertools.combinations(range(min(n, 6)), 2):
        for m in (1, 8, 16, 17):
            for q in (1, 15, 16, 32):
                yield tuple(m if i == k else q if i == l else 0 for i in range(n))


def check_big(w, reg, x, y):
    """two different operators with the same label: different, both kept in a sum, products in both orders"""
    labs = C.labels(reg)
    h = len(labs)
    A, B = [w.op("A", [C.comp_str(labs, c[:h], c[h:])]) for c in (x, y)]
    show = lambda c: "A with %s lines" % (c,)
    if A == B or B == A or not (A != B):
        return "registry %s: %s and %s are equal" % (reg, show(x), show(y))
    s, t = A + B, B + A
    if s.size() != 2 or t.size() != 2 or not (s == t) or str(s) != str(t):
        return "registry %s: the sums of %s and %s have %d and %d terms:\n%s\n---\n%s" % (reg, show(x), show(y), s.size(), t.size(), s, t)
    s -= A
    if s.size() != 1 or not (s == B):
        return "registry %s: A + B - A is not B for %s and %s:\n%s" % (reg, show(x), show(y), s)
    return None


def jobs(tier):
    th = tier == "thorough"
    out = [["order"]] + [["index", r] for r in REGS] + [["ops", r] for r in REGS]
    out += [["sort", r, 5 if not th else 6, i, 4] for r in ("ov", "cav", "ovb", "mix8") for i in range(4)]
    out += [["long", r, 5 if th else 2, i, 2] for r in ("ov", "cav", "ovb", "mix8") for i in range(2)] + [["wide", tier]]
    out += [["big", r, i, 4, 1 if th or r == "ov" else 3] for r in ("ov", "cav", "mix8") for i in range(4)]
    out += [["pair", i, 8] for i in range(8)] + [["triple", i, 8, tier] for i in range(8)] + [["opx", i, 4, tier] for i in range(4)]
    return out


def gen(job):
    k = job[0]
    if k == "sort":
        reg, n, i, m = job[1:]
        ns = len(C.CFG[reg])
        items = [(s, p) for s in ((0, 1, 2, 3) if ns > 3 else range(ns)) for p in (1, 0, 10)][:7]
        q = 0
        for r in range(0, n + 1):
            for l in itertools.product(items, repeat=r):
                q += 1
                if q % m == i:
                    yield ["sort", reg, l]
    elif k == "long":
        for q, l in enumerate(long_lists(job[1], job[2])):
            if q % job[4] == job[3]:
                yield ["sort", job[1], l]
    elif k == "big":
        for q, (x, y) in enumerate(itertools.combinations(list(big_comps(job[1])), 2)):
            if q % job[3] == job[2] and q % job[4] == 0:
                yield ["big", job[1], x, y]
    elif k == "wide":
        for s in wide_sums(job[1]):
            yield ["wide", s]
    elif k == "pair":
        P = pool(False)
        for q, ((t, c), (u, d)) in enumerate(itertools.product(itertools.product(P, COEF[:2] + COEF[3:]), repeat=2)):
            if q % job[2] == job[1]:
                yield ["pair", t, c, u, d]
    elif k == "triple":
        P = pool(False)
        for q, ts in enumerate(itertools.combinations(range(len(P)), 3)):
            if q % job[2] == job[1]:
                yield ["triple", [(P[i], COEF[(i + q) % 4]) for i in ts]]
    elif k == "opx":
        for q, (x, y) in enumerate(opcases(job[3] == "thorough")):
            if q % job[2] == job[1]:
                yield ["opx", x, y]


def untup(t):
    ts, ops, no = t
    return (tuple((l, tuple(map(tuple, u)), tuple(map(tuple, d))) for l, u, d in ts), tuple((c, tuple(i)) for c, i in ops), no)


def dispatch(w, case, b=None, a=None):
    k = case[0]
    a = a or vc.Acc()
    if k == "index":
        return check_index(w, case[1], a)
    if k == "ops":
        return check_ops(w, case[1], a)
    if k == "sort":
        return check_sort(w, case[1], case[2])
    if k == "big":
        return check_big(w, case[1], tuple(case[2]), tuple(case[3]))
    b = b or bld(w)
    if k == "order":
        return check_order(w, b)
    if k == "wide":
        return check_wide(w, b, [[(untup(t), c) for t, c in s] for s in case[1]])
    if k == "pair":
        return check_pair(w, b, untup(case[1]), case[2], untup(case[3]), case[4])
    if k == "triple":
        return check_triple(w, b, [(untup(t), c) for t, c in case[1]], None)
    return check_opexpr(w, [(tuple(map(tuple, l)), c) for l, c in case[1]], [(tuple(map(tuple, l)), c) for l, c in case[2]])


def run(job, a):
    import wicked as w
    k = job[0]
    if k in ("index", "ops", "order"):
        m = dispatch(w, job, None, a)
        a.count("tables")
        if m:
            a.bad(job, m)
        return
    b = bld(w)
    if k == "big":
        C.spaces(w, job[1])
    for case in gen(job):
        vc.crumb(json.dumps(case))
        m = dispatch(w, case, b)
        a.states += 1
        a.transitions += 2 if k != "triple" else 6
        a.validated += 1
        a.count("cases of kind " + k)
        a.sample(json.dumps(case)[:300])
        if m:
            a.bad(case, m)


def replay(case):
    import wicked as w
    if case[0] == "big":
        C.spaces(w, case[1])
    return dispatch(w, case)
