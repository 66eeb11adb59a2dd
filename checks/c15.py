"""C15: printed objects can be read back unchanged."""
import itertools, json
from fractions import Fraction as F
import algmodel as M
import common as C
import terms as T
import vc

ID = "C15"
LEVEL = "model_checking"
TECHNIQUE = "bounded exhaustive enumeration of objects on the real code: printed, compared with an independent (injective) printer, read back and compared"
RULE = ("every index (all spaces and numbers up to the bound and around powers of ten and two), operator, tensor (labels x upper/lower index lists), rational (grid and large values) and "
        "every term shape with every pattern of indices up to the slot bound, crossed with labels, coefficients and the normal-ordered flag, and sums of up to three terms; the text must be the one "
        "an independent injective printer gives, and reading it with the constructor must give an equal object with the same tensors, operators, coefficient and flag")
ASSUME = ["labels match [a-zA-Z][a-zA-Z0-9]* (letters and digits)", "numbers fit a 32-bit signed integer for indices, 1024 bits for coefficients"]
CFG = "ovb"
LABS = ["A", "T2", "a", "b1", "lambda4", "E", "e10", "x0y"]
COEFS = ["1", "-1", "2", "-3", "1/2", "-2/3", "10", "-100", "7/10", "123456789012345678901234567890/7", "-%d" % 2 ** 200, "1/%d" % 3 ** 100]
SLOTS = [("o", 0), ("o", 1), ("v", 0), ("v", 12), ("B", 3)]


def cstr(c, first, alone):
    c = F(c)
    if alone:
        s = str(abs(c))
    else:
        s = "" if abs(c) == 1 else str(abs(c)) + " "
    return ("-" if c < 0 else "" if first else "+") + s


def line(term, c, first):
    t = T.text(term, bos="B")
    return cstr(c, first, not t) + t


def setup():
    import wicked as w
    C.spaces(w, CFG)
    return w


def builder(w):
    return T.Builder(w, "ovB", {l: ("S" if k % 3 == 1 else "N" if k % 3 == 2 else "A") for k, l in enumerate(LABS)})


def canon(term):
    """the flag of a term without operators carries no meaning"""
    return (term[0], term[1], term[2] if term[1] else False)


def decode(text):
    try:
        return M.parse_e(text)
    except ValueError as x:
        return str(x)


def key(term):
    return tuple(T.tstr(t) for t in term[0]), tuple("%s%s(%s%d)" % ("b" if i[0] == "B" else "a", "+" if c else "-", *i) for c, i in term[1]), bool(term[1] and term[2])


def check_term(w, b, term, c, sy=0):
    """one term"""
    e = b.expr([(term, w.make_rational(c))])
    want = line(term, c, True)
    t = str(e)
    if decode(t) != {key(term): F(c)} or repr(e) != t:
        return "the term %s prints as %r" % (want, t)
    if not (w.expression(want) == e):
        return "reading %r gives %r, not the expression that prints as %r" % (want, str(w.expression(want)), t)
    want = t
    S = (w.sym.anti, w.sym.symm, w.sym.none)[sy % 3]
    r = w.expression(want, S)
    if not (r == e) or len(r) != 1:
        return "reading %r gives %r, which is not the printed expression" % (want, str(r))
    if str(r) != want:
        return "reading %r gives an expression that prints as %r" % (want, str(r))
    d = r.dot(e)
    if F(d.numerator(), d.denominator()) != F(c) ** 2:
        return "reading %r gives another expression (dot product %s)" % (want, d)
    return None


def check_sterm(w, b, term, c):
    s = b.sterm(term)
    if str(s) != T.text(term, bos="B"):
        return "the symbolic term %s prints as %r" % (T.text(term, bos="B"), str(s))
    x = w.Term(s)
    x.set(w.make_rational(c))
    e = w.Expression()
    e += x
    t = str(x)
    r = w.expression(t)
    if not (r == e):
        return "reading the term %r gives %r" % (t, str(r))
    if str(s):
        u = w.Expression()
        u += s
        if not (w.expression(str(s)) == u):
            return "reading the symbolic term %r gives %r" % (str(s), str(w.expression(str(s))))
    ts = s.tensors()
    if [str(t) for t in ts] != [T.tstr(t) for t in term[0]]:
        return "tensors() of %r are %s" % (str(s), ts)
    # the same term built in other ways: one operator at a time, operators replaced, tensors and operators mixed, as a Term
    ops = s.ops()
    if [str(o) for o in ops] != [("b" if i[0] == "B" else "a") + "%s(%s%d)" % ("+" if c_ else "-", i[0], i[1]) for c_, i in term[1]]:
        return "ops() of %r are %s" % (str(s), ops)
    for way in range(3):
        z, y = w.SymbolicTerm(), w.Term()
        if way == 0:
            for o in ops:
                z.add(o)
                y.add(o)
        elif way == 1:
            z.add(ops[::-1] + ops)
            z.set(ops)
            y.add(ops)
        z.set_normal_ordered(term[2])
        y.set_normal_ordered(term[2])
        for v in ts:
            z.add(v)
            y.add(v)
        if way == 2:
            for o in ops[:1]:
                z.add(o)
                y.add(o)
            z.add(ops[1:])
            y.add(ops[1:])
        y.set(w.make_rational(c))
        if str(z) != str(s) or str(y) != t:
            return "the term %r built step by step is %r and %r" % (t, str(z), str(y))
        u = w.Expression()
        u += y
        if not (u == e):
            return "the term %r built step by step is different" % t
    return None


def check_sum(w, b, terms):
    """sum of different terms: text has one line per term (in some order), reads back to the same sum"""
    e = b.expr([(t, w.make_rational(c)) for t, c in terms])
    text = str(e)
    if decode(text) != {key(t): F(c) for t, c in terms}:
        return "the sum of %s prints as %r" % ([line(t, c, True) for t, c in terms], text)
    r = w.string_to_expr(text)
    if not (r == e) or str(r) != text:
        return "reading\n%s\ngives\n%s" % (text, r)
    return None


def check_index(w, s, n):
    sp = "ovB".index(s)
    i = w.Index(sp, n)
    t = "%s%d" % (s, n)
    if str(i) != t or repr(i) != t:
        return "Index(%d,%d) prints as %r" % (sp, n, str(i))
    r = w.index(t)
    if not (r == i) or r.space() != sp or r.pos() != n:
        return "index(%r) is %r" % (t, (r.space(), r.pos()))
    if not (w.index("%s_%d" % (s, n)) == i):
        return "index(%r) is not %s" % ("%s_%d" % (s, n), t)
    for cre in (True, False):
        ty = w.type.cre if cre else w.type.ann
        o = w.SQOperator(ty, i)
        ot = "%s%s(%s)" % ("b" if s == "B" else "a", "+" if cre else "-", t)
        if str(o) != ot or repr(o) != ot:
            return "operator %s prints as %r" % (ot, str(o))
        p = w.sqoperator(t, ty)
        q = (w.cre if cre else w.ann)(t)
        if not (p == o) or not (q == o) or p.type() != ty or not (p.index() == i):
            return "sqoperator(%r) is %r" % (t, str(p))
        st = w.SymbolicTerm()
        st.add([o])
        e = w.Expression()
        e += st
        if not (w.expression(ot) == e):
            return "expression(%r) is %r" % (ot, str(w.expression(ot)))
    return None


def check_indices(w, l):
    t = ",".join("%s%d" % x for x in l)
    r = w.indices(t)
    if [str(i) for i in r] != ["%s%d" % x for x in l] or [(i.space(), i.pos()) for i in r] != [("ovB".index(s), n) for s, n in l]:
        return "indices(%r) is %s" % (t, r)
    return None


def check_tensor(w, lab, up, lo, sy):
    S = (w.sym.symm, w.sym.anti, w.sym.none)[sy]
    ix = lambda l: [w.Index("ovB".index(s), n) for s, n in l]
    x = w.Tensor(lab, ix(lo), ix(up), S)
    t = T.tstr((lab, up, lo))
    if str(x) != t or repr(x) != t:
        return "the tensor %s prints as %r" % (t, str(x))
    for r in (w.tensor(t, S), w.tensor(lab, ["%s%d" % i for i in lo], ["%s%d" % i for i in up], S)):
        if r.label() != lab or r.symmetry() != S or [(i.space(), i.pos()) for i in r.upper()] != [("ovB".index(s), n) for s, n in up] \
                or [(i.space(), i.pos()) for i in r.lower()] != [("ovB".index(s), n) for s, n in lo] or str(r) != t:
            return "reading %r gives %r" % (t, str(r))
    return None


def check_rat(w, n, d):
    q = F(n, d)
    r = w.make_rational("%d/%d" % (n, d))
    for t in (r.str(False), r.str(True), str(q), "%+d/%d" % (n, d)):
        x = w.make_rational(t)
        if F(x.numerator(), x.denominator()) != q or not (x == r):
            return "make_rational(%r) is %s instead of %s" % (t, x, q)
    if repr(r) != "rational(%d,%d)" % (q.numerator, q.denominator):
        return "%s prints as %r" % (q, repr(r))
    if abs(n) < 2 ** 31 and abs(d) < 2 ** 31:
        x = eval(repr(r), {"rational": w.rational})
        if not (x == r):
            return "evaluating %r gives %s" % (repr(r), x)
    return None


def check_op(w, lab, comp):
    """components of operators are read back from the printed operator"""
    e = w.op(lab, [comp])
    t = str(e)
    inner = t[t.index("{") + 1:t.rindex("}")].strip()
    r = w.op(lab, [inner])
    if str(r) != t or not (r == e):
        return "reading the component %r of %r gives %r" % (inner, t, str(r))
    return None


# ---------------------------------------------------------------- enumeration
def tuples(n, labels, maxt, maxo):
    """all terms with n slots over all fillings with the index pool"""
    for sh in T.shapes(n, labels, maxt, maxo):
        for sl in itertools.product(SLOTS, repeat=n):
            yield T.fill(sh, sl)


NUM = sorted(set(list(range(0, 130)) + [10 ** k + d for k in range(2, 10) for d in (-1, 0, 1)] + [2 ** k + d for k in range(7, 31) for d in (-1, 0)] + [2 ** 31 - 1]))


def jobs(tier):
    th = tier == "thorough"
    out = [["index"], ["rat", tier], ["lab"]] + [["tens", i, 24, tier] for i in range(24)] + [["op"]]
    # (slots, labels, most tensors, most operators)
    space = [(0, ["A"], 0, 0), (1, LABS, 1, 1), (2, LABS[:3], 2, 2), (3, ["A", "b1"] if th else ["A"], 3, 3)]
    if th:
        space += [(4, ["a"], 2, 4)]
    for k, (n, labs, mt, mo) in enumerate(space):
        tot = len(T.shapes(n, labs, mt, mo)) * len(SLOTS) ** n
        m = max(1, tot // (4000 if th else 700))
        out += [["term", n, labs, mt, mo, i, m] for i in range(m)]
    out += [["coef", i, 8] for i in range(8)]
    out += [["large", cfg, 12 if th else 8, i, 8] for cfg in ("ov", "B", "voB") for i in range(8)] + [["wide", cfg, tier] for cfg in ("ov", "Bv", "o")]
    out += [["sum", i, 32, tier] for i in range(32)]
    out.sort(key=lambda j: j[0] != "sum")
    return out


POOLT = [((), (), False), ((("A", (("o", 0),), (("v", 0),)),), (), False), ((("A", (("v", 0),), (("o", 0),)),), (), False),
         ((), ((True, ("v", 0)), (False, ("o", 0))), False), ((), ((True, ("v", 0)), (False, ("o", 0))), True), ((), ((False, ("o", 0)), (True, ("v", 0))), False),
         ((("A", (("o", 0),), (("v", 0),)),), ((True, ("v", 0)), (False, ("o", 0))), True), ((("a", (), ()),), (), False), ((("a", (), ()), ("b1", (("B", 3),), ())), ((True, ("B", 3)),), True),
         ((("T2", (("o", 0), ("o", 1)), (("v", 0), ("v", 12))),), (), False), ((("T2", (("o", 1), ("o", 0)), (("v", 0), ("v", 12))),), (), False), ((), ((True, ("B", 3)),), True)]


def nz(t):
    return json.loads(json.dumps(t))


def untup(t):
    ts, ops, no = t
    return (tuple((l, tuple(map(tuple, u)), tuple(map(tuple, d))) for l, u, d in ts), tuple((c, tuple(i)) for c, i in ops), no)


def dispatch(w, b, case):
    k = case[0]
    if k == "term":
        t = untup(case[1])
        return check_term(w, b, t, case[2], case[3]) or check_sterm(w, b, t, case[2])
    if k == "sum":
        return check_sum(w, b, [(untup(t), c) for t, c in case[1]])
    if k == "index":
        return check_index(w, *case[1])
    if k == "indices":
        return check_indices(w, [tuple(x) for x in case[1]])
    if k == "tensor":
        return check_tensor(w, case[1], [tuple(x) for x in case[2]], [tuple(x) for x in case[3]], case[4])
    if k == "rat":
        return check_rat(w, *case[1])
    return check_op(w, case[1], case[2])


def gen(job):
    k = job[0]
    if k == "index":
        for s in "ovB":
            for n in NUM:
                yield ["index", [s, n]]
        p = [("o", 0), ("v", 10), ("B", 2147483647), ("o", 1)]
        for n in range(1, 6):
            for l in itertools.product(p, repeat=n):
                yield ["indices", l]
    elif k == "rat":
        m = 60 if job[1] == "thorough" else 30
        for n in range(-m, m + 1):
            for d in range(1, m + 1):
                yield ["rat", [n, d]]
        for x in (2 ** 31 - 1, 2 ** 31, 2 ** 63, 2 ** 64 + 1, 10 ** 40, 2 ** 500 + 1, 8, 9, 10, 100, 808, 3 ** 300):
            for y in (1, 3, 7, 10, 2 ** 40, 10 ** 50, 2 ** 400 - 1):
                yield ["rat", [x, y]]
                yield ["rat", [-x, y]]
                yield ["rat", [y, x]]
    elif k == "tens":
        i, n, tier = job[1:]
        lists = [l for k in range(0, 4 if tier == "thorough" else 3) for l in itertools.product(SLOTS, repeat=k)]
        for k, (u, d) in enumerate(itertools.product(lists, repeat=2)):
            if k % n == i:
                for lab in LABS if len(u) + len(d) < 3 else LABS[k % 8:k % 8 + 1]:
                    yield ["tensor", lab, u, d, k % 3]
    elif k == "lab":
        # labels of every length, of letters of both cases and digits
        ab = "Extraordinarily0LongLabel9zZaA1x5qWeR7tYuIoP3sDfGhJkL2cVbNm468"
        for n in list(range(1, 65)) + [100, 127, 128]:
            for h in ("T", "z"):
                l = (h + (ab[1:] if h == "T" else ab[:0:-1]) * 3)[:n]
                yield ["tensor", l, (("o", 0),), (("v", 12),), n % 3]
                yield ["term", ((( l, (("o", 0),), (("v", 12),)),), (), False), COEFS[n % len(COEFS)], n]
                yield ["term", ((( l, (("o", 0),), (("v", 12),)), ("A", (("v", 12),), (("o", 1),))), ((True, ("o", 1)), (False, ("o", 0))), True), COEFS[(n + 1) % len(COEFS)], n]
                yield ["op", l, "v+ o"]
        for c in map(chr, list(range(48, 58)) + list(range(65, 91)) + list(range(97, 123))):
            for l in ([c] if c.isalpha() else []) + ["T" + c, "t" + c + "9", "Ab" + c + "d"]:
                yield ["tensor", l, (("o", 0),), (("v", 12),), 1]
                yield ["term", (((l, (), (("v", 12),)),), ((False, ("v", 12)),), True), COEFS[ord(c) % len(COEFS)], 0]
    elif k == "op":
        toks = ["o+", "o", "v+", "v", "B+", "B"]
        for n in range(0, 5):
            for c in itertools.product(toks, repeat=n):
                yield ["op", "T", " ".join(c)]
    elif k == "term":
        n, labs, mt, mo, i, m = job[1:]
        for k, t in enumerate(tuples(n, labs, mt, mo)):
            if k % m == i:
                for flag in (False, True) if t[1] else (False,):
                    yield ["term", (t[0], t[1], flag), COEFS[k // m % len(COEFS)], k]
    elif k == "large":
        for k, t in enumerate(T.big_terms(job[1], job[2])):
            if k % job[4] == job[3]:
                yield ["term", (t[0], t[1], bool(t[1]) and k % 3 != 1), COEFS[k % len(COEFS)], k]
                yield ["indices", [i for x in t[0] for i in x[1] + x[2]] or [("o", 0)]]
                for x in t[0][:1]:
                    yield ["tensor", "T%d" % k, x[1], x[2], k % 3]
    elif k == "wide":
        for s in T.wide(job[1], [10, 31, 64, 100] if job[2] == "quick" else [10, 31, 64, 100, 130, 257], COEFS):
            yield ["sum", s]
    elif k == "coef":
        i, n = job[1:]
        for k, (t, c) in enumerate(itertools.product(POOLT, COEFS)):
            if k % n == i:
                for sy in range(3):
                    yield ["term", t, c, sy]
    else:
        i, n, tier = job[1:]
        cs = COEFS if tier == "thorough" else COEFS[:7]
        k = 0
        for r in (1, 2, 3):
            for ts in itertools.combinations(POOLT, r):
                for c in itertools.product(cs if r < 3 else cs[:6:1 if tier == "thorough" else 2], repeat=r):
                    k += 1
                    if k % n == i:
                        yield ["sum", list(zip(ts, c))]


def run(job, a):
    w = setup()
    b = builder(w)
    for case in gen(job):
        vc.crumb(json.dumps(case))
        m = dispatch(w, b, case)
        a.states += 1
        a.transitions += 2
        a.validated += 2
        a.count("objects of kind " + case[0])
        if job[0] in ("term", "sum"):
            a.sample(json.dumps(case)[:300])
        if m:
            a.bad(case, m)


def replay(case):
    w = setup()
    return dispatch(w, builder(w), case)
