"""C23: LaTeX output is faithful."""
import itertools, json, re
from fractions import Fraction as F
import common as C
import terms as T
import vc

ID = "C23"
LEVEL = "model_checking"
TECHNIQUE = "bounded exhaustive enumeration of objects on the real code: the LaTeX text is read by an independent reader that knows the registered names, and must give back the object"
RULE = ("every index (all spaces and numbers up to the bound, with and without a registered name), operator, tensor (labels x upper/lower index lists), rational (grid and large values), "
        "every term shape with every pattern of indices up to the slot bound, over several registries (one-letter, multi-letter and macro names, long and exhausted name lists), crossed with labels, "
        "coefficients and the normal-ordered flag, and sums of up to three terms, and after every sequence of two to four definitions of the registries: a reader independent of the code recovers exactly the coefficients, tensors, operators, their order, indices and flags from the "
        "text, and no two different objects of a job have the same text")
ASSUME = ["labels match [a-zA-Z]+_?[0-9]*; the number of a label that names a Greek letter is not shown (documented in the code)",
          "registered index names are distinct, contain no blanks and do not have the form of the fallback names"]
REG = {
    "ovb": [("o", "fermion", "occupied", list("ijkl")), ("v", "fermion", "unoccupied", list("abcd")), ("B", "boson", "unoccupied", list("pqrs"))],
    "mac": [("o", "fermion", "occupied", ["i_1", "i_2"]), ("v", "fermion", "unoccupied", ["\\alpha", "\\beta", "\\gamma"]), ("B", "boson", "unoccupied", ["x", "xx", "xxx"])],
    "few": [("o", "fermion", "general", ["i"]), ("v", "fermion", "general", ["a"]), ("B", "boson", "unoccupied", ["P"])],
    "perm": [("B", "boson", "unoccupied", list("pqrs")), ("v", "fermion", "unoccupied", list("dcba")), ("o", "fermion", "occupied", list("lkji"))],
}
GREEK = ["alpha", "beta", "gamma", "delta", "epsilon", "zeta", "eta", "theta", "iota", "kappa", "lambda", "mu", "nu", "xi", "omicron", "pi", "rho", "sigma", "tau", "upsilon", "phi", "chi", "psi", "omega"]
LABS = ["A", "T2", "a", "b12", "lambda4", "E", "gamma", "g_1", "Lambda"]
COEFS = ["1", "-1", "2", "-3", "1/2", "-2/3", "10", "-100", "7/10", "11", "-1/12", "21/2", "123456789012345678901234567890/7", "-%d" % 2 ** 200, "1/%d" % 3 ** 100]
SLOTS = [("o", 0), ("o", 1), ("v", 0), ("v", 12), ("B", 3)]


class Names:
    """independent knowledge of the registry"""

    def __init__(self, reg):
        self.reg = REG[reg]
        self.lab = "".join(x[0] for x in self.reg)
        self.map = {nm: (x[0], k) for x in self.reg for k, nm in enumerate(x[3])}
        self.field = {x[0]: x[1] for x in self.reg}
        self.len = {x[0]: len(x[3]) for x in self.reg}

    def name(self, i):
        for nm, j in self.map.items():
            if j == tuple(i):
                return nm
        return "%s_{%d}" % tuple(i)

    def read(self, t):
        if t in self.map:
            return self.map[t]
        m = re.fullmatch(r"(.)_\{(\d+)\}", t)
        if not m or m[1] not in self.field or int(m[2]) < self.len[m[1]]:
            raise ValueError("%r names no index" % t)
        return (m[1], int(m[2]))

    def group(self, s, k):
        """the balanced group starting at s[k]"""
        if k >= len(s) or s[k] != "{":
            raise ValueError("no group at %r" % s[k:])
        d = 0
        for j in range(k, len(s)):
            if s[j] == "\\" and j + 1 < len(s) and s[j + 1] in "{}":
                raise ValueError("group runs into a brace at %r" % s[k:])
            d += (s[j] == "{") - (s[j] == "}")
            if d == 0:
                return s[k + 1:j], j + 1
        raise ValueError("unbalanced %r" % s[k:])

    def idx(self, g):
        return tuple(self.read(x) for x in g.split())

    def term(self, s):
        """LaTeX of a symbolic term -> (tensors, ops, flag)"""
        ts, ops, flag, k, closed = [], [], False, 0, False
        while k < len(s):
            if s[k].isspace():
                k += 1
                continue
            if closed:
                raise ValueError("text after the closing brace: %r" % s[k:])
            if s.startswith("\\{", k):
                if flag or ops:
                    raise ValueError("misplaced brace in %r" % s)
                flag, k = True, k + 2
            elif s.startswith("\\}", k):
                if not flag:
                    raise ValueError("misplaced brace in %r" % s)
                closed, k = True, k + 2
            elif s.startswith("\\hat", k):
                sym, k = self.group(s, k + 4)
                cre = ann = ()
                if k < len(s) and s[k] == "^":
                    g, k = self.group(s, k + 1)
                    cre = self.idx(g)
                if k < len(s) and s[k] == "_":
                    g, k = self.group(s, k + 1)
                    ann = self.idx(g)
                new = [(True, i) for i in cre] + [(False, i) for i in reversed(ann)]
                if not new:
                    raise ValueError("operator without index in %r" % s)
                for _, i in new:
                    if {"fermion": "a", "boson": "b"}[self.field[i[0]]] != sym:
                        raise ValueError("wrong symbol %r for index %r" % (sym, i))
                ops += new
            elif s[k] == "{":
                if ops or flag:
                    raise ValueError("tensor after operators in %r" % s)
                lab, k = self.group(s, k)
                if not s.startswith("^", k):
                    raise ValueError("no upper indices in %r" % s)
                up, k = self.group(s, k + 1)
                if not s.startswith("_", k):
                    raise ValueError("no lower indices in %r" % s)
                lo, k = self.group(s, k + 1)
                ts.append((lab, self.idx(up), self.idx(lo)))
            else:
                raise ValueError("cannot read %r" % s[k:])
        if flag and not closed:
            raise ValueError("no closing brace in %r" % s)
        return tuple(ts), tuple(ops), flag

    def line(self, s):
        """LaTeX of a term with coefficient"""
        m = re.match(r"\s*([+-]?)\s*(?:(\d+)|\\frac\{(\d+)\}\{(\d+)\})?", s)
        rest = s[m.end():]
        if not m[1] and m[2] is None and m[3] is None and not rest.strip():
            raise ValueError("empty term")
        c = F(int(m[2])) if m[2] else F(int(m[3]), int(m[4])) if m[3] else F(1)
        if m[3] and (int(m[4]) == 1 or c.denominator != int(m[4])):
            raise ValueError("fraction not in lowest terms: %r" % s)
        if m[1] and m[2] is None and m[3] is None and not rest.strip():
            raise ValueError("a sign without a number: %r" % s)
        return (-c if m[1] == "-" else c), self.term(rest)


def labkey(l):
    """what is shown of a label"""
    m = re.fullmatch(r"([A-Za-z]+)_?(\d+)?", l)
    if m[1] in GREEK:
        return "\\" + m[1]
    return m[1] + ("_{%s}" % m[2] if m[2] else "")


def key(t):
    return tuple((labkey(l), tuple(map(tuple, u)), tuple(map(tuple, d))) for l, u, d in t[0]), tuple((c, tuple(i)) for c, i in t[1]), bool(t[2] and t[1])


class Ctx:
    def __init__(self, reg):
        import wicked as w
        self.w = w
        self.n = Names(reg)
        w.reset_space()
        for lab, field, kind, idx in REG[reg]:
            w.add_space(lab, field, kind, idx)
        self.b = T.Builder(w, self.n.lab, {l: ("S" if k % 3 == 1 else "N" if k % 3 == 2 else "A") for k, l in enumerate(LABS)})
        self.S = (w.sym.anti, w.sym.symm, w.sym.none)

    def index(self, i):
        return self.w.Index(self.n.lab.index(i[0]), i[1])


def rd(f, s):
    try:
        return f(s)
    except ValueError as x:
        return "error: %s" % x


def check_index(x, s, n):
    i = x.index((s, n))
    t = i.latex()
    N[0] += 1
    if rd(x.n.read, t) != (s, n):
        return "index %s%d has LaTeX %r, read as %s" % (s, n, t, rd(x.n.read, t))
    for cre in (True, False):
        o = x.w.SQOperator(x.w.type.cre if cre else x.w.type.ann, i)
        got = rd(x.n.term, o.latex())
        N[0] += 1
        if got != ((), ((cre, (s, n)),), False):
            return "operator %s has LaTeX %r, read as %s" % (o, o.latex(), got)
    return None


def check_tensor(x, lab, up, lo, sy):
    t = x.w.Tensor(lab, [x.index(i) for i in lo], [x.index(i) for i in up], x.S[sy])
    got = rd(x.n.term, t.latex())
    N[0] += 1
    if got != (((labkey(lab), tuple(map(tuple, up)), tuple(map(tuple, lo))),), (), False):
        return "tensor %s has LaTeX %r, read as %s" % (t, t.latex(), got)
    return None


def check_term(x, t, c):
    s = x.b.sterm(t)
    got = rd(x.n.term, s.latex())
    N[0] += 1
    if got != key(t):
        return "the term %s has LaTeX %r, read as %s" % (s, s.latex(), got)
    r = x.w.make_rational(c)
    y = x.w.Term(s)
    y.set(r)
    e = x.b.expr([(t, r)])
    for what, z in (("term", y), ("expression", e)):
        got = rd(x.n.line, z.latex())
        N[0] += 1
        if got != (F(c), key(t)):
            return "the %s %s has LaTeX %r, read as %s" % (what, z, z.latex(), got)
    return None


SEPS = [None, " \\\\ \n", "\n", " ; "]


def check_sum(x, terms, sep):
    e = x.b.expr([(t, x.w.make_rational(c)) for t, c in terms])
    sep = SEPS[sep]
    s = e.latex() if sep is None else e.latex(sep)
    N[0] += 1
    try:
        ls = [x.n.line(l) for l in s.split(sep or " \\\\ \n")]
        got = {t: c for c, t in ls}
        if len(ls) != len(got):
            got = "repeated terms"
        # every later term starts with a sign
        for l in s.split(sep or " \\\\ \n")[1:]:
            if l.lstrip()[:1] not in ("+", "-"):
                got = "a term without sign: %r" % l
    except ValueError as v:
        got = "error: %s" % v
    if got != {key(t): F(c) for t, c in terms}:
        return "the sum\n%s\nhas LaTeX\n%s\nread as %s" % (e, s, got)
    # terms appear in the order of the printed form
    want = [T.text(t, bos="B") for t, _ in terms]
    order = [k for l in str(e).split("\n") for k in range(len(want)) if re.sub(r"^[+-]?(\d+(/\d+)?( |$))?", "", l) == want[k]]
    if len(order) == len(want) and [key(terms[k][0]) for k in order] != [t for _, t in ls]:
        return "the LaTeX terms of\n%s\nare in another order:\n%s" % (e, s)
    return None


def check_rat(x, n, d):
    q = F(n, d)
    r = x.w.make_rational("%d/%d" % (n, d))
    for first in (True, False):
        t = r.latex(first)
        N[0] += 1
        m = re.fullmatch(r"\s*([+-]?)\s*(?:(\d+)|\\frac\{(\d+)\}\{(\d+)\})?\s*", t)
        v = None
        if m and t.strip():
            v = F(int(m[2])) if m[2] else F(int(m[3]), int(m[4])) if m[3] else F(1)
            v = -v if m[1] == "-" else v
        if v != q or (not first and q and not m[1]) or (q == 0 and "0" not in t):
            return "the number %s has LaTeX %r" % (q, t)
    return None


# ---------------------------------------------------------------- enumeration
def check_hist(regs):
    """the texts depend only on the spaces that are defined now, not on earlier definitions"""
    n = 0
    for k, r in enumerate(regs):
        x = Ctx(r)
        N[0] = 0
        m = None
        for s in "ovB":
            for i in range(14):
                m = m or check_index(x, s, i)
        for t in POOLT:
            m = m or check_term(x, t, COEFS[(k + 4) % len(COEFS)])
        for u, d in itertools.product([l for q in (0, 1, 2) for l in itertools.combinations(SLOTS, q)], repeat=2):
            m = m or check_tensor(x, LABS[(len(u) + k) % len(LABS)], u, d, 0)
        n += N[0]
        if m:
            N[0] = n
            return "after defining the spaces of %s: %s" % (regs[:k + 1], m)
    N[0] = n
    return None


NUM = sorted(set(list(range(0, 63)) + [10 ** k + d for k in range(2, 10) for d in (-1, 0, 1)] + [2 ** 31 - 1]))
POOLT = [((), (), False), ((("A", (("o", 0),), (("v", 0),)),), (), False), ((("A", (("v", 0),), (("o", 0),)),), (), False),
         ((), ((True, ("v", 0)), (False, ("o", 0))), False), ((), ((True, ("v", 0)), (False, ("o", 0))), True), ((), ((False, ("o", 0)), (True, ("v", 0))), False),
         ((("A", (("o", 0),), (("v", 0),)),), ((True, ("v", 0)), (False, ("o", 0))), True), ((("a", (), ()),), (), False), ((("a", (), ()), ("b12", (("B", 3),), ())), ((True, ("B", 3)),), True),
         ((("T2", (("o", 0), ("o", 1)), (("v", 0), ("v", 12))),), (), False), ((("T2", (("o", 1), ("o", 0)), (("v", 0), ("v", 12))),), (), False), ((), ((True, ("B", 3)),), True)]


def jobs(tier):
    th = tier == "thorough"
    out = []
    for reg in REG:
        out += [["index", reg], ["rat", reg, tier]] + [["tens", reg, i, 6, tier] for i in range(6)]
        space = [(0, ["A"], 0, 0), (1, LABS, 1, 1), (2, LABS[:3], 2, 2), (3, ["A", "b12"] if th else ["A"], 3, 3)]
        if th or reg == "ovb":
            space += [(4, ["a"], 2 if th else 0, 4)]
        for n, labs, mt, mo in space:
            tot = len(T.shapes(n, labs, mt, mo)) * len(SLOTS) ** n
            m = max(1, tot // (6000 if th else 1500))
            out += [["term", reg, n, labs, mt, mo, i, m] for i in range(m)]
        out += [["coef", reg, 0, 1]] + [["sum", reg, i, 8, tier] for i in range(8)]
    out += [["large", reg, cfg, 12 if th else 8, i, 8] for reg in REG for cfg in ("ov", "Bvo") for i in range(8)] + [["wide", reg, cfg, tier] for reg in REG for cfg in ("ov", "B")]
    out += [["hist", r, q] for r in REG for q in REG if r != q]
    out.sort(key=lambda j: j[0] != "sum")
    return out


def gen(job):
    k, reg = job[:2]
    if k == "index":
        for s in "ovB":
            for n in NUM:
                yield ["index", s, n]
    elif k == "hist":
        for n in (0, 1, 2):
            for h in itertools.product(REG, repeat=n):
                yield ["hist", [reg, job[2]] + list(h)]
    elif k == "rat":
        m = 60 if job[2] == "thorough" else 25
        for n in range(-m, m + 1):
            for d in range(1, m + 1):
                yield ["rat", n, d]
        for x in (2 ** 31 - 1, 2 ** 31, 2 ** 63, 2 ** 64 + 1, 10 ** 40, 2 ** 500 + 1, 8, 9, 10, 100, 808, 3 ** 300):
            for y in (1, 3, 7, 10, 2 ** 40, 10 ** 50, 2 ** 400 - 1):
                yield ["rat", x, y]
                yield ["rat", -x, y]
                yield ["rat", y, x]
    elif k == "tens":
        i, n, tier = job[2:]
        lists = [l for k in range(0, 4 if tier == "thorough" else 3) for l in itertools.product(SLOTS, repeat=k)]
        for k, (u, d) in enumerate(itertools.product(lists, repeat=2)):
            if k % n == i:
                for lab in LABS if len(u) + len(d) < 3 else LABS[k % 9:k % 9 + 1]:
                    yield ["tensor", lab, u, d, k % 3]
        if i == 0:
            for g in GREEK + [g.capitalize() for g in GREEK] + ["Tgamma", "gammaT", "pix"]:
                for sub in ("", "1", "12"):
                    yield ["tensor", g + sub, (("o", 0),), (("v", 1),), 0]
    elif k == "term":
        n, labs, mt, mo, i, m = job[2:]
        q = 0
        for sh in T.shapes(n, labs, mt, mo):
            for sl in itertools.product(SLOTS, repeat=n):
                q += 1
                if q % m == i:
                    t = T.fill(sh, sl)
                    for flag in (False, True) if t[1] else (False,):
                        yield ["term", (t[0], t[1], flag), COEFS[q // m % len(COEFS)]]
    elif k == "large":
        for j, t in enumerate(T.big_terms(job[2], job[3])):
            if j % job[5] == job[4]:
                yield ["term", (t[0], t[1], bool(t[1]) and j % 3 != 1), COEFS[j % len(COEFS)]]
                for x in t[0][:1]:
                    yield ["tensor", "T%d" % j, x[1], x[2], j % 3]
    elif k == "wide":
        for q, s in enumerate(T.wide(job[2], [10, 31, 64, 100] if job[3] == "quick" else [10, 31, 64, 100, 130, 257], COEFS)):
            yield ["sum", s, q % 4]
    elif k == "coef":
        for t, c in itertools.product(POOLT, COEFS):
            yield ["term", t, c]
    else:
        i, n, tier = job[2:]
        th = tier == "thorough"
        q = 0
        for r in (1, 2, 3):
            for ts in itertools.combinations(POOLT, r):
                for c in itertools.product(COEFS[:7] if r < 3 else COEFS[:6:1 if th else 2], repeat=r):
                    q += 1
                    if q % n == i:
                        yield ["sum", list(zip(ts, c)), q // n % 4]


N = [0]   # LaTeX texts read


def untup(t):
    ts, ops, no = t
    return (tuple((l, tuple(map(tuple, u)), tuple(map(tuple, d))) for l, u, d in ts), tuple((c, tuple(i)) for c, i in ops), no)


def dispatch(x, case):
    k = case[0]
    if k == "hist":
        return check_hist(case[1])
    if k == "term":
        return check_term(x, untup(case[1]), case[2])
    if k == "sum":
        return check_sum(x, [(untup(t), c) for t, c in case[1]], case[2])
    if k == "index":
        return check_index(x, *case[1:])
    if k == "tensor":
        return check_tensor(x, *case[1:])
    return check_rat(x, *case[1:])


def run(job, a):
    x = Ctx(job[1])
    for case in gen(job):
        c = [job[1]] + case
        vc.crumb(json.dumps(c))
        N[0] = 0
        m = dispatch(x, case)
        a.states += 1
        a.transitions += N[0]
        a.validated += 1
        a.count("objects of kind " + case[0])
        if job[0] in ("term", "sum"):
            a.sample(json.dumps(c)[:300])
        if m:
            a.bad(c, m)


def replay(case):
    return dispatch(Ctx(case[0]), case[1:])
