"""C19: compiled equations compute the equation."""
import itertools, json, re
from fractions import Fraction as F
import common as C
import minieinsum as E
import terms as T
import vc

ID = "C19"
LEVEL = "model_checking"
TECHNIQUE = "bounded exhaustive enumeration of equations on the real code generators; the generated code is executed exactly and compared with direct evaluation of the equation"
RULE = ("every equation R += c * tensors with every pattern of index coincidence up to the slot bound (traces, repeated tensors, outer products, output permutations, indices missing on one side), several registries "
        "(few, many, multi-letter, colliding and non-letter index names, letters of both cases), coefficient grids, and the equations of real contractions are compiled to both formats; the code is executed with exact arithmetic on fixed "
        "arrays and must equal the direct sum, or be refused; unknown formats and equations that the format cannot express must be refused")
ASSUME = ["arrays of the tensors have small dimensions (2 and 3) with nonzero integer entries; agreement for all values follows from the one-to-one correspondence of letters that is checked as well",
          "numpy.einsum is represented by an exact stand-in that follows its rules for explicit outputs"]

REG = {
    "ov": [("o", "fermion", "occupied", list("ijklmn")), ("v", "fermion", "unoccupied", list("abcdef"))],
    "few": [("o", "fermion", "occupied", ["i"]), ("v", "fermion", "unoccupied", [])],
    "odd": [("o", "fermion", "occupied", ["i1", "Z", "o_{3}", "v_{1}"]), ("v", "fermion", "unoccupied", ["a'"])],
    "sym": [("o", "fermion", "occupied", ["1", "Y", "X"]), ("v", "fermion", "unoccupied", ["\\mu", "W", "b"])],
    "case": [("o", "fermion", "occupied", list("iIjJkK")), ("v", "fermion", "unoccupied", list("AaBbZz"))],
    "alias": [("o", "fermion", "occupied", ["a", "v_{0}"]), ("v", "boson", "unoccupied", [])],
}
DIM = {"o": 2, "v": 3}
LABELS = ["A", "T2", "lambda4"]


def setup(w, reg):
    w.reset_space()
    for s in REG[reg]:
        w.add_space(*s)


def equation(w, lhs, rhs, c):
    """lhs: (label, ups, los); rhs: list of those"""
    ix = lambda l: [w.Index("ov".index(s), n) for s, n in l]
    mk = lambda t: w.Tensor(t[0], ix(t[2]), ix(t[1]), w.sym.anti)
    L, R = w.SymbolicTerm(), w.SymbolicTerm()
    L.add(mk(lhs))
    for t in rhs:
        R.add(mk(t))
    return w.Equation(L, R, w.make_rational(str(c)))


def direct(lhs, rhs, blocks):
    """the contraction denoted by the equation, None when an output index is missing on the right or repeated"""
    out = list(lhs[1]) + list(lhs[2])
    fac = [(list(t[1]) + list(t[2]), blocks[t[0]]["".join(i[0] for i in t[1] + t[2])]) for t in rhs]
    dim = {i: DIM[i[0]] for s, _ in fac for i in s}
    if len(set(out)) < len(out) or any(i not in dim for i in out):
        return None
    return E.contract(fac, out, dim)


def evaluate(kind, code, lhs, rhs, blocks, c):
    """run the code on an output array that already holds values -> contribution added to it"""
    name = lhs[0] + "".join(i[0] for i in lhs[1] + lhs[2])
    shape = [DIM[i[0]] for i in lhs[1] + lhs[2]]
    start = E.random_array("start", shape)
    a = E.Arr(shape, dict(start.data))
    if kind == "einsum":
        env = {t[0]: blocks[t[0]] for t in rhs}
        if name in env:
            raise E.CodeError("the output %s is also the name of a tensor" % name)
        env[name] = a
        E.run_python(code, env)
        if set(env) - set(blocks) - {name}:
            raise E.CodeError("the code assigns to %s" % (set(env) - set(blocks) - {name}))
        a = env[name]
        for t in rhs:
            if set(blocks[t[0]]) - {"".join(i[0] for i in x[1] + x[2]) for x in rhs if x[0] == t[0]}:
                raise E.CodeError("the code uses blocks %s of %s" % (list(blocks[t[0]]), t[0]))
        got = a.data
    else:
        m = re.match(r"^([A-Za-z]\w*)(?:\[([^\]]*)\])? \+= (-?\d+\.\d+)((?: \* [A-Za-z]\w*(?:\[[^\]]*\])?)*);$", code)
        if not m:
            raise E.CodeError("not an ambit statement")
        sp = lambda s: [x for x in (s or "").split(",") if x]
        fac = [(l, sp(s)) for l, s in re.findall(r" \* ([A-Za-z]\w*)(?:\[([^\]]*)\])?", m.group(4))]
        if m.group(1) != lhs[0]:
            raise E.CodeError("the output is %s" % m.group(1))
        out = sp(m.group(2))
        if [i[0] for i in out] != [i[0] for i in lhs[1] + lhs[2]]:
            raise E.CodeError("the output indices are %s" % out)
        f = []
        for l, s in fac:
            if l not in blocks:
                raise E.CodeError("unknown tensor %s" % l)
            f.append((s, blocks[l]["".join(i[0] for i in s)]))
        dim = {i: DIM[i[0]] for s, _ in f for i in s}
        if any(i not in dim for i in out) or len(set(out)) < len(out):
            raise E.CodeError("output indices")
        got = {k: v for k, v in start.data.items()}
        for k, v in E.contract(f, out, dim).items():
            got[k] = got.get(k, F(0)) + F(m.group(3)) * v
    return {k: got.get(k, 0) - start.data.get(k, 0) for k in set(got) | set(start.data) if got.get(k, 0) - start.data.get(k, 0)}


def check(w, lhs, rhs, c):
    q = equation(w, lhs, rhs, c)
    text = str(q)
    c = F(c)
    for kind, prec in (("einsum", F(1, 2 * 10 ** 9)), ("ambit", F(1, 2 * 10 ** 6))):
        blocks = {t[0]: E.Block(t[0], DIM) for t in rhs}
        want = direct(lhs, rhs, blocks)
        nind = len({i for t in rhs for i in t[1] + t[2]} | set(lhs[1] + lhs[2]))
        try:
            code = q.compile(kind)
        except Exception as e:
            if want is None or not rhs or (kind == "einsum" and nind > 52):
                continue
            return "compiling %s to %s is refused: %s" % (text, kind, e)
        try:
            got = evaluate(kind, code, lhs, rhs, blocks, c)
        except E.CodeError as e:
            if want is None and rhs:
                # the statement cannot be executed: an error, not a wrong value
                continue
            return "the %s code of %s is\n%s\nwhich cannot be executed: %s" % (kind, text, code, e)
        if want is None:
            return "the %s code of %s\n%s\nis executable although the equation is not a contraction" % (kind, text, code)
        tol = prec + abs(c) * F(1, 2 ** 50)
        for k in set(got) | set(want):
            x = want.get(k, F(0))
            if abs(got.get(k, F(0)) - c * x) > tol * abs(x):
                return "the %s code of %s is\n%s\nwhich gives element %s = %s instead of %s" % (kind, text, code, k, got.get(k, 0), c * x)
        if kind == "einsum":
            m = letters(code, lhs, rhs)
            if m:
                return "the einsum code of %s is\n%s\n%s" % (text, code, m)
    if str(q) != text:
        return "compiling changed the equation %s" % text
    for fmt in ("", "numpy", "Einsum", "ambit ", "einsum2"):
        try:
            r = q.compile(fmt)
        except Exception:
            continue
        return "the format %r is accepted: %s" % (fmt, r)
    return None


def letters(code, lhs, rhs):
    m = re.search(r"""['"]([A-Za-z,]*)->([A-Za-z]*)['"]""", code)
    if not m:
        return "no subscripts found"
    ls = list(m.group(1).replace(",", "") + m.group(2))
    ix = [i for t in rhs for i in t[1] + t[2]] + list(lhs[1] + lhs[2])
    if len(ls) != len(ix):
        return "%d letters for %d indices" % (len(ls), len(ix))
    if len(set(zip(ls, ix))) != len(set(ls)) or len(set(ls)) != len(set(ix)):
        return "letters and indices do not correspond one to one"
    return None


def refusals(w):
    """equations that have no code"""
    A = ("A", (("o", 0),), (("v", 0),))
    S = w.SymbolicTerm
    o, v = w.Index(0, 0), w.Index(1, 0)
    mk = lambda *ts: [w.Tensor(l, [v], [o], w.sym.anti) for l in ts]
    op = [w.SQOperator(w.type.cre, v), w.SQOperator(w.type.ann, o)]

    def term(ts, ops=()):
        s = S()
        for t in ts:
            s.add(t)
        if ops:
            s.add(list(ops))
        return s
    R, X, Y = mk("R", "X", "Y")
    n = 0
    for what, l, r in (("no tensor on the left", term([]), term([X])), ("two tensors on the left", term([R, X]), term([Y])), ("operators on the right", term([R]), term([X], op)),
                       ("operators on the left", term([R], op), term([X])), ("operators on both sides", term([R], op), term([X], op)), ("operators only on the left", term([], op), term([X]))):
        q = w.Equation(l, r, w.rational(1, 2))
        for kind in ("einsum", "ambit"):
            n += 1
            try:
                code = q.compile(kind)
            except Exception:
                continue
            return "an equation with %s is compiled to %s: %s" % (what, kind, code), n
    return None, n


def scalars(w, c, up, lo):
    """no tensor on the right: refused, or a statement that adds the number"""
    R = ("R", up, lo)
    q = equation(w, R, [], c)
    for kind in ("einsum", "ambit"):
        try:
            code = q.compile(kind)
        except Exception:
            continue
        m = re.match(r"^R(?:\[[^\]]*\])? \+= (-?\d+\.\d+);$", code)
        if not m or up + lo or abs(F(m.group(1)) - F(c)) > F(1, 10 ** 6) + abs(F(c)) * F(1, 2 ** 50):
            return "%s is compiled to %s: %s" % (q, kind, code)
    return None


COEF = ["1", "-1", "1/2", "-1/3", "7/12", "-25/4", "3", "1000000/7", "-1/1000", "123456789"]
LARGE = ["1/3628800", "-10000000000001/3", "999999999/1000000000", "1/2000000001", "0"]
NAMES = [("o", 0), ("v", 0), ("o", 1), ("v", 1), ("o", 2), ("v", 2), ("o", 3), ("o", 7), ("v", 12)]


def patterns(n):
    """index patterns of n slots: every way of coinciding and every assignment of spaces"""
    for p in C.set_partitions(n):
        k = max(p) + 1 if p else 0
        for sp in itertools.product("ov", repeat=k):
            yield [(s, sum(x == s for x in sp[:j])) for j, s in enumerate(sp)], p


def shapes(n, maxt):
    """numbers of (upper, lower) of tensors with n slots in total; rank-0 tensors included"""
    out = []

    def rec(left, acc):
        if left == 0 and acc:
            out.append(tuple(acc))
        if len(acc) == maxt:
            return
        for k in range(0 if len(acc) < 2 and not any(a == (0, 0) for a in acc) else 1, left + 1):
            for u in range(k + 1):
                rec(left - k, acc + [(u, k - u)])
    rec(n, [])
    return sorted(set(out))


def gen_patterns(tier):
    """(lhs, rhs, coefficient number)"""
    top = 6 if tier == "thorough" else 5
    k = 0
    for n in range(0, top + 1):
        for nl in range(0, min(n, 3) + 1):
            sh = shapes(n - nl, 3)
            if n >= 5:
                sh = [s for s in sh if all(a for a in map(sum, s)) and (len(s) < 3 or len(s) == 3 and n < 6)]
            if n >= 4:
                sh = sh[::2 if n == 4 else 7 if tier == "quick" else 3]
            for s in sh:
                for ul in range(nl + 1):
                    for pool, p in patterns(n):
                        k += 1
                        slots = [pool[j] for j in p]
                        # output slots first
                        lhs = ("R", tuple(slots[:ul]), tuple(slots[ul:nl]))
                        rest, rhs, labs = slots[nl:], [], []
                        for j, (u, d) in enumerate(s):
                            rhs.append((LABELS[j if k % 3 else 0], tuple(rest[:u]), tuple(rest[u:u + d])))
                            rest = rest[u + d:]
                        yield k, lhs, rhs


def big_cases():
    """many indices: letters run out"""
    for n in (8, 9, 25, 26, 27, 51, 52, 53, 60):
        for sp in ("o", "ov"):
            ix = [(sp[j % len(sp)], j) for j in range(n)]
            for nl in (0, 2, n):
                yield ("R", tuple(ix[:nl]), ()), [("A", tuple(ix[:n // 2]), tuple(ix[n // 2:])), ("T2", tuple(ix[:1]), ())]


def networks(top):
    """equations with many tensors: the operators of a large term become the indices of the left-hand side"""
    for j, t in enumerate(T.big_terms("ov", top)):
        ts, ops, _ = t
        if not ts:
            continue
        if j % 3 == 1:   # few labels
            ts = [(LABELS[k % 2], u, d) for k, (_, u, d) in enumerate(ts)]
        yield ("R", tuple(i for c, i in ops if not c), tuple(i for c, i in ops if c)), list(ts)


def network(w, lhs, rhs, c, fn):
    """executed with dimensions 2 and 3 when there are few indices, and with dimension 1 (every block is one number)
    otherwise, where the letters carry the structure"""
    n = len({i for t in rhs for i in t[1] + t[2]})
    old = dict(DIM)
    try:
        if n > 7:
            DIM.update(o=1, v=1)
        return fn(w, lhs, rhs, c)
    finally:
        DIM.update(old)


def jobs(tier):
    out = [["net", i, 8, 12 if tier == "thorough" else 8] for i in range(8)]
    for reg in ("ov", "few", "odd", "sym", "alias", "case"):
        m = 48 if reg == "ov" else 8
        out += [["pat", reg, i, m, tier] for i in range(m)]
    out += [["coef"], ["big"], ["ref"]]
    out += [["con", i, 8] for i in range(8)]
    return out


def contraction_pool():
    import c18
    return [p for p in c18.PRODUCTS if p[0] in ("ov",)]


def big_structure(w, lhs, rhs):
    """too many indices to execute: letters must be one to one, or the equation refused when more than 52 are needed"""
    q = equation(w, lhs, rhs, "1/2")
    n = len({i for t in rhs for i in t[1] + t[2]} | set(lhs[1] + lhs[2]))
    try:
        code = q.compile("einsum")
    except Exception as e:
        return None if n > 52 else "compiling an equation with %d indices is refused: %s" % (n, e)
    if n > 52:
        return "an equation with %d indices is compiled: %s" % (n, code)
    return letters(code, lhs, rhs)


def gen(job):
    k = job[0]
    if k == "pat":
        reg, i, n, tier = job[1:]
        stride = 1 if reg == "ov" else 4
        for j, lhs, rhs in gen_patterns(tier if reg == "ov" else "quick"):
            if j // stride % n == i and j % stride == (0 if stride == 1 else j // (7 * stride) % stride):
                yield ["q", reg, lhs, rhs, COEF[j % len(COEF)]]
    elif k == "coef":
        for c in COEF + LARGE:
            for lhs, rhs in ((("R", (), ()), [("A", (), ())]), (("R", (("o", 0),), (("v", 0),)), [("A", (("o", 0),), (("v", 0),))])):
                yield ["q", "ov", lhs, rhs, c]
            yield ["s", "ov", c, (), ()]
            yield ["s", "ov", c, (("o", 0),), ()]
    elif k == "net":
        for j, (lhs, rhs) in enumerate(networks(job[3])):
            if j % job[2] == job[1]:
                yield ["n", lhs, rhs, COEF[j % len(COEF)]]
    elif k == "big":
        for reg in REG:
            for lhs, rhs in big_cases():
                yield ["b", reg, lhs, rhs]
    elif k == "ref":
        yield ["r"]
    else:
        for n, (cfg, ops) in enumerate(contraction_pool()):
            for hi in range(0, 7):
                if (n + hi) % job[2] == job[1]:
                    yield ["c", n, hi]


def tup(t):
    return (t[0], tuple(tuple(i) for i in t[1]), tuple(tuple(i) for i in t[2]))


def from_eq(q):
    t = lambda x: (x.label(), tuple((str(i)[0], i.pos()) for i in x.upper()), tuple((str(i)[0], i.pos()) for i in x.lower()))
    f = q.rhs_factor()
    return t(q.lhs().tensors()[0]), [t(x) for x in q.rhs().tensors()], "%d/%d" % (f.numerator(), f.denominator())


def dispatch(w, case, fn=None):
    """-> (message, equations)"""
    fn = fn or check
    k = case[0]
    if k == "q":
        setup(w, case[1])
        return fn(w, tup(case[2]), [tup(t) for t in case[3]], case[4]), 1
    if k == "s":
        setup(w, case[1])
        return scalars(w, case[2], tuple(tuple(i) for i in case[3]), tuple(tuple(i) for i in case[4])), 1
    if k == "b":
        setup(w, case[1])
        return big_structure(w, tup(case[2]), [tup(t) for t in case[3]]), 1
    if k == "n":
        setup(w, "ov")
        return network(w, tup(case[1]), [tup(t) for t in case[2]], case[3], fn), 1
    if k == "r":
        setup(w, "ov")
        return refusals(w)
    cfg, ops = contraction_pool()[case[1]]
    C.spaces(w, cfg)
    e = C.engine(w).contract(C.make_product(w, C.labels(cfg), ops), 0, case[2])
    n = 0
    for key, eqs in e.to_manybody_equations("R").items():
        for q in eqs:
            n += 1
            if not q.rhs().tensors():
                continue
            m = fn(w, *from_eq(q))
            if m:
                return m, n
    return None, n


def run(job, a):
    import wicked as w
    for case in gen(job):
        vc.crumb(json.dumps(case))
        m, n = dispatch(w, case)
        a.states += n
        a.transitions += 2 * n
        a.validated += 2 * n
        if case[0] == "q" and len(case[3]) > 1:
            a.sample(json.dumps(case))
        if m:
            a.bad(case, m)


def replay(case):
    import wicked as w
    return dispatch(w, case)[0]
