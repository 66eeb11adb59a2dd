"""C18: many-body equations are a lossless partition of an expression."""
import itertools, json
from fractions import Fraction as F
import algmodel as M
import common as C
import terms as T
import vc

ID = "C18"
LEVEL = "model_checking"
TECHNIQUE = "bounded exhaustive enumeration of expressions on the real code against a model of the partition, with the expression rebuilt from the equations"
RULE = ("every term shape with every pattern of indices and every order of operators up to the slot bound, sums of up to three terms, and the contractions of a pool of operator products in every window "
        "are split into many-body equations; keys, left-hand-side tensors, right-hand-side tensors and factors are compared with the model and the expression is rebuilt from the equations")
ASSUME = ["slot bounds as in the evidence; operators that are not in creation-then-annihilation order carry the sign of their normal-ordered rearrangement"]
CFG = "ovb"
ORDER = "ovB"


def sign(ops):
    """moving the creation operators of a normal-ordered product to the left"""
    s = 1
    for i in range(len(ops)):
        for j in range(i):
            if ops[i][0] and not ops[j][0] and ops[i][1][0] != "B" and ops[j][1][0] != "B":
                s = -s
    return s


def model(terms, label):
    """{key: sorted list of (lhs tensor text, rhs tensors texts, factor)}"""
    out = {}
    for (ts, ops, flag), c in terms.items():
        low = [i for cre, i in ops if cre]
        up = [i for cre, i in ops if not cre][::-1]
        key = "".join(s * sum(i[0] == s for i in up) for s in ORDER) + "|" + "".join(s * sum(i[0] == s for i in low) for s in ORDER)[::-1]
        out.setdefault(key, []).append((T.tstr((label, tuple(up), tuple(low))), tuple(T.tstr(t) for t in ts), c * sign(ops)))
    return {k: sorted(v) for k, v in out.items()}


def observed(w, d, e):
    """-> (same structure, message)"""
    out = {}
    for k, eqs in d.items():
        out[k] = []
        for q in eqs:
            l, r = q.lhs(), q.rhs()
            if len(l.tensors()) != 1 or len(l.ops()) or len(r.ops()):
                return None, "the equation %s does not have one tensor on the left or has operators" % q
            f = q.rhs_factor()
            f = F(int(f.numerator()), int(f.denominator()))
            lt = str(l.tensors()[0])
            rt = tuple(str(t) for t in r.tensors())
            if str(q).replace(" ", "") != (lt + "+=" + ("" if f == 1 and rt else "-" if f == -1 and rt else str(f)) + "".join(rt)):
                return None, "the equation with %s, %s, %s prints as %s" % (lt, f, rt, q)
            x = w.Expression()
            x += (r, q.rhs_factor())
            if not (q.rhs_expression() == x):
                return None, "rhs_expression of %s is %s" % (q, q.rhs_expression())
            out[k].append((lt, rt, f))
        out[k].sort()
    return out, None


def rebuild(w, d):
    """sum over all equations of the right-hand side times the operators of the left-hand side"""
    e = w.Expression()
    for eqs in d.values():
        for q in eqs:
            t = q.lhs().tensors()[0]
            s = w.SymbolicTerm()
            for x in q.rhs().tensors():
                s.add(x)
            for i in t.lower():
                s.add(w.SQOperator(w.type.cre, i)) if False else s.add([w.SQOperator(w.type.cre, i)])
            for i in reversed(t.upper()):
                s.add([w.SQOperator(w.type.ann, i)])
            e += (s, q.rhs_factor())
    return e


def check(w, b, terms, label):
    e = b.expr([(t, w.make_rational(str(c))) for t, c in terms.items()])
    before = str(e)
    if len(e) != len(terms):
        return "%d terms instead of %d in\n%s" % (len(e), len(terms), before)
    d = e.to_manybody_equations(label)
    if str(e) != before:
        return "splitting changed the expression\n%s" % before
    got, msg = observed(w, d, e)
    if msg:
        return "splitting\n%s\n%s" % (before, msg)
    want = model(terms, label)
    if got != want:
        return "splitting\n%s\ngives\n%s\ninstead of\n%s" % (before, got, want)
    # rebuilt expression, with the operators in creation-then-annihilation order
    plain = {}
    for (ts, ops, flag), c in terms.items():
        o = tuple(x for x in ops if x[0]) + tuple(x for x in ops if not x[0])
        M.add(plain, (ts, o, False), c * sign(ops))
    x = b.expr([(t, w.make_rational(str(c))) for t, c in plain.items()])
    r = rebuild(w, d)
    if not (r == x):
        return "the equations of\n%s\nsum to\n%s\ninstead of\n%s" % (before, r, x)
    d2 = e.to_manybody_equation(label)
    if {k: [str(q) for q in v] for k, v in d2.items()} != {k: [str(q) for q in v] for k, v in d.items()}:
        return "to_manybody_equation and to_manybody_equations differ on\n%s" % before
    return None


PRODUCTS = [("ov", [("F", (1, 1), (1, 1))]), ("ov", [("V", (0, 2), (2, 0)), ("T", (2, 0), (0, 2))]), ("ov", [("V", (1, 1), (1, 1)), ("T", (0, 1), (1, 0))]),
            ("ov", [("V", (2, 0), (0, 2)), ("T", (0, 1), (1, 0)), ("T", (0, 1), (1, 0))]), ("ov", [("a", (0, 1), (0, 0)), ("b", (1, 0), (0, 1))]),
            ("cav", [("V", (0, 1, 1), (1, 1, 0)), ("T", (0, 1, 0), (1, 0, 0))]), ("cav", [("H", (1, 1, 0), (0, 1, 1)), ("T", (0, 0, 1), (0, 1, 0))]), ("g", [("A", (2,), (2,)), ("B", (1,), (1,))]),
            ("g", [("A", (2,), (1,)), ("B", (1,), (2,))]), ("vo", [("V", (1, 1), (1, 1)), ("T", (1, 0), (0, 1))])]


def check_contraction(w, n, lo, hi):
    cfg, ops = PRODUCTS[n]
    C.spaces(w, cfg)
    labs = C.labels(cfg)
    e = C.engine(w).contract(C.make_product(w, labs, ops), lo, hi)
    d = e.to_manybody_equations("R")
    r = rebuild(w, d)
    if not (r == e):
        return "the equations of the contraction\n%s\nsum to\n%s" % (e, r), len(e)
    if sum(len(v) for v in d.values()) != len(e):
        return "%d equations for %d terms" % (sum(len(v) for v in d.values()), len(e)), len(e)
    for k, eqs in d.items():
        for q in eqs:
            t = q.lhs().tensors()[0]
            up = sorted(labs.index(str(i)[0]) for i in t.upper())
            low = sorted(labs.index(str(i)[0]) for i in t.lower())
            if k != "".join(labs[i] for i in up) + "|" + "".join(labs[i] for i in reversed(low)) or t.label() != "R":
                return "the equation %s is stored under %r" % (q, k), len(e)
    return None, len(e)


COEF = [F(1), F(-2, 3), F(-1), F(5), F(10 ** 30, 7), F(-1, 10 ** 30)]
SLOTS = [("o", 0), ("o", 1), ("v", 0), ("B", 2)]


def families(tier):
    th = tier == "thorough"
    out = [(0, ["A"], 0, 0), (1, ["A", "S"], 1, 1), (2, ["A", "S"], 2, 2), (3, ["A"], 2, 3), (4, [], 0, 4)]
    if th:
        out += [(4, ["A"], 1, 4), (5, [], 0, 5)]
    return out


def jobs(tier):
    out = []
    for k, (n, labs, mt, mo) in enumerate(families(tier)):
        tot = len(T.shapes(n, labs, mt, mo)) * len(SLOTS) ** n
        m = max(1, tot // 1500)
        out += [["term", n, labs, mt, mo, i, m] for i in range(m)]
    out += [["closed", i, 32, tier] for i in range(32)]
    out += [["sum", i, 24, tier] for i in range(24)]
    out += [["large", cfg, 12 if tier == "thorough" else 8, i, 6] for cfg in ("ov", "Bov") for i in range(6)] + [["wide", cfg, tier] for cfg in ("ov", "Bv", "o")]
    out += [["con", n] for n in range(len(PRODUCTS))]
    return out


def unj(terms):
    return {(tuple((l, tuple(map(tuple, u)), tuple(map(tuple, d))) for l, u, d in t[0]), tuple((c, tuple(i)) for c, i in t[1]), t[2]): F(c) for t, c in terms}


def gen(job):
    k = job[0]
    if k == "term":
        n, labs, mt, mo, i, m = job[1:]
        j = 0
        for sh in T.shapes(n, labs, mt, mo):
            for sl in itertools.product(SLOTS, repeat=n):
                j += 1
                if j % m == i:
                    t = T.fill(sh, sl)
                    yield {(t[0], t[1], bool(t[1]) and j % 3 != 0): COEF[j % 6]}, "R" if j % 2 else "Om3"
    elif k == "closed":
        i, n, tier = job[1:]
        j = 0
        shapes = T.BIG + [s for m in (4, 6) for s in T.shapes(m, ["A"], 2, 4) if T.nslots(s) == m]
        for sh in shapes:
            for t in T.closed(sh, "ov" if T.nslots(sh) > 6 else "ovB" if tier == "thorough" else "oB"):
                j += 1
                if j % n == i:
                    yield {(t[0], t[1], bool(t[1])): COEF[j % 6]}, "R"
    elif k == "large":
        for j, t in enumerate(T.big_terms(job[1], job[2])):
            if j % job[4] == job[3]:
                yield {(t[0], t[1], bool(t[1]) and j % 3 != 1): COEF[j % 6]}, "R"
                n = len(t[0])
                # the operators alone
                yield {((), t[1], False): COEF[(j + 1) % 6]}, "R"
    elif k == "wide":
        for s in T.wide(job[1], [10, 64, 130] if job[2] == "quick" else [10, 31, 64, 130, 257, 400], COEF):
            yield dict(s), "R"
    else:
        i, n, tier = job[1:]
        A = ("A", (("o", 0),), (("v", 0),))
        o = [(c, x) for c in (True, False) for x in (("o", 0), ("v", 0), ("o", 1))]
        pool = [(ts, ops, f) for ts in ((), (A,)) for k in (0, 1, 2) for ops in itertools.product(o, repeat=k) for f in ((False, True) if k == 2 and not ts else (False,))]
        j = 0
        for x, y in itertools.combinations(pool, 2):
            j += 1
            if j % n == i:
                yield {x: COEF[j % 6], y: COEF[j // 6 % 6]}, "R"
        for tr in itertools.combinations(pool[::3], 3):
            j += 1
            if j % n == i:
                yield {t: COEF[(j + 2 * q) % 6] for q, t in enumerate(tr)}, "R"


def builder(w):
    C.spaces(w, CFG)
    return T.Builder(w, ORDER, {"A": "A", "S": "S"})


def run(job, a):
    import wicked as w
    if job[0] == "con":
        legs = 9
        for lo in range(legs):
            for hi in range(lo, legs):
                case = ["con", job[1], lo, hi]
                vc.crumb(json.dumps(case))
                m, n = check_contraction(w, *case[1:])
                a.states += 1
                a.transitions += 1
                a.validated += n
                if m:
                    a.bad(case, m)
        return
    b = builder(w)
    if job[0] == "term" and job[1] == 0:
        if w.Expression().to_manybody_equations("R") != {}:
            a.bad(["t", [], "R"], "the empty expression has equations")
    for terms, label in gen(job):
        case = ["t", [[t, str(c)] for t, c in terms.items()], label]
        vc.crumb(json.dumps(case))
        m = check(w, b, terms, label)
        a.states += 1
        a.transitions += 1
        a.validated += len(terms)
        if len(terms) > 2:
            a.sample(json.dumps(case)[:400])
        if m:
            a.bad(case, m)


def replay(case):
    import wicked as w
    if case[0] == "con":
        return check_contraction(w, *case[1:])[0]
    return check(w, builder(w), unj(case[1]), case[2])
