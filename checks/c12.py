"""C12: the adjoint is an involutive, order-reversing, linear map."""
import itertools, json, re
from fractions import Fraction as F
import algmodel as M
import common as C
import terms as T
import c08, c11, ref, vc

ID = "C12"
LEVEL = "model_checking"
TECHNIQUE = "bounded exhaustive enumeration of expressions and operator products on the real code against exact algebraic models"
RULE = ("all terms with up to N index slots over fermionic, bosonic and mixed spaces, labelled normal ordered or not, and all operator products of up to three factors are conjugated: the "
        "result is compared with the model (operators reversed and exchanged, tensors and coefficients unchanged), conjugated again, and linearity and the "
        "reversal of products are checked on all pairs; for operator products the contraction of the adjoint is compared with the adjoint of the contraction in every rank window")
ASSUME = ["terms and products up to the bounds of the evidence", "complex conjugation of tensors is not part of the printed form"]


def norm(m):
    """tensors commute"""
    r = {}
    for (t, o, f), v in m.items():
        M.add(r, (tuple(sorted(t)), o, f and bool(o)), v)
    return r


# ---------------------------------------------------------------- expressions
def term_blocks(tier):
    th = tier == "thorough"
    out = []
    for cfg in ("ov", "fb"):
        for n in range(0, 6 if th else 5):
            for sh in T.shapes(n, "AS" if n < 4 else "AN", 2, 5):
                if sh[1] or n < 3:
                    out.append((cfg, sh, 4 if n < 4 or th else 3))
    return out


def all_terms(b):
    cfg, sh, p = b
    sh = (tuple(tuple(x) for x in sh[0]), tuple(sh[1]))
    for sl in itertools.product(c08.POOL[cfg][:p] if p < 4 or cfg == "g" else c08.POOL[cfg], repeat=T.nslots(sh)):
        t = T.fill(sh, sl)
        yield t
        if t[1]:
            yield t[0], t[1], False


def check_expr(w, e, m):
    before = str(e)
    r = e.adjoint()
    if str(e) != before:
        return "adjoint modified its object:\n%s\nbecame\n%s" % (before, e)
    got = M.parse_e(r)
    if norm(got) != norm(M.eadj(m)):
        return "adjoint of\n%s\nis\n%s" % (before, r)
    rr = r.adjoint()
    if str(rr) != before or not (rr == e):
        return "the double adjoint of\n%s\nis\n%s" % (before, rr)
    return None


def run_terms(blks, a):
    cur = None
    for b in blks:
        if b[0] != cur:
            cur = b[0]
            w, B = c08.builder(cur)
        R = w.rational
        for k, t in enumerate(all_terms(b)):
            case = ["t", cur, t]
            vc.crumb(json.dumps(case))
            m = one_term(w, B, t, k)
            a.states += 1
            a.transitions += 2
            a.validated += 2
            if m:
                a.bad(case + [k], m)
            if k % 50 == 0:
                a.sample("adjoint of %s" % T.text(t))


CO = [F(1), F(-1), F(2, 3), F(-7, 2), F(1, 10 ** 30)]


def one_term(w, B, t, k):
    c = CO[k % 5]
    e = B.expr([(t, w.make_rational("%d/%d" % (c.numerator, c.denominator)))])
    return check_expr(w, e, M.parse_e(e))


def run_pairs(cfg, i, n, a):
    w, B = c08.builder(cfg)
    bs = c08.basis(cfg)
    bs = [x if k % 2 else (x[0], x[1], False) for k, x in enumerate(bs)]
    prs = list(itertools.product(range(len(bs)), repeat=2))
    for k in range(i, len(prs), n):
        x, y = prs[k]
        case = ["p", cfg, x, y, k]
        vc.crumb(json.dumps(case))
        m = pairs(w, B, bs, x, y, k)
        a.states += 1
        a.transitions += 6
        a.validated += 6
        if m:
            a.bad(case, m)


def pairs(w, B, bs, x, y, k):
    c, d = CO[k % 5], CO[(k // 5) % 5]
    q = lambda f: w.make_rational("%d/%d" % (f.numerator, f.denominator))
    a, b = B.expr([(bs[x], q(c))]), B.expr([(bs[y], q(d))])
    s = a + b
    m = check_expr(w, s, M.parse_e(s))
    if m:
        return m
    if not (s.adjoint() == a.adjoint() + b.adjoint()):
        return "the adjoint of the sum of %s and %s is %s" % (a, b, s.adjoint())
    r = a * q(F(-5, 3))
    if not (r.adjoint() == a.adjoint() * q(F(-5, 3))):
        return "the adjoint of a multiple of %s is %s" % (a, r.adjoint())
    if (bs[x][2] and bs[x][1]) or (bs[y][2] and bs[y][1]):
        return None
    try:
        p = a @ b
    except Exception:
        return None
    m = check_expr(w, p, M.parse_e(p))
    if m:
        return m
    z = b.adjoint() @ a.adjoint()
    if norm(M.parse_e(p.adjoint())) != norm(M.parse_e(z)):
        return "the adjoint of the product of %s and %s is %s instead of %s" % (a, b, p.adjoint(), z)
    return None


# ---------------------------------------------------------------- operator expressions
def oadj(labs, m):
    """model: words reversed, creation and annihilation components exchanged"""
    def f(word):
        l, s = word
        cre = tuple(s.count(x + "+") for x in labs)
        ann = tuple(s.count(x) for x in labs)
        return (l, tuple(C.comp_str(labs, ann, cre).split()))
    return {tuple(f(x) for x in reversed(k)): v for k, v in m.items()}


def universe(tier):
    th = tier == "thorough"
    out = []
    for cfg, nmax, tot in (("ov", 4, 8 if th else 6), ("g", 4, 8 if th else 6), ("cav", 2, 5 if th else 4), ("og", 3, 6 if th else 5), ("ovx", 2, 4)):
        U = C.comps_upto(len(C.CFG[cfg]), nmax)
        out += [(cfg, [("A",) + x]) for x in U]
        for i, x in enumerate(U):
            for j, y in enumerate(U):
                n = C.nlines(x) + C.nlines(y)
                if n <= tot:
                    out.append((cfg, [("A",) + x, (("A", "B")[(i + j) % 2],) + y]))
    # single operators with more legs, also over as many spaces as possible
    for cfg, lo, hi in (("cav", 3, 8 if th else 6), ("ovx", 3, 6 if th else 5), ("gg4", 1, 6 if th else 4), ("mix8", 1, 5 if th else 4), ("ou8", 1, 4 if th else 3)):
        for k in range(lo, hi + 1):
            out += [(cfg, [("A",) + tuple(x)]) for x in C.all_comps(len(C.CFG[cfg]), k)]
    for cfg in ("mix8", "ou8"):
        U = C.comps_upto(8, 1)
        out += [(cfg, [("A",) + tuple(x), ("B",) + tuple(y)]) for x in U for y in U]
    one = [((1, 0), (0, 1)), ((0, 1), (1, 0)), ((1, 0), (1, 0)), ((0, 1), (0, 1)), ((1, 1), (1, 1)), ((0, 1), (0, 0)), ((0, 0), (1, 0)), ((2, 0), (0, 2)), ((0, 2), (2, 0))]
    for k, q in enumerate(itertools.product(one, repeat=3)):
        if sum(map(C.nlines, q)) <= (10 if th else 8):
            out.append(("ov", [("ABA"[i],) + q[i] for i in range(3)]))
    g = [((1,), (1,)), ((1,), (0,)), ((0,), (1,)), ((2,), (1,))]
    for q in itertools.product(g, repeat=3):
        if sum(map(C.nlines, q)) <= 6:
            out.append(("g", [("ABC"[i],) + q[i] for i in range(3)]))
    return out


SW = re.compile(r"([A-Za-z0-9]+)\^\{([^}]*)\}_\{([^}]*)\}")


OPTOK = re.compile(r"^[ab][+-]\(.*\)$")


def text_adjoint(txt):
    out = []
    for l in txt.split("\n"):
        if not l:
            continue
        l = SW.sub(lambda m: "%s^{%s}_{%s}" % (m.group(1), m.group(3), m.group(2)), l)
        t = l.split(" ")
        at = [i for i, x in enumerate(t) if OPTOK.match(x)]
        for i, x in zip(at, [M.flip(t[i]) for i in reversed(at)]):
            t[i] = x
        l = " ".join(t)
        out.append(l)
    return "\n".join(out)


def check_op(w, cfg, ops, windows=True):
    labs = C.labels(cfg)
    P = C.make_product(w, labs, ops)
    before = str(P)
    m = M.parse_o(P)
    A = P.adjoint()
    n = 2
    if str(P) != before:
        return "adjoint modified its object %s" % before, n
    if M.parse_o(A) != oadj(labs, m):
        return "adjoint of\n%s\nis\n%s" % (before, A), n
    if str(A.adjoint()) != before or not (A.adjoint() == P):
        return "the double adjoint of\n%s\nis\n%s" % (before, A.adjoint()), n
    if len(ops) < 2:
        return None, n
    tot = sum(C.nlines(o[1:]) for o in ops)
    for lo, hi in ((0, tot), (0, 0), (2, tot)) if windows else ((0, tot),):
        e = C.engine(w, (tot + lo) % 2 == 0)
        x, y = str(e.contract(P, lo, hi)), str(e.contract(A, lo, hi))
        n += 2
        if x or y:
            d = ref.diff(text_adjoint(x), y)
            if d:
                return "window [%d,%d]: the contraction of the adjoint of\n%s\nis\n%s\nbut the contraction is\n%s\n(%s)" % (lo, hi, before, y, x, d), n
    return None, n


def run_ops(job, a):
    import wicked as w
    cur = None
    for cfg, ops in job:
        if cfg != cur:
            C.spaces(w, cfg)
            cur = cfg
        case = ["o", cfg, ops]
        vc.crumb(json.dumps(case))
        msg, n = check_op(w, cfg, ops)
        a.states += 1
        a.transitions += n
        a.validated += n
        if msg:
            a.bad(case, msg)


def run_opair(i, n, a):
    """sums, differences, multiples and products of operator expressions"""
    import wicked as w
    C.spaces(w, "ov")
    l0, l1 = c11.pools(w, "O", "quick")
    prs = list(itertools.product(range(len(l1)), repeat=2))
    for k in range(i, len(prs), n):
        x, y = prs[k]
        case = ["q", x, y]
        vc.crumb(json.dumps(case))
        m = opair(w, l1, x, y)
        a.states += 1
        a.transitions += 6
        a.validated += 6
        if m:
            a.bad(case, m)


def opair(w, l1, x, y):
    (a, ma), (b, mb) = l1[x], l1[y]
    for e, m in ((a + b, M.lin((1, ma), (1, mb))), (a - b, M.lin((1, ma), (-1, mb))), (a @ b, M.omul(ma, mb))):
        r = e.adjoint()
        if M.parse_o(r) != oadj("ov", m):
            return "adjoint of\n%s\nis\n%s" % (e, r)
        if not (r.adjoint() == e):
            return "the double adjoint of\n%s\nis\n%s" % (e, r.adjoint())
    if not ((a @ b).adjoint() == b.adjoint() @ a.adjoint()):
        return "the adjoint of the product of\n%s\nand\n%s\nis not the reversed product of the adjoints" % (a, b)
    return None


def jobs(tier):
    b = term_blocks(tier)
    b.sort(key=lambda x: (x[0], -T.nslots(x[1])))
    u = universe(tier)
    u.sort(key=lambda x: -sum(C.nlines(o[1:]) for o in x[1]))
    return ([["o", x] for x in C.chunks(u, 200)] + [["t", x] for x in C.chunks(b, 100)] + [["p", cfg, i, 12] for cfg in ("ov", "fb") for i in range(12)] +
            [["q", i, 12] for i in range(12)] + [["large", cfg, 12 if tier == "thorough" else 8, i, 6] for cfg in ("ov", "g") for i in range(6)])


def run(job, a):
    if job[0] == "t":
        run_terms(job[1], a)
    elif job[0] == "large":
        w, B = c08.builder(job[1])
        for k, t in enumerate(T.big_terms(C.labels(job[1]), job[2])):
            if k % job[4] == job[3]:
                t = (t[0], t[1], t[2] and bool(k % 2))
                case = ["t", job[1], t, k]
                vc.crumb(json.dumps(case))
                m = one_term(w, B, t, k)
                a.states += 1
                a.transitions += 2
                a.validated += 2
                a.count("large terms")
                if m:
                    a.bad(case, m)
    elif job[0] == "p":
        run_pairs(*job[1:], a)
    elif job[0] == "o":
        run_ops(job[1], a)
    else:
        run_opair(*job[1:], a)


def replay(case):
    import wicked as w
    if case[0] == "t":
        w, B = c08.builder(case[1])
        return one_term(w, B, c08.unj(case[2]), case[3] if len(case) > 3 else 0)
    if case[0] == "p":
        w, B = c08.builder(case[1])
        bs = [x if k % 2 else (x[0], x[1], False) for k, x in enumerate(c08.basis(case[1]))]
        return pairs(w, B, bs, *case[2:])
    if case[0] == "o":
        C.spaces(w, case[1])
        return check_op(w, case[1], [(o[0], tuple(o[1]), tuple(o[2])) for o in case[2]])[0]
    C.spaces(w, "ov")
    return opair(w, c11.pools(w, "O", "quick")[1], case[1], case[2])
