"""C04: contraction is linear in the operator expression."""
import itertools, json, re
from fractions import Fraction as F
import common as C
import ref, vc

ID = "C04"
LEVEL = "model_checking"
RULE = ("every linear combination of one to four operator products drawn from a pool, with every choice of coefficients and overall factor from the "
        "stated grids, built in several ways (term by term with add2, sums, differences, products of sums), is contracted (whole and in four rank windows) by the real engine and "
        "compared with the same linear combination of the contractions of the individual products, formed outside the library with exact fractions")
ASSUME = ["the contractions of single products are decided by C01 and C02", "coefficient and factor grids as listed in DESIGN.md (from 1e-60 to 1e50)"]

COEF = [F(-2), F(-1), F(-1, 2), F(1, 3), F(1), F(5, 7)]
FAC = [F(1), F(-1), F(0), F(1, 2), F(3), F(-4, 9)]

POOL = {
    "ov": [[("A", "o+ v")], [("A", "v+ o"), ("B", "o+ v")], [("B", "o+ v"), ("A", "v+ o")], [("A", "o+ v"), ("B", "v+ o")], [("F", "o+ v"), ("T", "v+ o")],
           [("F", "v+ v"), ("T", "v+ o")], [("T", "v+ o"), ("F", "v+ v")], [("F", "o+ o"), ("T", "v+ o")], [("T", "v+ o"), ("T", "v+ o")],
           [("F", "o+ v"), ("T", "v+ o"), ("T", "v+ o")], [("V", "o+ o+ v v"), ("T", "v+ v+ o o")], [("V", "o+ o+ v v"), ("T", "v+ o"), ("T", "v+ o")],
           [("T", "v+ o"), ("F", "o+ v"), ("T", "v+ o")],
           [("F", "o+ v"), ("T", "v+ o"), ("U", "v+ o")], [("F", "o+ v"), ("U", "v+ o"), ("T", "v+ o")], [("G", "o+ v"), ("T", "v+ o"), ("T", "v+ o")], [("A", "o+"), ("A", "o")], [("A", "o"), ("A", "o+")], [("B", "v"), ("A", "v+")], [("A", "v+"), ("B", "v")]],
    "g": [[("A", "g+ g")], [("A", "g+ g"), ("B", "g+ g")], [("B", "g+ g"), ("A", "g+ g")], [("A", "g+"), ("B", "g")], [("B", "g"), ("A", "g+")],
          [("A", "g+ g"), ("A", "g+ g"), ("B", "g+ g")], [("A", "g+ g"), ("B", "g+ g"), ("C", "g+ g")],
          [("A", "g"), ("A", "g")], [("A", "g+ g"), ("A", "g+ g")], [("A", "g+ g+ g g"), ("B", "g+ g")], [("B", "g+ g"), ("A", "g+ g+ g g")]],
}


def jobs(tier):
    th = tier == "thorough"
    out = []
    for cfg, pool in POOL.items():
        n = len(pool)
        for i in range(n):
            out.append((cfg, (i,), None))
        for i, j in itertools.product(range(n), repeat=2):
            out.append((cfg, (i, j), None))
        trip = list(itertools.product(range(n), repeat=3)) if th else [t for t in itertools.combinations_with_replacement(range(n), 3)]
        for t in trip:
            out.append((cfg, t, "few" if not th else None))
        if th:
            for t in itertools.combinations_with_replacement(range(n), 4):
                out.append((cfg, t, "few"))
    # the distributive part: (sum) @ (sum)
    for cfg in POOL:
        for k in range(4):
            out.append((cfg, ("dist", k), None))
    return C.chunks(out, 160)


def R(w, f):
    return w.make_rational("%d/%d" % (f.numerator, f.denominator)) if f.denominator != 1 else w.make_rational(str(f.numerator))


def prod(w, p):
    r = None
    for lab, comp in p:
        o = w.op(lab, [comp])
        r = o if r is None else r @ o
    return r


def sp(f):
    return "%d/%d" % (f.numerator, f.denominator)


def lincomb(texts, coefs):
    """sum_i c_i x text_i as text; the reference reads repeated terms as a sum"""
    out = []
    for t, c in zip(texts, coefs):
        if c == 0:
            continue
        for l in t.split("\n"):
            if not l:
                continue
            body = l.lstrip("+-")
            sg = -1 if l.startswith("-") else 1
            num = re.match(r"(\d+(?:/\d+)?)?", body).group()
            v, rest = F(num or 1), body[len(num):].strip()
            v *= sg * c
            out.append("%s%d/%d %s" % ("+" if v > 0 else "-", abs(v.numerator), v.denominator, rest))
    return "\n".join(out)


_txt = {}


WIN = {3: (0, 0), 4: (2, 2), 5: (1, 3), 6: (1, 1)}   # values of how that ask for a rank window


def single(w, cfg, i, win=(0, 12)):
    k = (cfg, i, win)
    if k not in _txt:
        e = C.engine(w)
        _txt[k] = str(e.contract(prod(w, POOL[cfg][i]), *win))
    return _txt[k]


def one(w, cfg, idx, coefs, fac, how):
    P = [prod(w, POOL[cfg][i]) for i in idx]
    win = WIN.get(how, (0, 12))
    if how == 0 or how > 2:
        X = w.OperatorExpression()
        for p, c in zip(P, coefs):
            X.add2(p, R(w, c))
    elif how == 1:     # through sums and differences: coefficients +-1 only
        X = w.OperatorExpression()
        for p, c in zip(P, coefs):
            X = X + p if c > 0 else X - p
    else:              # reversed order of addition
        X = w.OperatorExpression()
        for p, c in reversed(list(zip(P, coefs))):
            X.add2(p, R(w, c))
    e = C.engine(w, True, how != 2)
    before = str(X)
    if fac == 1 and how == 1:
        got = str(e.contract(X, *win))
    else:
        got = str(e.contract(R(w, fac), X, *win))
    want = lincomb([single(w, cfg, i, win) for i in idx], [c * fac for c in coefs])
    msg = None
    if str(X) != before:
        msg = "contracting changed its argument: %s -> %s" % (before, X)
    d = ref.diff(got, want)
    if d:
        msg = "contract(%s, %s) over %s is not the linear combination of the contractions of its products:\n%s\nengine output:\n%s" % (
            fac, " + ".join("%s %s" % (c, POOL[cfg][i]) for c, i in zip(coefs, idx)), cfg, d, got)
    return msg, got


SUMS = [(["o+ v", "v+ o", "o+ o"], ["v+ o", "o+ v"]), (["v+ v", "o+ o"], ["v+ o"]), (["o+", "v"], ["o", "v+", "o+"]), (["v+ o", "v+ v+ o o"], ["o+ v", "o+ o+ v v"])]
SUMSG = [(["g+ g", "g+ g+ g g"], ["g+ g"]), (["g+", "g"], ["g", "g+"]), (["g+ g", "g+ g"], ["g+ g", "g"]), (["g+ g+", "g g"], ["g g", "g+ g+"])]


def dist(w, cfg, k):
    a, b = (SUMS if cfg == "ov" else SUMSG)[k]
    msgs, n = [], 0
    for la, lb in (("A", "B"), ("A", "A"), ("B", "A")):
        for ca, cb in ((F(1), F(1)), (F(-1, 2), F(2, 3))):
            X, Y = w.OperatorExpression(), w.OperatorExpression()
            X.add2(w.op(la, a), R(w, ca))
            Y.add2(w.op(lb, b), R(w, cb))
            e = C.engine(w)
            texts = [str(e.contract(w.op(la, [x]) @ w.op(lb, [y]), 0, 12)) for x in a for y in b]
            for f in FAC:
                got = str(e.contract(R(w, f), X @ Y, 0, 12))
                n += 1
                d = ref.diff(got, lincomb(texts, [ca * cb * f] * len(texts)))
                if d:
                    return "contract(%s, (%s %s) @ (%s %s)) over %s is not the sum over pairs of components:\n%s" % (f, ca, a, cb, b, cfg, d), n
    return None, n


TINY, HUGE = F(1, 10 ** 30), F(10 ** 25, 3)


def grids(n, few):
    """(coefs, factor, how)"""
    # very small and very large numbers, and numbers that differ very little
    for c in ((TINY, HUGE, TINY, F(1)), (HUGE, -TINY, F(1), HUGE), (F(1) + TINY, -F(1), TINY, -TINY), (F(1, 3 ** 45), F(1, 3 ** 45), -F(2, 3 ** 45), F(1))):
        for f in (F(1), TINY, HUGE) if n < 3 else (TINY,):
            yield c[:n], f, 0
    for how in WIN:
        for c in ((F(1), F(1), F(1), F(1)), (F(2), F(-1, 3), F(1), F(-1, 2))):
            yield c[:n], F(-3, 2), how
    if few:
        cs = [(F(1), F(-1), F(1, 2), F(-1, 3)), (F(1), F(1), F(-2), F(1)), (F(-1, 2), F(1, 3), F(1, 6), F(1)), (F(5, 7), F(-5, 7), F(1), F(-1)), (F(1), F(1), F(1), F(1))]
        for c in cs:
            for f in (F(1), F(-1, 2)):
                yield c[:n], f, 0
        for c in itertools.product((F(1), F(-1)), repeat=n):
            yield c, F(1), 1
        return
    for c in itertools.product(COEF, repeat=n) if n < 3 else itertools.product((F(-2), F(-1), F(1, 3), F(1)), repeat=n):
        for f in (FAC if n < 3 else FAC[:3]):
            yield c, f, 0
        yield c, F(2), 2
        if all(abs(x) == 1 for x in c):
            yield c, F(1), 1
            yield c, F(1, 2), 1


def run(job, a):
    import wicked as w
    cur = None
    for cfg, idx, few in job:
        if cfg != cur:
            C.spaces(w, cfg)
            cur = cfg
            _txt.clear()
        if idx[0] == "dist":
            vc.crumb(json.dumps([cfg, idx, None, None, None]))
            msg, n = dist(w, cfg, idx[1])
            a.states += n
            a.transitions += n
            a.validated += n
            if msg:
                a.bad([cfg, idx, None, None, None], msg)
            continue
        for coefs, fac, how in grids(len(idx), few):
            case = [cfg, idx, [str(c) for c in coefs], str(fac), how]
            vc.crumb(json.dumps(case))
            msg, got = one(w, cfg, idx, coefs, fac, how)
            a.states += 1
            a.transitions += len(idx) + 1   # additions and the contraction
            a.validated += 1
            if not got:
                a.count("combinations_that_vanish")
            else:
                a.sample("%s -> %s" % (case, got.replace("\n", " ; ")[:200]))
            if msg:
                a.bad(case, msg)


def replay(case):
    import wicked as w
    cfg, idx, coefs, fac, how = case
    C.spaces(w, cfg)
    _txt.clear()
    if idx[0] == "dist":
        return dist(w, cfg, idx[1])[0]
    return one(w, cfg, idx, [F(c) for c in coefs], F(fac), how)[0]
