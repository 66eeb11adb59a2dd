"""C16: rational numbers are exact and in canonical form."""
import itertools, json, math, re
from fractions import Fraction as F
import common as C
import vc

ID = "C16"
LEVEL = "model_checking"
TECHNIQUE = "explicit-state exploration of arithmetic operation sequences on the real objects against exact fractions"
RULE = ("all pairs of values of a grid of fractions and of a set of boundary values (around powers of two up to the supported width) under every operation, all two-operation sequences over a smaller set, "
        "and breadth-first closure from generators; every result is compared with exact fractions, must be in lowest terms with positive denominator, and its text, LaTeX, compiled and float "
        "forms must denote the value; operands must be unchanged, equality is compared with numerical equality, quotients by zero must be rejected")
ASSUME = ["1024-bit build of the rational type; beyond that width an OverflowError is the documented result"]

OPS = [("+", lambda a, b: a + b), ("-", lambda a, b: a - b), ("*", lambda a, b: a * b), ("/", lambda a, b: a / b)]


def mk(w, q):
    if abs(q.numerator) < 2 ** 31 and q.denominator < 2 ** 31:
        return w.rational(q.numerator, q.denominator)
    return w.make_rational("%d/%d" % (q.numerator, q.denominator))


def val(r):
    return int(r.numerator()), int(r.denominator())


LF = re.compile(r"^([+-]?)\\frac\{(\d+)\}\{(\d+)\}$")


def forms(r, q):
    """all printed forms denote q"""
    n, d = q.numerator, q.denominator
    s = "" if n == 1 and d == 1 else "-" if n == -1 and d == 1 else str(q)
    if r.str(False) != s:
        return "%s prints as %r" % (q, r.str(False))
    if r.str(True) != ("+" + s if n > 0 else s):
        return "%s prints with a sign as %r" % (q, r.str(True))
    if repr(r) != "rational(%d,%d)" % (n, d):
        return "%s has the representation %r" % (q, repr(r))
    for first in (True, False):
        t = r.latex(first)
        m = LF.match(t)
        if m:
            v = F(int(m.group(2)), int(m.group(3))) * (-1 if m.group(1) == "-" else 1)
            ok = v == q and int(m.group(3)) == d and (first or m.group(1))
        elif t in "+-":
            ok = q == F(t + "1")
        else:
            try:
                ok = int(t) == q and (first or t[0] in "+-" or q == 0)
            except ValueError:
                ok = False
        if not ok:
            return "%s has the LaTeX form %r (first = %s)" % (q, t, first)
    f = float(r)
    want = n / d if max(abs(n), d) < 2 ** 53 else None
    if want is not None:
        if f != want:
            return "%s is converted to %r instead of %r" % (q, f, want)
    elif abs(F(f) - q) > abs(q) * F(1, 2 ** 50):
        return "%s is converted to %r" % (q, f)
    for fmt in ("ambit", "einsum", ""):
        c = F(r.compile(fmt))
        if abs(c - q) > F(1, 2 * 10 ** 6) + abs(q) * F(1, 2 ** 50):
            return "%s is compiled to %r" % (q, r.compile(fmt))
    return None


def exact(what, r, q):
    if val(r) != (q.numerator, q.denominator):
        return "%s is %d/%d instead of %d/%d" % (what, *val(r), q.numerator, q.denominator)
    return None


def pair(w, a, b, alias):
    x = mk(w, a)
    y = x if alias else mk(w, b)
    n = 0
    for name, f in OPS:
        what = "(%s) %s (%s)%s" % (a, name, b, " (the same object)" if alias else "")
        if name == "/" and b == 0:
            try:
                r = f(x, y)
            except Exception:
                n += 1
                continue
            return what + " is not rejected but gives %s" % r, n
        q = f(a, b)
        r = f(x, y)
        m = exact(what, r, q) or forms(r, q)
        n += 1
        if m:
            return m, n
        if not (r == mk(w, q)) or r != mk(w, q):
            return what + " does not compare equal to %s" % q, n
        if (r == x) != (q == a) or (r != y) == (q == b):
            return "equality of %s with its operands" % what, n
    if val(x) != (a.numerator, a.denominator) or val(y) != (b.numerator, b.denominator):
        return "an operation modified one of the operands %s, %s" % (a, b), n
    if (x == y) != (a == b):
        return "equality of %s and %s" % (a, b), n
    return None, n


LIM = 2 ** 1024


def huge():
    """operands up to the supported width"""
    s = set()
    for k in (511, 512, 513, 700, 1000, 1022, 1023):
        for d in (-1, 0, 1):
            for e in (F(2 ** k + d), F(1, 2 ** k + d), F(2 ** k + d, 3), F(3, 2 ** k + d)):
                s |= {e, -e}
    s |= {F(LIM - 1), F(1 - LIM), F(1, LIM - 1), F(LIM - 1, LIM - 2), F(2 ** 511 + 1, 2 ** 511 - 1), F(2 ** 512 + 1, 2 ** 512 - 1), F(-2 ** 300, 3 ** 250), F(math.factorial(170), math.factorial(98) + 1),
          F(0), F(1), F(-1), F(2), F(1, 3), F(7 ** 180, 5 ** 200)}
    return sorted(s)


def over(w, a, b, alias):
    """near and beyond the supported width a result is exact or an OverflowError; it must be exact if the textbook formula does not leave the width"""
    x = mk(w, a)
    y = x if alias else mk(w, b)
    n = 0
    for name, f in OPS:
        if name == "/" and b == 0:
            continue
        what = "(%s) %s (%s)" % (a, name, b)
        p, q, r, s = a.numerator, a.denominator, b.numerator, b.denominator
        inter = {"+": [p * s, r * q, p * s + r * q, q * s], "-": [p * s, r * q, p * s - r * q, q * s], "*": [p * r, q * s], "/": [p * s, q * r]}[name]
        n += 1
        try:
            z = f(x, y)
        except OverflowError as e:
            if max(map(abs, inter)) < 2 ** 960:  # one 64-bit digit of slack for the carry of intermediate results
                return "%s raises %r although nothing overflows" % (what, e), n
            continue
        m = exact(what, z, f(a, b))
        if m:
            return m, n
        if z.str(False) not in (str(f(a, b)), "", "-"):
            return "%s prints as %s" % (what, z), n
    if val(x) != (a.numerator, a.denominator) or val(y) != (b.numerator, b.denominator):
        return "an operation modified one of the operands %s, %s" % (a, b), n
    if (x == y) != (a == b) or (x != y) == (a == b):
        return "equality of %s and %s" % (a, b), n
    return None, n


def text(w, s, q):
    """reading a number of any length: the number or an error"""
    try:
        r = w.make_rational(s)
    except Exception as e:
        if max(abs(q.numerator), q.denominator) < LIM and all(int(x) < LIM for x in re.findall(r"\d+", s)):
            return "make_rational(%r) raises %r" % (s, e), 1
        return None, 1
    return exact("make_rational(%r)" % s, r, q), 1


def seq2(w, a, b, c):
    """(a op b) op c and a op (b op c)"""
    n = 0
    x, y, z = mk(w, a), mk(w, b), mk(w, c)
    for (n1, f), (n2, g) in itertools.product(OPS, repeat=2):
        for left in (True, False):
            try:
                q = g(f(a, b), c) if left else f(a, g(b, c))
            except ZeroDivisionError:
                q = None
            what = ("(%s %s %s) %s %s" if left else "%s %s (%s %s %s)") % (a, n1, b, n2, c)
            try:
                r = g(f(x, y), z) if left else f(x, g(y, z))
            except Exception as e:
                if q is not None:
                    return "%s raises %s" % (what, e), n
                continue
            if q is None:
                return "%s is not rejected but gives %s" % (what, r), n
            n += 1
            m = exact(what, r, q)
            if m:
                return m, n
    return None, n


def ctor(w, n, d):
    """constructor from two integers"""
    try:
        r = w.rational(n, d)
    except Exception as e:
        return None if d == 0 else "rational(%d,%d) raises %s" % (n, d, e)
    if d == 0:
        return "rational(%d,0) is not rejected but gives %s" % (n, r)
    m = exact("rational(%d,%d)" % (n, d), r, F(n, d)) or forms(r, F(n, d))
    if m:
        return m
    if d == 1:
        m = exact("rational(%d)" % n, w.rational(n), F(n)) or forms(w.rational(n), F(n))
    x = w.make_rational("%d/%d" % (n, d)) if d > 0 else None
    if x is not None and not (x == r):
        return "make_rational('%d/%d') is %s" % (n, d, x)
    return m


def chain(w, start, step):
    """long chains: harmonic-like sums, factorial products and telescoping products"""
    q, r = F(start), mk(w, F(start))
    for k in range(1, 60):
        t = F((-1) ** (k * step), k)
        q, r = q + t, r + mk(w, t)
        m = exact("partial sum %d" % k, r, q) or forms(r, q)
        if m:
            return m
    for k in range(1, 61):
        q, r = (q * k, r * mk(w, F(k))) if k % (step + 1) else (q / k, r / mk(w, F(k)))
        m = exact("partial product %d" % k, r, q) or forms(r, q)
        if m:
            return m
    x = w.rational()
    return exact("rational()", x, F(0)) or forms(x, F(0))


def grid(n):
    return sorted({F(a, b) for a in range(-n, n + 1) for b in range(1, n + 1)})


def big():
    s = set()
    for k in (15, 16, 31, 32, 53, 62, 63, 64, 127, 128, 255, 256, 500):
        for d in (-1, 0, 1):
            s.add(F(2 ** k + d))
    s |= {F(10 ** 9), F(10 ** 18), F(10 ** 19), F(10 ** 150)}
    out = {F(0), F(1), F(2), F(1, 3)} | s | {-x for x in list(s)[::2]} | {1 / x for x in s} | {F(2 ** 64 - 1, 2 ** 63 - 1), F(3 ** 300, 2 ** 400), F(-10 ** 100, 7 ** 100), F(math.factorial(50), math.factorial(48) + 1)}
    return sorted(out)


def jobs(tier):
    th = tier == "thorough"
    out = [["pair", 14 if th else 8, i, 64] for i in range(64)]
    out += [["big", i, 32] for i in range(32)]
    out += [["seq", 4 if th else 3, i, 32] for i in range(32)]
    out += [["huge", i, 32] for i in range(32)] + [["text"]]
    out += [["ctor", i, 8] for i in range(8)]
    out += [["chain"]]
    out += [["bfs", 3 if th else 2, i, 16] for i in range(16)]
    return out


INTS = [0, 1, -1, 2, -2, 3, 4, 6, -6, 8, 9, 10, 12, 100, -100, 360, 2 ** 15, 2 ** 16 + 1, 2 ** 30, 2 ** 31 - 1, -2 ** 31 + 1, -2 ** 31, 999999937, 1000000007, 1234567890]


def closure(depth):
    """values reached from the generators by `depth` operations"""
    seen = {F(1): 0, F(-2, 3): 0, F(5, 4): 0}
    for d in range(depth):
        cur = list(seen)
        if len(cur) > 300:
            cur = cur[:300]
        for a, b in itertools.product(cur, repeat=2):
            for n, f in OPS:
                if n == "/" and b == 0:
                    continue
                seen.setdefault(f(a, b), d + 1)
    return list(seen)


def gen(job):
    k = job[0]
    if k == "pair":
        g = grid(job[1])
        for n, (a, b) in enumerate(itertools.product(g, repeat=2)):
            if n % job[3] == job[2]:
                yield ["p", str(a), str(b), False]
                if a == b:
                    yield ["p", str(a), str(b), True]
    elif k == "big":
        g = big()
        for n, (a, b) in enumerate(itertools.product(g, repeat=2)):
            if n % job[2] == job[1]:
                yield ["p", str(a), str(b), False]
                if a == b:
                    yield ["p", str(a), str(b), True]
    elif k == "huge":
        g = huge()
        for n, (a, b) in enumerate(itertools.product(g, repeat=2)):
            if n % job[2] == job[1]:
                yield ["o", str(a), str(b), False]
                if a == b:
                    yield ["o", str(a), str(b), True]
    elif k == "text":
        for e in list(range(1, 40)) + [62, 63, 64, 65, 127, 128, 1000, 1022, 1023, 1024, 1025, 1100, 2048]:
            for d in (-1, 0, 1):
                v = 2 ** e + d
                for s in ("%d" % v, "-%d" % v, "%d/3" % v, "7/%d" % v, "-%d/%d" % (v, v + 1), "000%d" % v, "%d/%d" % (6 * v, 4 * v)):
                    yield ["t", s]
    elif k == "seq":
        g = grid(job[1])
        for n, t in enumerate(itertools.product(g, repeat=3)):
            if n % job[3] == job[2]:
                yield ["s"] + [str(x) for x in t]
    elif k == "ctor":
        for n, (a, b) in enumerate(itertools.product(list(range(-24, 25)) + INTS, repeat=2)):
            if n % job[2] == job[1]:
                yield ["c", a, b]
    elif k == "chain":
        for s in range(-3, 4):
            for t in range(0, 4):
                yield ["l", str(F(s, 2)), t]
    else:
        g = closure(job[1])
        pr = g[:120]
        for n, (a, b) in enumerate(itertools.product(g[:20000], pr)):
            if n % job[3] == job[2]:
                yield ["p", str(a), str(b), False]


def dispatch(w, c):
    if c[0] == "p":
        return pair(w, F(c[1]), F(c[2]), c[3])
    if c[0] == "o":
        return over(w, F(c[1]), F(c[2]), c[3])
    if c[0] == "t":
        return text(w, c[1], F(c[1]))
    if c[0] == "s":
        return seq2(w, F(c[1]), F(c[2]), F(c[3]))
    if c[0] == "c":
        return ctor(w, c[1], c[2]), 1
    return chain(w, F(c[1]), c[2]), 120


def run(job, a):
    import wicked as w
    assert w.use_boost_1024_int()
    for case in gen(job):
        vc.crumb(json.dumps(case))
        m, n = dispatch(w, case)
        a.states += 1
        a.transitions += n
        a.validated += n
        a.count({"p": "pairs", "s": "two-operation sequences", "c": "constructions", "l": "chains", "o": "pairs near the supported width", "t": "texts"}[case[0]])
        a.sample(json.dumps(case)[:200])
        if m:
            a.bad(case, m)


def replay(case):
    import wicked as w
    return dispatch(w, case)[0]
