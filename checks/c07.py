"""C07: contraction results depend only on current inputs, never on history."""
import itertools, json, os, sys
import common as C
import ref, vc

ID = "C07"
LEVEL = "model_checking"
RULE = ("every sequence of actions (redefining or extending the orbital spaces, rejected definitions, setting changes, contractions with any window, "
        "contractions that fail, other engines, parsing errors, timers) up to the stated depth is executed on one engine; after each sequence probe "
        "contractions on that engine, on operators made before and after the sequence, must give exactly the text produced by a fresh process that "
        "only defines the current spaces and settings")
ASSUME = ["action alphabet and depth as listed in DESIGN.md"]

XSP = ("x", "fermion", "general", list("KLMN"))
BIG = 99
# probes: operators given by (label, cre counts, ann counts) for 1..4 spaces
def probes(ns):
    z = lambda *p: tuple(dict(p).get(i, 0) for i in range(ns))
    l = ns - 1
    P = [[("A", z((0, 1)), z((l, 1))), ("B", z((l, 1)), z((0, 1)))],
         [("A", z((0, 1)), z((0, 1))), ("A", z((l, 1)), z((l, 1))), ("B", z((l, 1)), z((0, 1)))]]
    if ns == 1:
        P.append([("V", (2,), (2,)), ("T", (1,), (1,))])
    else:
        P.append([("T", z((l, 2)), z((0, 2))), ("V", z((0, 2)), z((l, 2)))])
        # this one has another number of terms without canonical graphs
        P.append([("L", z((0, 1)), z((l, 1)))] * 2 + [("T", z((l, 1)), z((0, 1)))] * 2)
    return P


WIN = [(0, 0), (0, 2), (0, 99), (2, 2)]
WIN4 = [(0, 2), (4, 4)]


class St:
    """model of the history-relevant state: what the result is allowed to depend on"""
    def __init__(self):
        self.cfg, self.x = "ov", False
        self.mc, self.canon, self.single, self.pr = 100, True, False, False


def define(w, s):
    C.spaces(w, s.cfg)
    if s.x:
        w.add_space(*XSP)


def ns_of(s):
    return len(C.CFG[s.cfg]) + s.x


def mk(w, labs, ops):
    return C.make_product(w, labs, ops)


def labs_of(s):
    return C.labels(s.cfg) + ("x" if s.x else "")


class Bad(Exception):
    pass


def must_fail(f, what):
    try:
        f()
    except Exception:
        return
    raise Bad("%s was accepted" % what)


ACT = []


def act(name):
    def d(f):
        ACT.append((name, f))
        return f
    return d


def space_action(cfg):
    def f(w, e, s, h):
        s.cfg, s.x = cfg, False
        C.spaces(w, cfg)
    ACT.append(("spaces " + cfg, f))


for c in ("ov", "vo", "g", "cav"):
    space_action(c)


@act("add space x")
def _(w, e, s, h):
    if s.x:
        must_fail(lambda: w.add_space(*XSP), "a duplicate space")
    else:
        w.add_space(*XSP)
        s.x = True


@act("rejected space")
def _(w, e, s, h):
    lab, f, k, idx = C.CFG[s.cfg][0]
    must_fail(lambda: w.add_space("y", "fermion", "general", ["Y", idx[0]]), "a space with a used index name")
    must_fail(lambda: w.add_space(lab, "fermion", "general", ["Y"]), "a space with a used label")
    must_fail(lambda: w.add_space("z", "fermion", "nokind", ["Z"]), "a space of unknown kind")


def setting(name, attr, val, call):
    def f(w, e, s, h):
        call(w, e)
        setattr(s, attr, val)
    ACT.append((name, f))


setting("max_cumulant 1", "mc", 1, lambda w, e: e.set_max_cumulant(1))
setting("max_cumulant 99", "mc", 99, lambda w, e: e.set_max_cumulant(99))
setting("canonicalize off", "canon", False, lambda w, e: e.do_canonicalize_graph(False))
setting("canonicalize on", "canon", True, lambda w, e: e.do_canonicalize_graph(True))
setting("single", "single", True, lambda w, e: e.set_single_threaded(True))
setting("multi", "single", False, lambda w, e: e.set_single_threaded(False))
setting("print summary", "pr", True, lambda w, e: e.set_print(w.PrintLevel.summary))
setting("print none", "pr", False, lambda w, e: e.set_print(w.PrintLevel.none))


def contraction(name, k, win, fac=None):
    def f(w, e, s, h):
        P = mk(w, labs_of(s), probes(ns_of(s))[k])
        r = e.contract(P, *win) if fac is None else e.contract(w.rational(*fac), P, *win)
        h.append((r, str(r)))
    ACT.append((name, f))


contraction("contract 0 (0,0)", 0, (0, 0))
contraction("contract 1 (0,99)", 1, (0, 99))
contraction("contract 2 (0,4)", 2, (0, 4))
contraction("contract 0 empty window", 0, (5, 1))
contraction("contract 1 factor 0", 1, (0, 99), (0, 1))


@act("contract an operator on removed spaces")
def _(w, e, s, h):
    from_cav = h[0]
    if ns_of(s) < 3:
        must_fail(lambda: e.contract(from_cav, 0, 99), "an operator on spaces that do not exist")


@act("contract sum")
def _(w, e, s, h):
    l = labs_of(s)
    X = w.op("A", [l[0] + "+ " + l[-1], l[-1] + "+ " + l[0]])
    r = e.contract(w.bch_series(X, w.op("T", [l[-1] + "+ " + l[0]]), 2), 0, 2)
    h.append((r, str(r)))


@act("other engine")
def _(w, e, s, h):
    f = C.engine(w, False, True, 1)
    f.contract(mk(w, labs_of(s), probes(ns_of(s))[1]), 0, 99)


@act("parse errors and timers")
def _(w, e, s, h):
    must_fail(lambda: w.expression("F^{"), "a malformed expression")
    must_fail(lambda: w.op("A", ["q+ q"]), "an operator on an unknown space")
    must_fail(lambda: w.index("q7q"), "a malformed index")
    e.timers()


@act("a contraction that overflows")
def _(w, e, s, h):
    i = len(C.CFG[s.cfg]) - 1
    if C.CFG[s.cfg][i][2] == "general":
        return
    n, z = 110, (0,) * ns_of(s)
    c = tuple(n * (j == i) for j in range(ns_of(s)))
    P = mk(w, labs_of(s), [("A", z, c), ("B", c, z)])
    must_fail(lambda: e.contract(P, 2 * n, 2 * n), "a contraction with the factor 1/(110!)^2")


@act("algebra")
def _(w, e, s, h):
    l = labs_of(s)
    x = w.operator_expr("Q", ["%s+ %s" % (l[-1], l[0])], True)
    x.canonicalize()
    x.adjoint().to_manybody_equations("r")


# ---- histories of contractions only: every ordered pair of a list of products of many shapes ----
def _chain(cfg, lab, n, first=0, names="ABCDEFGHIJ"):
    """n factors with one operator each, alternately creation and annihilation"""
    ns = len(C.CFG[cfg])
    s = C.labels(cfg).index(lab)
    z, o = (0,) * ns, tuple(int(i == s) for i in range(ns))
    return [(names[k], o, z) if (k + first) % 2 else (names[k], z, o) for k in range(n)]


def _prod(cfg, text, names="ABCDE"):
    """'v+ o | o+ v' -> factors"""
    labs = C.labels(cfg)
    out = []
    for k, f in enumerate(text.split("|")):
        w = f.split()
        out.append((names[k], tuple(w.count(l + "+") for l in labs), tuple(w.count(l) for l in labs)))
    return out


def _products():
    P = []
    for n in (2, 3, 4, 5, 6, 7, 8):
        P.append(("g", _chain("g", "g", n, n % 2), (0, 0) if n > 6 else (0, 99)))
    for n in (2, 4, 6, 8, 9, 10):
        P.append(("ov", _chain("ov", "v", n), (0, 0) if n > 7 else (0, 2)))
        P.append(("ov", _chain("ov", "o", n, 1), (0, 0) if n > 7 else (0, 2)))
    for cfg, texts in (
        ("g", ["g+ g|g+ g", "g+ g|g+ g|g+ g", "g+ g+ g g|g+ g+ g g", "g+ g+ g g|g+ g", "g+ g|g+ g+ g g", "g+ g+|g g", "g g|g+ g+", "g+ g+ g|g+ g g", "g+ g+ g+ g g g|g+ g", "g+ g+|g g|g+ g"]),
        ("hg", ["h+ g|g+ h", "h+ h|g+ g|h+ g", "h+ g+ g h|h+ g+ g h", "g+ g|g+ g|h+ h", "h+ h|h+ h"]),
        ("og", ["o+ g|g+ o", "g+ g|g+ g|o+ o", "g+ g+ g g|g+ g+ o o", "o+ o+ g g|g+ g+ o o"]),
        ("ov", ["o+ v|v+ o", "o+ v|v+ o|v+ o", "o+ o+ v v|v+ v+ o o", "o+ o+ v v|v+ o|v+ o", "o+ o+ v v|v+ o|v+ o|v+ o", "v+ v+ o o|o+ o+ v v", "v+ v|v+ v|v+ v", "o+ o|o+ o|o+ o|o+ o", "v+ o|v+ o", "o+ v+ v o|v+ v+ o o"]),
        ("vo", ["o+ v|v+ o", "o+ o+ v v|v+ v+ o o", "o+ o+ v v|v+ o|v+ o", "v+ v|v+ v|v+ v", "o+ v+ v o|v+ v+ o o"]),
        ("cav", ["a+ c|c+ a", "a+ a+ a c|c+ a", "c+ a+ a v|v+ a+ a c", "a+ a|a+ a|a+ a", "c+ c+ v v|v+ v+ c c", "a+ a+ a a|a+ a+ a a", "c+ v|v+ a|a+ c", "a+ a+ v v|v+ v+ a a"]),
        ("gg4", ["e+ f|f+ e", "e+ e+ f f|f+ f+ e e", "e+ f+ g h|h+ g+ f e", "g+ g+ h h|h+ h+ g g"]),
        ("mix8", ["o+ u|u+ o", "g+ h|h+ g", "g+ g+ k k|k+ k+ g g", "o+ g+ k u|u+ k+ g o"]),
        ("fb", ["f+ f|f+ f", "f+ f+ f f|f+ f"]),
    ):
        for x in texts:
            P.append((cfg, _prod(cfg, x), (0, 99) if len(x) < 16 else (0, 2)))
    # the same labels on other shapes, other labels on the same shapes, other windows and cumulant levels
    P.append(("g", _prod("g", "g+ g+ g g|g+ g+ g g", "AA"), (0, 0)))
    P.append(("g", _prod("g", "g+ g|g+ g", "BA"), (2, 2)))
    P.append(("ov", _prod("ov", "v+ o|v+ o|o+ v", "TTA"), (0, 4)))
    P.append(("ov", _prod("ov", "v+ v+ o o|v+ o|o+ v", "TTA"), (0, 4)))
    P.append(("ov", _prod("ov", "o+ o+ v v|v+ v+ o o", "VT"), (4, 4)))
    P.append(("cav", _prod("cav", "a+ a+ a a|a+ a+ a a", "VV"), (2, 2)))
    return [(cfg, ops, win, mc) for cfg, ops, win in P for mc in ((99, 1) if "g" in cfg and len(ops) < 4 else (99,))]


PRODUCTS = _products()


def product_text(w, p):
    cfg, ops, win, mc = p
    C.spaces(w, cfg)
    r = C.engine(w, len(ops) < 6, True, mc).contract(C.make_product(w, C.labels(cfg), ops), *win)
    return str(r) + "\n" + r.latex(" ")


def run_pairs(w, i, n=None):
    """product i, then every product with product i in between"""
    nt = 0
    M = len(PRODUCTS)
    for k in range(M):
        for j in (i, (i + k) % M):
            got = product_text(w, PRODUCTS[j])
            nt += 1
            if got != PTABLE[j]:
                return "product %s gives\n%s\ninstead of\n%s" % (PRODUCTS[j], got, PTABLE[j]), nt, k
        if n is not None and k >= n:
            break
    return None, nt, M


NAMES = [a[0] for a in ACT]
QUICK4 = [NAMES.index(n) for n in ("spaces vo", "spaces g", "add space x", "max_cumulant 1", "canonicalize off", "print summary",
                                   "contract 1 (0,99)", "contract 2 (0,4)", "contract an operator on removed spaces", "other engine", "single", "a contraction that overflows")]
TABLE = PTABLE = None


def table_for(w):
    """expected texts, each computed in its own forked process that has done nothing but define the spaces"""
    def one(arg):
        cfg, x = arg
        s = St()
        s.cfg, s.x = cfg, x
        define(w, s)
        out = {}
        for mc in (1, 99):
            for canon in (True, False):
                for k, ops in enumerate(probes(ns_of(s))):
                    for win in (WIN if k < 3 else WIN4):
                        out[mc, canon, k, win] = str(C.engine(w, canon, True, mc).contract(mk(w, labs_of(s), ops), *win))
        return out
    T = {}
    for cfg in ("ov", "vo", "g", "cav"):
        for x in (False, True):
            kind, v, _ = vc.run_isolated(one, (cfg, x), 120)
            if kind != "ok":
                raise RuntimeError("fresh contraction failed: %s" % v)
            T[cfg, x] = v
    return T


def ptable_for(w):
    out = []
    for p in PRODUCTS:
        kind, v, _ = vc.run_isolated(lambda q: product_text(w, q), p, 120)
        if kind != "ok":
            raise RuntimeError("fresh contraction of %s failed: %s" % (p, v))
        out.append(v)
    return out


def jobs(tier):
    global TABLE, PTABLE
    import wicked as w
    TABLE = table_for(w)
    PTABLE = ptable_for(w)
    n = len(ACT)
    first = list(itertools.product(range(n), repeat=2))
    th = tier == "thorough"
    out = [("len<=2", None, None)]
    out += [("pairs", i, None) for i in range(len(PRODUCTS))]
    out += [(list(p), 1, "all") for p in first]
    if th:
        out += [(list(p), 2, "all") for p in first]
        out += [(list(p), 3, "q") for p in itertools.product(QUICK4, repeat=2)]
    else:
        out += [(list(p), 2, "q") for p in itertools.product(QUICK4, repeat=2)]
    return out


def seqs(job):
    pre, k, alpha = job
    if pre == "len<=2":
        for d in range(3):
            yield from itertools.product(range(len(ACT)), repeat=d)
        return
    A = range(len(ACT)) if alpha == "all" else QUICK4
    for t in itertools.product(A, repeat=k):
        yield tuple(pre) + t


def run_seq(w, seq):
    s = St()
    # operators made at the start, under two spaces, and one that acts on four
    s3 = St()
    s3.cfg, s3.x = "cav", True
    define(w, s3)
    stale = mk(w, labs_of(s3), [("A", (0, 1, 0, 1), (1, 0, 0, 0)), ("B", (0, 0, 1, 0), (0, 0, 1, 0))])
    s2 = St()
    define(w, s2)
    old = [mk(w, labs_of(s2), ops) for ops in probes(2)]
    e = w.WickTheorem()
    h = [stale]
    nt = 0
    try:
        for i in seq:
            ACT[i][1](w, e, s, h)
            nt += 1
    except Bad as x:
        return str(x), nt
    for r, t in h[1:]:
        pass
    exp = TABLE[s.cfg, s.x]
    mc = 1 if s.mc == 1 else 99
    for k, ops in enumerate(probes(ns_of(s))):
        P = mk(w, labs_of(s), ops)
        for win in WIN[:3] if k < 2 else WIN[1:3] if k == 2 else WIN4:
            got = str(e.contract(P, *win))
            nt += 1
            if got != exp[mc, s.canon, k, win]:
                return "probe %s window %s gives\n%s\ninstead of\n%s" % (ops, win, got, exp[mc, s.canon, k, win]), nt
    if ns_of(s) == 2:
        for k in range(3):
            got = str(e.contract(old[k], 0, 2))
            nt += 1
            if got != exp[mc, s.canon, k, (0, 2)]:
                return "operators made before the sequence, product %d gives\n%s\ninstead of\n%s" % (k, got, exp[mc, s.canon, k, (0, 2)]), nt
    # a new engine in the same process
    got = str(C.engine(w).contract(mk(w, labs_of(s), probes(ns_of(s))[1]), 0, 99))
    if got != exp[99, True, 1, (0, 99)]:
        return "a new engine gives\n%s\ninstead of\n%s" % (got, exp[99, True, 1, (0, 99)]), nt
    return None, nt


def run(job, a):
    import wicked as w
    if job[0] == "pairs":
        vc.crumb(json.dumps(["pairs", job[1]]))
        msg, nt, k = run_pairs(w, job[1])
        a.states += nt
        a.transitions += nt
        a.validated += nt
        if msg:
            a.bad(["pairs", job[1], k], "after the product %s and others: %s" % (PRODUCTS[job[1]], msg))
        return
    for seq in seqs(job):
        vc.crumb(json.dumps(list(seq)))
        msg, nt = run_seq(w, seq)
        a.states += 1
        a.transitions += nt
        a.validated += nt - len(seq)
        if len(seq) > 2:
            a.sample(" ; ".join(NAMES[i] for i in seq))
        if msg:
            a.bad(list(seq), "after [%s]: %s" % (" ; ".join(NAMES[i] for i in seq), msg))


def replay(case):
    global TABLE, PTABLE
    import wicked as w
    if TABLE is None:
        TABLE = table_for(w)
        PTABLE = ptable_for(w)
    if case[0] == "pairs":
        m = run_pairs(w, *case[1:])[0]
        return m and "after the product %s and others: %s" % (PRODUCTS[case[1]], m)
    m = run_seq(w, tuple(case))[0]
    return m and "after [%s]: %s" % (" ; ".join(NAMES[i] for i in case), m)
