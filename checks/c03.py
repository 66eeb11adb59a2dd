"""C03: rank windows select exactly the requested terms of the full contraction."""
import itertools, json, re
import common as C
import ref, vc

ID = "C03"
LEVEL = "model_checking"
RULE = ("for every product of the universe, and every sum of up to two or three products of mixed parity of a pool, the full contraction (minrank 0, maxrank = number of operators) is computed once and, for every window "
        "(minrank, maxrank) in the enumerated set (all pairs 0..n+1 including minrank > maxrank, and negative and huge bounds), the result is "
        "compared with the terms of the full contraction whose number of remaining operators lies in the window")
ASSUME = ["products up to the bounds; the full contraction itself is decided by C01 and C02"]
BIG = 2147483647


def universe(tier):
    th = tier == "thorough"
    out = []
    L = "ABCD"
    for cfg, nmax, tot in (("ov", 4, 8 if th else 6), ("g", 4, 8 if th else 6), ("cav", 3 if th else 2, 6 if th else 4), ("og", 3 if th else 2, 6), ("gv", 3, 6), ("go", 3, 6), ("hg", 3 if th else 2, 6), ("uov", 2, 4)):
        ns = len(C.CFG[cfg])
        U = C.comps_upto(ns, nmax)
        for i, a in enumerate(U):
            for j, b in enumerate(U):
                if 1 <= C.nlines(a) + C.nlines(b) <= tot:
                    out.append((cfg, [("A",) + a, ("B" if (i + j) % 3 else "A",) + b]))
    one = [((1, 0), (0, 1)), ((0, 1), (1, 0)), ((1, 0), (1, 0)), ((0, 1), (0, 1)), ((1, 0), (0, 0)), ((0, 0), (0, 1)), ((1, 1), (1, 1)), ((2, 0), (0, 2)), ((0, 2), (2, 0))]
    for a in one:
        for b in one:
            for c in one:
                if C.nlines(a) + C.nlines(b) + C.nlines(c) <= (10 if th else 8):
                    out.append(("ov", [("A",) + a, ("B",) + b, ("B",) + c]))
    g = [((1,), (1,)), ((2,), (1,)), ((1,), (2,)), ((1,), (0,)), ((0,), (1,)), ((2,), (2,))]
    for a in g:
        for b in g:
            for c in g:
                if C.nlines(a) + C.nlines(b) + C.nlines(c) <= (10 if th else 7):
                    out.append(("g", [("A",) + a, ("B",) + b, ("C",) + c]))
    for q in ([0, 1, 0, 1], [1, 0, 1, 1], [2, 3, 0, 1], [0, 0, 1, 1], [4, 4, 5, 5]):
        out.append(("ov", [("ABCD"[k],) + one[i] for k, i in enumerate(q)]))
    # single operators: only the uncontracted term
    for cfg in ("ov", "g"):
        for a in C.comps_upto(len(C.CFG[cfg]), 4):
            out.append((cfg, [("A",) + a]))
    return out


# sums of products with even and odd numbers of operators, vanishing and large ones
SUMS = {"ov": [[("A", "v+")], [("B", "v+ o")], [("C", "o+ v"), ("B", "v+ o")], [("B", "v+ o"), ("A", "v+")], [("D", "o"), ("E", "o+")], [("D", "o+"), ("E", "v"), ("A", "v+")], [("F", "v+ v+ o")],
               [("V", "o+ o+ v v"), ("B", "v+ o")], [("W", "v+ v+ o o")], [("X", "")]],
        "g": [[("A", "g+")], [("B", "g+ g")], [("B", "g+ g"), ("A", "g")], [("B", "g+ g"), ("C", "g+ g")], [("D", "g+ g+ g"), ("A", "g+")], [("A", "g+"), ("A", "g+")], [("V", "g+ g+ g g")]]}


def jobs(tier):
    v = universe(tier)
    v.sort(key=lambda x: sum(C.nlines(o[1:]) for o in x[1]), reverse=True)
    out = C.chunks(v, 200)
    for cfg, pool in SUMS.items():
        s = [list(x) for k in ((1, 2, 3) if tier == "thorough" or cfg == "g" else (1, 2)) for x in itertools.permutations(range(len(pool)), k)]
        out += [[["sum", cfg, x] for x in c] for c in C.chunks(s, 24)]
    return out


def check_sum(w, cfg, idx, only=None):
    """windows of a sum of products"""
    X = w.OperatorExpression()
    n = 0
    for k, i in enumerate(idx):
        P = None
        for l, s in SUMS[cfg][i]:
            P = w.op(l, [s]) if P is None else P @ w.op(l, [s])
        X.add2(P, w.rational(2 * k + 1, k - 3))
        n = max(n, sum(len(s.split()) for _, s in SUMS[cfg][i]))
    full = [(l, nops(l)) for l in str(C.engine(w).contract(X, 0, n)).split("\n") if l]
    nn = 0
    for a in range(-1, n + 2):
        for b in range(-1, n + 2):
            for f in (1, -2):
                e = C.engine(w)
                got = str(e.contract(X, a, b)) if f == 1 else str(e.contract(w.rational(1, f), X, a, b))
                nn += 1
                want = window(full, a, b)
                d = ref.diff(got, want if f == 1 else ref_scale(want, f))
                if d:
                    return "contract(%s) over %s with minrank=%d, maxrank=%d, factor 1/%d differs from the terms of the full contraction with that many operators:\n%s" % (
                        str(X).replace("\n", " "), cfg, a, b, f, d), nn
    return None, nn


def ref_scale(txt, f):
    import c04
    from fractions import Fraction as F
    return c04.lincomb([txt], [F(1, f)])


def nops(line):
    """number of second-quantized operators printed in a term"""
    return len(re.findall(r"(?:^|[\s{])[ab][+-]\(", line))


def window(full, lo, hi):
    return "\n".join(l for l, n in full if lo <= n <= hi)


def check_case(w, cfg, ops, only=None, fac=None):
    labs = C.labels(cfg)
    P = C.make_product(w, labs, ops)
    n = sum(C.nlines(o[1:]) for o in ops)
    e = C.engine(w)
    txt = str(e.contract(P, 0, n))
    full = [(l, nops(l)) for l in txt.split("\n") if l]
    wins = [(a, b) for a in range(0, n + 2) for b in range(0, n + 2)]
    wins += [(-1, n), (-BIG - 1, BIG), (-5, -1), (n + 1, n + 5), (0, BIG), (BIG, BIG), (n, BIG), (-1, 0), (1, -1)]
    if only:
        wins = [tuple(only)]
    nn = 0
    for k, (a, b) in enumerate(wins):
        want = window(full, a, b)
        ee = C.engine(w, True, k % 2 == 0)
        got = str(ee.contract(P, a, b))
        nn += 1
        if got != want and sorted(got.split("\n")) != sorted(want.split("\n")):
            d = ref.diff(got, want)
            if d:
                return [cfg, ops, [a, b]], "contract(%s) over %s with minrank=%d, maxrank=%d differs from the terms of the full contraction with that many operators:\n%s" % (
                    " @ ".join("%s{%s}" % (o[0], C.comp_str(labs, *o[1:])) for o in ops), cfg, a, b, d), nn, len(full)
        # one engine reused for all windows must not differ either
        if k < 40 and str(e.contract(P, a, b)) != got:
            return [cfg, ops, [a, b]], "engine reused for another window gives a different result for minrank=%d, maxrank=%d" % (a, b), nn, len(full)
    return None, None, nn, len(full)


def run(job, a):
    import wicked as w
    cur = None
    for cfg, ops in [x for x in job if x[0] != "sum"]:
        if cfg != cur:
            C.spaces(w, cfg)
            cur = cfg
        vc.crumb(json.dumps([cfg, ops, None]))
        case, msg, nn, nt = check_case(w, cfg, ops)
        a.states += nn
        a.transitions += 2 * nn
        a.validated += nn
        a.count("terms_of_full_contractions", nt)
        if nt > 3:
            a.sample("%s %s: %d windows over %d terms" % (cfg, ops, nn, nt))
        if msg:
            a.bad([cfg, ops, None], msg)
    for _, cfg, idx in [x for x in job if x[0] == "sum"]:
        if cfg != cur:
            C.spaces(w, cfg)
            cur = cfg
        vc.crumb(json.dumps(["sum", cfg, idx]))
        msg, nn = check_sum(w, cfg, idx)
        a.states += nn
        a.transitions += nn + 1
        a.validated += nn
        a.count("windows of sums of products", nn)
        if msg:
            a.bad(["sum", cfg, idx], msg)


def replay(case):
    import wicked as w
    if case[0] == "sum":
        C.spaces(w, case[1])
        return check_sum(w, case[1], case[2])[0]
    cfg, ops, win = case
    C.spaces(w, cfg)
    return check_case(w, cfg, [tuple(o) for o in ops])[1]
