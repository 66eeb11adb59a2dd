"""C05: presentation and performance switches never change the value."""
import itertools, json, os, sys
import common as C
import ref, vc

ID = "C05"
MEMLIMIT = 0   # the address space of thousands of threads is not counted as memory
LEVEL = "model_checking"
RULE = ("every product of the universe is contracted under every combination of graph canonicalization (on/off), single/multi-threaded mode and, for a "
        "subset, every print level; results are compared textually when they must be identical and otherwise as exact sums of canonical graphs; with "
        "canonicalization on, no two terms of one result may denote the same graph")
ASSUME = ["products up to the bounds; interleavings of worker threads are decided by C06"]


def universe(tier):
    th = tier == "thorough"
    out = []
    for cfg, nmax, tot in (("ov", 4, 8 if th else 6), ("g", 4, 8 if th else 6), ("cav", 2, 4), ("og", 3, 6 if th else 5), ("ovx", 2, 4)):
        U = C.comps_upto(len(C.CFG[cfg]), nmax)
        for i, a in enumerate(U):
            for j, b in enumerate(U):
                if 2 <= C.nlines(a) + C.nlines(b) <= tot :
                    for p in ("AB", "AA", "BA"):
                        out.append((cfg, [(p[0],) + a, (p[1],) + b], 99))
    for cfg, nmax, tot in (("ov", 3, 7 if th else 6), ("g", 3, 8 if th else 6), ("og", 2, 5)):
        U = [c for c in C.comps_upto(len(C.CFG[cfg]), nmax) if C.nlines(c)]
        for k, (a, b, c) in enumerate(itertools.product(U, repeat=3)):
            n = C.nlines(a) + C.nlines(b) + C.nlines(c)
            if n <= (tot if th else tot - 1):
                for p in ("ABC", "AAB", "BAA", "AAA", "CBA") if n < 6 or th else ("ABC", "BAB", "AAA"):
                    out.append((cfg, [(p[0],) + a, (p[1],) + b, (p[2],) + c], 2 if k % 4 == 0 else 99))
    one = [((1, 0), (0, 1)), ((0, 1), (1, 0)), ((1, 0), (1, 0)), ((0, 1), (0, 1))]
    for q in itertools.product(one, repeat=4):
        for p in ("ABCD", "AABB", "ABAB", "AAAA", "BAAB"):
            out.append(("ov", [(p[i],) + q[i] for i in range(4)], 99))
    # many spaces, and products of up to six operators
    for cfg, ns, pos in (("mix8", 8, (3, 7)), ("mix8", 8, (5, 1)), ("mix8", 8, (7, 6)), ("gg4", 4, (3, 1))):
        U = C.comps_upto(2, 2)
        for k, (a, b) in enumerate(itertools.product(U, repeat=2)):
            for p in ("AB", "BA"):
                out.append((cfg, [(p[0],) + C.embed(a, ns, pos), (p[1],) + C.embed(b, ns, pos)], 99))
        for k, t in enumerate(itertools.product([c for c in U if C.nlines(c) == 1] + [((1, 0), (0, 1)), ((0, 1), (1, 0)), ((1, 0), (1, 0)), ((0, 1), (0, 1))], repeat=3)):
            if 1:
                out.append((cfg, [(l,) + C.embed(c, ns, pos) for l, c in zip("BAA" if k % 2 else "CAB", t)], 99))
    one = [((1,), (0,)), ((0,), (1,))]
    for n in (5, 6):
        for k, q in enumerate(itertools.product(one, repeat=n)):
            if th or n == 5 or sum(c[0][0] for c in q) == 3:
                for p in ("ABCDEF", "AAAAAA", "CBABAC"):
                    out.append(("g", [(p[i],) + q[i] for i in range(n)], 99))
    # graph canonicalization has the most freedom when the same excitation operator appears several times
    T1, T2, L1, L2 = ((0, 1), (1, 0)), ((0, 2), (2, 0)), ((1, 0), (0, 1)), ((2, 0), (0, 2))
    H = [((c, 2 - c), (d, 2 - d)) for c in range(3) for d in range(3)] + one
    for h in H:
        for ts in ([T1, T1], [T1, T2], [T2, T1], [T2, T2], [T1, T1, T1]):
            if C.nlines(h) + sum(map(C.nlines, ts)) <= (12 if th else 10):
                out.append(("ov", [("H",) + h] + [("T",) + t for t in ts], 99))
        for l in (L1, L2):
            for t in (T1, T2):
                out.append(("ov", [("L",) + l, ("H",) + h, ("T",) + t], 99))
    return out


def large(tier):
    """products with thousands of contractions: single- and multi-threaded results must not differ, whatever the number of tasks"""
    h2, x2, s1, d1 = ((1, 1), (1, 1)), ((0, 2), (2, 0)), ((1, 0), (0, 1)), ((0, 1), (1, 0))
    out = []
    for ops in ([h2, h2], [h2, x2, d1], [h2, h2, s1], [s1, h2, x2], [s1, h2, h2, d1], [s1, h2, s1, d1, h2]) + (() if tier == "quick" else ([s1, h2, h2, d1, x2], [((2, 0), (0, 2)), h2, h2, x2])):
        out.append(("ov", [(l,) + c for l, c in zip("ABCDE", ops)], 99))
    out.insert(0, ("ov", [(l,) + h2 for l in "ABCDEF"], 99))   # more contractions than threads can be created
    for ops in ([2, 2], [2, 1, 1], [2, 2, 1], [3, 2], [3, 3]) + (() if tier == "quick" else ([2, 2, 2], [4, 3])):
        out.append(("g", [(l, (k,), (k,)) for l, k in zip("ABCDE", ops)], 99))
        out.append(("g", [(l, (k,), (k,)) for l, k in zip("ABCDE", ops)], 2))
    return out


def check_large(w, cfg, ops, mc):
    labs = C.labels(cfg)
    P = C.make_product(w, labs, ops)
    n = sum(C.nlines(o[1:]) for o in ops)
    nn = 0
    if len(ops) == 6:
        e = [C.engine(w, False, single, mc) for single in (True, False)]
        r = [x.contract(P, 0, n) for x in e]
        return (None if str(r[0]) == str(r[1]) else "contract(%s) over %s: single- and multi-threaded results differ (%d and %d terms)" % (ops, cfg, len(r[0]), len(r[1]))), 2
    for lo, hi in [(0, n)] + [(k, k) for k in range(0, n + 1)] + [(0, 2), (n // 2, n)]:
        for canon in (True, False):
            r = [C.engine(w, canon, single, mc).contract(P, lo, hi) for single in (True, False)]
            nn += 2
            if str(r[0]) != str(r[1]) or not r[0] == r[1]:
                d = set(str(r[0]).split("\n")) ^ set(str(r[1]).split("\n"))
                return "contract(%s) over %s, window %d..%d: single- and multi-threaded results differ (%d and %d terms), e.g. in %s" % (ops, cfg, lo, hi, len(r[0]), len(r[1]), sorted(d)[:2]), nn
    return None, nn


def many(tier):
    """products of seven (thorough: eight) operators in single windows: [cfg, ops, max cumulant, lowest, highest number of lines]"""
    th = tier == "thorough"
    out = []
    one = [((1,), (0,)), ((0,), (1,))]
    for k, q in enumerate(itertools.product(one, repeat=7)):
        n = sum(c[0][0] for c in q)
        if n in (3, 4) or th:
            for p in ("AAAAAAA", "ABBABAB") if th else (("AAAAAAA", "ABBABAB")[k % 2],):
                out.append(["g", [(p[i],) + q[i] for i in range(7)], 2, 7 - 2 * min(n, 7 - n), 7 if th else 7 - 2 * min(n, 7 - n) + 2 * (k % 2)])
    T1, L1 = ((0, 1), (1, 0)), ((1, 0), (0, 1))
    for n in (7, 8) if th else (7,):
        for k in range(0, n + 1):
            for mask in ([0] if not th else [0, 1]):
                q = [L1] * k + [T1] * (n - k)
                p = "L" * k + "T" * (n - k) if not mask else "AB" * n
                for lo in range(2 * n, 2 * n - 2 * min(k, n - k) - 1, -2):
                    if 2 * n - lo <= (6 if n == 7 else 2) and not (n == 8 and lo < 14):
                        out.append(["ov", [(p[i],) + q[i] for i in range(n)], 99, lo, lo])
    if th:
        out.append(["g", [("A",) + one[0]] * 4 + [("B",) + one[1]] * 4, 2, 6, 8])
    return out


def check_many(w, cfg, ops, mc, lo, hi):
    P = C.make_product(w, C.labels(cfg), ops)
    on = str(C.engine(w, True, True, mc).contract(P, lo, hi))
    off = str(C.engine(w, False, True, mc).contract(P, lo, hi))
    name = "contract(%s,%d,%d) over %s" % (" @ ".join("%s{%s}" % (o[0], C.comp_str(C.labels(cfg), *o[1:])) for o in ops), lo, hi, cfg)
    d = ref.diff(on, off) if on != off else ""
    if d:
        return "%s: the value depends on do_canonicalize_graph:\n%s\non:\n%s\noff:\n%s" % (name, d, on, off), 2
    d = dup_graphs(on) if on else None
    return ("%s: with canonicalization on, %s" % (name, d) if d else None), 2


def jobs(tier):
    v = universe(tier)
    v.sort(key=lambda x: sum(C.nlines(o[1:]) for o in x[1]), reverse=True)
    m = many(tier)
    m.sort(key=lambda x: (len(x[1]), x[0] == "ov", -abs(x[3])), reverse=True)
    return [[["large", x]] for x in large(tier)] + [[["many", x]] for x in m] + C.chunks(v, 320)


def quiet(f):
    """C-level stdout goes to /dev/null for the verbose print levels (the harness's child process already does so)"""
    sys.stdout.flush()
    fd = os.dup(1)
    dn = os.open(os.devnull, os.O_WRONLY)
    os.dup2(dn, 1)
    try:
        return f()
    finally:
        os.dup2(fd, 1)
        os.close(fd)
        os.close(dn)


def dup_graphs(txt):
    seen = {}
    for l in txt.split("\n"):
        g = ref.graph(l.lstrip("+"))
        if not g.strip():       # vanishes by symmetry
            continue
        k = g.split(" x ", 1)[-1] if " x " in g else g
        if k in seen:
            return "terms with the same graph: %r and %r" % (seen[k], l)
        seen[k] = l
    return None


def check(w, cfg, ops, mc, levels):
    labs = C.labels(cfg)
    n = sum(C.nlines(o[1:]) for o in ops)
    P = C.make_product(w, labs, ops)
    name = "contract(%s) over %s" % (" @ ".join("%s{%s}" % (o[0], C.comp_str(labs, *o[1:])) for o in ops), cfg)
    r = {}
    nn = 0
    for canon in (True, False):
        for single in (True, False):
            e = C.engine(w, canon, single, mc)
            r[canon, single] = e.contract(P, 0, n)
            nn += 1
        if str(r[canon, True]) != str(r[canon, False]) or not (r[canon, True] == r[canon, False]):
            return "%s: single- and multi-threaded results differ (canonicalization %s):\n%s\n---\n%s" % (name, canon, r[canon, True], r[canon, False]), nn, None
    on, off = str(r[True, True]), str(r[False, True])
    if on != off:
        d = ref.diff(on, off)
        if d:
            return "%s: the value depends on do_canonicalize_graph:\n%s\non:\n%s\noff:\n%s" % (name, d, on, off), nn, None
    if on:
        d = dup_graphs(on)
        if d:
            return "%s: with canonicalization on, %s" % (name, d), nn, None
    for lv in levels:
        for canon, single in ((True, True), (True, False), (False, True)):
            e = C.engine(w, canon, single, mc)
            e.set_print(getattr(w.PrintLevel, lv))
            got = str(quiet(lambda: e.contract(P, 0, n)))
            nn += 1
            if got != str(r[canon, single]):
                return "%s: the result depends on the print level %s" % (name, lv), nn, None
    return None, nn, on


LV = ["none", "basic", "summary", "detailed", "all"]


def run(job, a):
    import wicked as w
    cur = None
    if job and job[0][0] == "many":
        cfg, ops, mc, lo, hi = job[0][1]
        C.spaces(w, cfg)
        vc.crumb(json.dumps(job[0]))
        msg, nn = check_many(w, cfg, [tuple(o) for o in ops], mc, lo, hi)
        a.states += 1
        a.transitions += nn
        a.validated += nn
        a.count("products of seven or more operators")
        if msg:
            a.bad(job[0], msg)
        return
    if job and job[0][0] == "large":
        cfg, ops, mc = job[0][1]
        C.spaces(w, cfg)
        vc.crumb(json.dumps(job[0]))
        msg, nn = check_large(w, cfg, [tuple(o) for o in ops], mc)
        a.states += 1
        a.transitions += nn
        a.validated += nn
        a.count("products with many contractions")
        if msg:
            a.bad(job[0], msg)
        return
    for k, (cfg, ops, mc) in enumerate(job):
        if cfg != cur:
            C.spaces(w, cfg)
            cur = cfg
        n = sum(C.nlines(o[1:]) for o in ops)
        lv = LV if n <= 4 and k % 3 == 0 else [LV[1 + k % 4]] if n <= 6 else []
        case = [cfg, ops, mc, lv]
        vc.crumb(json.dumps(case))
        msg, nn, txt = check(w, cfg, ops, mc, lv)
        a.states += 1
        a.transitions += nn
        a.validated += nn
        if txt and txt.count("\n") > 3:
            a.sample("%s -> %s" % (case, txt.replace("\n", " ; ")[:200]))
        if msg:
            a.bad(case, msg)


def replay(case):
    import wicked as w
    if case[0] == "large":
        cfg, ops, mc = case[1]
        C.spaces(w, cfg)
        return check_large(w, cfg, [tuple(o) for o in ops], mc)[0]
    if case[0] == "many":
        cfg, ops, mc, lo, hi = case[1]
        C.spaces(w, cfg)
        return check_many(w, cfg, [tuple(o) for o in ops], mc, lo, hi)[0]
    cfg, ops, mc, lv = case
    C.spaces(w, cfg)
    return check(w, cfg, [tuple(o) for o in ops], mc, lv)[0]
