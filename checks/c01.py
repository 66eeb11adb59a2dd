"""C01: the contraction engine implements Wick's theorem exactly over occupied/unoccupied spaces."""
import json, re
from fractions import Fraction as F
import common as C
import ref, vc

ID = "C01"
LEVEL = "model_checking"
RULE = ("every product of normal-ordered operators in the stated universe (number of operators, lines per operator, label "
        "patterns, space configurations) is contracted by the real engine and compared, as an exact sum of canonical graphs, "
        "with an enumeration of all sets of elementary contractions of the individual operators")
ASSUME = ["fermionic spaces only", "operators and products up to the bounds below; nothing is claimed above them"]


def universe(tier):
    """yield (cfg, ops)"""
    L = "ABCD"
    th = tier == "thorough"
    out = []
    # pairs of arbitrary components
    for cfg, nmax in (("ov", 6 if th else 5), ("vo", 4 if th else 3), ("ovx", 4 if th else 3), ("uov", 4 if th else 3)):
        ns = len(C.CFG[cfg])
        U = C.comps_upto(ns, nmax)
        for a in U:
            for b in U:
                for p in ((0, 1), (0, 0)):
                    out.append((cfg, [(L[p[0]],) + a, (L[p[1]],) + b]))
    # eight spaces: all pairs of operators with up to two lines, and smaller universes placed on some of the spaces
    U = C.comps_upto(8, 2)
    for a in U:
        for b in U:
            if th or C.nlines(a) + C.nlines(b) <= 3 or a == (b[1], b[0]) or len({k for k in range(8) if a[0][k] + b[0][k] + a[1][k] + b[1][k]}) <= 2:
                for p in ((0, 1), (1, 0)):
                    out.append(("ou8", [(L[p[0]],) + a, (L[p[1]],) + b]))
    U = C.comps_upto(2, 2)
    for pos in ((6, 7), (3, 4), (7, 2)):
        for t in __import__("itertools").product(U, repeat=3):
            if 3 <= sum(map(C.nlines, t)) <= (6 if th else 4):
                for p in ((0, 1, 2), (0, 1, 0), (2, 1, 0)):
                    out.append(("ou8", [(L[i],) + C.embed(c, 8, pos) for i, c in zip(p, t)]))
    # reversed label order (the canonical order of operators differs from the product order)
    U = C.comps_upto(2, 3)
    for a in U:
        for b in U:
            out.append(("ov", [("B",) + a, ("A",) + b]))
    # triples
    U = C.comps_upto(2, 3) if not th else C.comps_upto(2, 4)
    pats = C.set_partitions(3) + [(2, 1, 0), (1, 0, 2), (1, 0, 0)]
    for a in U:
        for b in U:
            for c in U:
                n = C.nlines(a) + C.nlines(b) + C.nlines(c)
                if n < 2 or n > (9 if th else 7):
                    continue
                for p in (pats if n <= (7 if th else 5) else pats[:2] if n <= (8 if th else 6) else pats[:1]):
                    out.append(("ov", [(L[p[0]],) + a, (L[p[1]],) + b, (L[p[2]],) + c]))
    # quadruples of one-body components
    one = [((1, 0), (0, 1)), ((0, 1), (1, 0)), ((1, 0), (1, 0)), ((0, 1), (0, 1))]
    odd = [((1, 0), (0, 0)), ((0, 1), (0, 0)), ((0, 0), (1, 0)), ((0, 0), (0, 1))]
    for U in (one, odd, one[:2] + odd):
        for q in __import__("itertools").product(U, repeat=4):
            for p in C.set_partitions(4):
                if U is not one and not th and p not in ((0, 1, 2, 3), (0, 0, 0, 0), (0, 0, 1, 1), (0, 1, 0, 1)):
                    continue
                out.append(("ov", [(L[p[i]],) + q[i] for i in range(4)]))
    # high multiplicity: many lines of the same kind between two or three operators
    m = 5 if th else 4
    for n in range(2, m + 1):
        for k in range(0, m + 1):
            if n + k > (8 if th else 6):
                continue
            for lab in (("A", "B"), ("A", "A")):
                out.append(("ov", [(lab[0], (n, 0), (0, k)), (lab[1], (0, k), (n, 0))]))
                out.append(("ov", [(lab[0], (k, 0), (0, n)), (lab[1], (0, n), (k, 0))]))
                out.append(("ov", [(lab[0], (n, k), (0, 0)), (lab[1], (0, 0), (n, k))]))
                out.append(("ov", [(lab[0], (0, 0), (k, n)), (lab[1], (k, n), (0, 0))]))
    # the shapes of coupled-cluster and similar theories: two-body operator and excitation operators
    H = [((c, 2 - c), (d, 2 - d)) for c in range(3) for d in range(3)] + one
    T1, T2 = ((0, 1), (1, 0)), ((0, 2), (2, 0))
    L1, L2 = ((1, 0), (0, 1)), ((2, 0), (0, 2))
    for h in H:
        for t in (T1, T2, L1, L2):
            out.append(("ov", [("H",) + h, ("T",) + t]))
            out.append(("ov", [("T",) + t, ("H",) + h]))
        out.append(("ov", [("H",) + h, ("T",) + T1, ("T",) + T1]))
        if C.nlines(h) < 4 or th:
            out.append(("ov", [("T",) + T1, ("H",) + h, ("T",) + T1]))
            out.append(("ov", [("H",) + h, ("T",) + T1, ("T",) + T2]))
            out.append(("ov", [("L",) + L1, ("H",) + h, ("T",) + T2]))
        if th:
            out.append(("ov", [("H",) + h, ("T",) + T2, ("T",) + T2]))
            out.append(("ov", [("L",) + L2, ("H",) + h, ("T",) + T2]))
            out.append(("ov", [("H",) + h] + [("T",) + T1] * 3))
    if th:
        T3, L3 = ((0, 3), (3, 0)), ((3, 0), (0, 3))
        for h in H:
            out.append(("ov", [("H",) + h, ("T",) + T3]))
            out.append(("ov", [("L",) + L3, ("H",) + h]))
        out.append(("ov", [("L",) + L3, ("T",) + T3]))
        out.append(("ov", [("L",) + L3, ("T",) + T1, ("T",) + T2]))
    return out


def cost(x):
    return sum(C.nlines(o[1:]) for o in x[1])


def jobs(tier):
    u = universe(tier)
    seen, v = set(), []
    for x in u:
        k = repr(x)
        if k not in seen:
            seen.add(k)
            v.append(x)
    v.sort(key=cost, reverse=True)
    return C.chunks(v, 480) + [[("tower", x)] for x in towers(tier)]


def towers(tier):
    """pairs of operators joined by up to n equal lines, n far beyond the enumerated universe: closed-form coefficients"""
    ns = [7, 8, 12, 13, 16, 17, 20, 21, 33, 34, 35, 60, 66, 99, 100, 101, 102, 130] if tier == "quick" else list(range(7, 161))
    return [(cfg, kind, n) for n in ns for cfg, kind in (("ov", "oh"), ("ov", "vp"), ("g", "gh"), ("g", "gp"))]


def tower_text(l, kind, n, k):
    """the term with the innermost k pairs contracted, without its coefficient"""
    u, p = ["%s%d" % (l, i) for i in range(n)], ["%s%d" % (l, i + n) for i in range(n)]
    # hole: a+(u0)...a+(u_n-1) a-(p_n-1)...a-(p0); particle: a-(u_n-1)...a-(u0) a+(p0)...a+(p_n-1)
    m = range(n - k, n) if kind == "h" else range(k)
    for i in m:
        p[i] = u[i]
    left = [i for i in range(n) if i not in m]
    c, a = (u, p) if kind == "h" else (p, u)
    ops = ["a+(%s)" % c[i] for i in left] + ["a-(%s)" % a[i] for i in left[::-1]]
    j = lambda x: ",".join(x)
    A, B = ("A^{}_{%s}" % j(u), "B^{%s}_{}" % j(p)) if kind == "h" else ("A^{%s}_{}" % j(u), "B^{}_{%s}" % j(p))
    return ("-" if kind == "p" and (n - k) % 2 else "+") + " ".join([A, B] + (["{"] + ops + ["}"] if ops else []))


def undensity(text, kind):
    """every one-body density between the two operators is replaced by a delta; None when there is another one"""
    m = re.match(r"^A\^\{(.*?)\}_\{(.*?)\} B\^\{(.*?)\}_\{(.*?)\}", text)
    if not m:
        return None
    A, B = [set(m.group(i).split(",")) for i in ((2, 3) if kind == "h" else (1, 4))]
    sub = {}
    for lab, x, y in re.findall(r" (\w+)\^\{(\w+)\}_\{(\w+)\}", text[m.end():]):
        x, y = (x, y) if kind == "h" else (y, x)
        if lab != ("gamma1" if kind == "h" else "eta1") or x not in A or y not in B or y in sub:
            return None
        sub[y] = x
    text = text[:m.end()] + re.sub(r" \w+\^\{\w+\}_\{\w+\}", "", text[m.end():])
    return None if len(set(sub.values())) < len(sub) else re.sub(r"g\d+", lambda i: sub.get(i.group(0), i.group(0)), text)


def tower_msg(w, cfg, kind, n):
    """one elementary contraction repeated k times: (n choose k)^2 k! / (n!)^2"""
    from math import comb, factorial
    C.spaces(w, cfg)
    l = kind[0]
    A, B = (["o+"] * n, ["o"] * n) if kind[1] == "h" else (["o"] * n, ["o+"] * n)
    A, B = " ".join(A).replace("o", l), " ".join(B).replace("o", l)
    P = w.op("A", [A]) @ w.op("B", [B])
    e = C.engine(w, n % 2 == 0, True, 1 if cfg == "g" else None)
    for k in sorted({0, 1, 2, n // 3, n // 2, n - 1, n} if n > 40 else set(range(n + 1))):
        vc.crumb(json.dumps(["tower", [cfg, kind, n]]))
        try:
            r = e.contract(P, 2 * (n - k), 2 * (n - k))
        except OverflowError as x:
            # (n!)^2 does not fit the 1024-bit integers of the library
            if n > 97:
                continue
            return "contract of two operators joined by %d of %d equal lines raises %s" % (k, n, x)
        want = F(comb(n, k) ** 2 * factorial(k), factorial(n) ** 2)
        m = re.match(r"^\+?(-?)(?:\d+(?:/\d+)? )?(A.*)$", str(r))
        t = m and (undensity(m.group(2), kind[1]) if l == "g" else m.group(2))
        d = ref.diff((m.group(1) or "+") + t, tower_text(l, kind[1], n, k)) if t else "not a single term with the right tensors"
        if d:
            return "contract of two operators joined by %d of %d equal lines (%s, %s) gives\n%s\n%s" % (k, n, cfg, kind, str(r)[:2000], d)
        if n > 97:      # the coefficient is not compared
            if len(r) != 1 or str(r).count("a-(") + str(r).count("a+(") != 2 * (n - k):
                return "contract of two operators joined by %d of %d equal lines gives %s" % (k, n, str(r)[:300])
            continue
        if len(r) != 1:
            return "contract(A{%s} @ B{%s}) with %d lines left gives %d terms, expected one" % (A, B, 2 * (n - k), len(r))
        m = re.match(r"^-?(?:(\d+)(?:/(\d+))? )?A", str(r))
        got = F(int(m.group(1) or 1), int(m.group(2) or 1)) if m else None
        if got != want:
            return "contract of two operators joined by %d of %d equal lines (%s, %s): coefficient %s, expected +-%s" % (k, n, cfg, kind, str(r)[:80], want)
    return None


def case_msg(w, cfg, ops, canon=True):
    labs = C.labels(cfg)
    e = C.engine(w, canon)
    n = sum(C.nlines(o[1:]) for o in ops)
    got = str(e.contract(C.make_product(w, labs, ops), 0, n))
    d, raw, nt = ref.check(C.spec(cfg, ops, 0, n), got)
    return (None if d == "" else "contract(%s) over %s:\n%s\nengine output:\n%s" % (" @ ".join("%s{%s}" % (o[0], C.comp_str(labs, *o[1:])) for o in ops), cfg, d, got)), raw, nt, got


def run(job, a):
    import wicked as w
    cur = None
    for cfg, ops in job:
        if cfg == "tower":
            msg = tower_msg(w, *ops)
            a.states += 1
            a.transitions += min(ops[2] + 1, 40)
            a.validated += min(ops[2] + 1, 40)
            a.count("towers")
            if msg:
                a.bad([cfg, ops], msg)
            continue
        if cfg != cur:
            C.spaces(w, cfg)
            cur = cfg
        vc.crumb(json.dumps([cfg, ops]))
        msg, raw, nt, got = case_msg(w, cfg, ops)
        a.states += 1
        a.transitions += raw
        a.validated += 1
        a.count("distinct_terms", nt)
        if nt > 3:
            a.sample("%s %s -> %s" % (cfg, ops, got.replace("\n", " ; ")[:300]))
        if msg:
            a.bad([cfg, ops], msg)


def replay(case):
    import wicked as w
    cfg, ops = case
    if cfg == "tower":
        return tower_msg(w, *ops)
    C.spaces(w, cfg)
    return case_msg(w, cfg, [tuple(o) for o in ops])[0]
