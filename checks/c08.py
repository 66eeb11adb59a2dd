"""C08: Expression.canonicalize preserves the denoted operator."""
import itertools, json
import common as C
import terms as T
import ref, vc

ID = "C08"
LEVEL = "model_checking"
TECHNIQUE = "bounded exhaustive enumeration of symbolic terms on the real code against a brute-force model of their value"
RULE = ("all terms of antisymmetric/symmetric tensors and normal-ordered operators with up to N index slots and every assignment of indices from a pool that "
        "includes numbers above the first free one, all pairings and space assignments of closed terms with 6-8 slots, and all two-term sums over a basis, are "
        "chains, rings, stars, ladders, complete graphs and blocks of up to 8 [12] tensors and 120 index slots in many presentations, are canonicalized; the printed result is compared with the printed input in a model that sums over all indices by enumerating index renamings; terms "
        "with a nonsymmetric tensor at every position must be rejected and left unchanged")
ASSUME = ["terms up to the bounds of the evidence; the value of a term is the sum over all its indices"]
SYM = dict(A="A", B="A", C="A", S="S", N="N")
SYMS = "S=S N=N"
POOL = {"ov": [("o", 0), ("o", 1), ("v", 0), ("v", 3)], "fb": [("f", 0), ("f", 1), ("b", 0), ("b", 1)], "g": [("g", 1), ("g", 0), ("g", 5)]}
BOS = {"fb": ("b",)}


def blocks(tier):
    """(kind, cfg, arg...)"""
    th = tier == "thorough"
    out = []
    for cfg in ("ov", "fb", "g"):
        p = len(POOL[cfg])
        for n in range(0, 7 if th else 6):
            for k, sh in enumerate(T.shapes(n, "AS" if n < 5 or th else "AB", 3 if n < 6 else 2, 3)):
                if n == 6 and cfg != "g":
                    continue
                out.append(("pool", cfg, sh, p if n < 5 or th else min(p, 3), n))
    for cfg in ("ov", "fb", "g", "ovx"):
        for k, sh in enumerate(T.BIG):
            out.append(("closed", cfg, sh, 0, 8))
    return out


def jobs(tier):
    b = blocks(tier)
    b.sort(key=lambda x: (x[1], -x[4]))
    out = [["terms", x] for x in C.chunks(b, 400)]
    nb = len(basis("ov"))
    out += [["sums", cfg, list(range(i, nb, 16)), tier] for cfg in ("ov", "fb") for i in range(16)]
    out += [["reject", cfg] for cfg in ("ov", "fb")]
    out += [["large", cfg, 12 if tier == "thorough" else 8, i, n] for cfg, n in (("ov", 12), ("g", 6), ("ovx", 12)) for i in range(n)]
    return out


def check_large(B, t, i, vs=None):
    """presentation i of a large term: compared as graphs (all lines connect two tensors or a tensor and an operator)"""
    v, s = (vs or list(T.large_presentations(t)))[i]
    e = B.expr([(t, None), (v, B.w.rational(3 * s, 1))])
    before = B.expr([(t, None)])
    text = str(before * B.w.rational(4, 1))
    x = B.expr([(v, B.w.rational(s, 1))])
    vt = str(x)
    x.canonicalize()
    e.canonicalize()
    for got, want, what in ((x, str(before), vt), (e, text, "%s plus 3 times %s" % (before, vt))):
        d = ref.diff(str(got), want)
        if d:
            return "canonicalize changed the value:\n%s\nbecame\n%s\n(%s)" % (what, got, d)
        if not flagged(str(got)):
            return "canonicalize lost the normal-ordered flag:\n%s\nbecame\n%s" % (what, got)
    return None


def expand(b):
    kind, cfg, sh, p = b[:4]
    sh = (tuple(tuple(x) for x in sh[0]), tuple(sh[1]))
    if kind == "pool":
        for sl in itertools.product(POOL[cfg][:p], repeat=T.nslots(sh)):
            yield T.fill(sh, sl)
    else:
        yield from T.closed(sh, C.labels(cfg))


_b = {}


def builder(cfg):
    import wicked as w
    C.spaces(w, cfg)
    if cfg not in _b:
        _b[cfg] = T.Builder(w, C.labels(cfg), SYM)
    return w, _b[cfg]


def basis(cfg):
    """terms used in sums: canonical and non-canonical presentations of few operators"""
    p = POOL[cfg]
    out = [((), (), True)]
    for sh in T.shapes(1, "A", 1, 1) + T.shapes(2, "AS", 2, 2) + [((("A", 1, 1),), (True, False)), ((("A", 1, 1),), (False, True)), ((("A", 2, 0),), (True, True))]:
        n = T.nslots(sh)
        if n <= 2:
            for sl in itertools.product(p[:3], repeat=n):
                out.append(T.fill(sh, sl))
        else:
            for sl in ((0, 2, 0, 2), (1, 2, 1, 2), (0, 2, 2, 0), (0, 1, 0, 1), (1, 0, 0, 1), (0, 1, 1, 0)):
                out.append(T.fill(sh, [p[i] for i in sl]))
    return out


def flagged(txt):
    """every term with operators carries the normal-ordered braces"""
    return all(("{ " in l and " }" in l) == ("(" in l) for l in txt.split("\n") if l)


def check_terms(B, terms, mode=3):
    e = B.expr(terms)
    before = str(e)
    r = e.canonicalize()
    after = str(e)
    if str(r) != after:
        return "canonicalize returned\n%s\nbut the expression is\n%s" % (r, after), after
    d = ref.bdiff(before, after, SYMS, mode)
    if d:
        return "canonicalize changed the value:\n%s\nbecame\n%s\n(%s)" % (before, after, d), after
    if not flagged(after):
        return "canonicalize lost the normal-ordered flag:\n%s\nbecame\n%s" % (before, after), after
    return None, after


def check_reject(w, B, terms):
    e = B.expr(terms)
    before = str(e)
    try:
        e.canonicalize()
    except Exception as x:
        if str(e) != before:
            return "a rejected canonicalization changed the expression:\n%s\nbecame\n%s" % (before, e)
        if not (e == B.expr(terms)):
            return "a rejected canonicalization changed the expression %s (no longer equal)" % before
        return None
    return "an expression with a nonsymmetric tensor was canonicalized instead of rejected: %s -> %s" % (before, e)


def run(job, a):
    import wicked as w
    if job[0] == "terms":
        cur = None
        for b in job[1]:
            if b[1] != cur:
                cur = b[1]
                w, B = builder(cur)
            for t in expand(b):
                case = ["t", cur, [[t, None]]]
                vc.crumb(json.dumps(case))
                m, after = check_terms(B, [(t, None)])
                a.states += 1
                a.transitions += 2   # building the expression and canonicalizing it
                a.validated += 1
                if b[4] > 4:
                    a.sample("%s -> %s" % (T.text(t), after))
                if m:
                    a.bad(case, m)
    elif job[0] == "large":
        w, B = builder(job[1])
        for name, t in list(T.large(C.labels(job[1]), job[2]))[job[3]::job[4]]:
            vs = list(T.large_presentations(t))
            n = len(vs)
            for i in range(n):
                case = ["l", job[1], t, i]
                vc.crumb(json.dumps(case))
                m = check_large(B, t, i, vs)
                a.states += 1
                a.transitions += 2
                a.validated += 2
                if m:
                    a.bad(case, m)
                    break
            a.count("large terms")
            a.sample("%s of %d tensors, %d presentations" % (name, len(t[0]), n))
    elif job[0] == "sums":
        w, B = builder(job[1])
        bs = basis(job[1])
        R = w.rational
        cs = [(R(1, 1), R(-1, 1)), (R(1, 2), R(1, 3)), (R(-2, 3), R(2, 3)), (w.make_rational("1/" + "1" + 30 * "0"), w.make_rational("1" + 20 * "0"))]
        ci = [((1, 1), (-1, 1)), ((1, 2), (1, 3)), ((-2, 3), (2, 3)), ((1, 10 ** 30), (10 ** 20, 1))]
        for i in job[2]:
            for j in range(len(bs)):
                k = (i + j) % 4
                case = ["t", job[1], [[bs[i], ci[k][0]], [bs[j], ci[k][1]]]]
                vc.crumb(json.dumps(case))
                m, after = check_terms(B, [(bs[i], cs[k][0]), (bs[j], cs[k][1])])
                a.states += 1
                a.transitions += 3
                a.validated += 1
                if m:
                    a.bad(case, m)
    else:
        w, B = builder(job[1])
        p = POOL[job[1]]
        for n in (1, 2, 3):
            for sh in T.shapes(n, "AN", 3, 2):
                if not any(x[0] == "N" for x in sh[0]):
                    continue
                for sl in itertools.product(p[:3], repeat=n):
                    t = T.fill(sh, sl)
                    # alone, and before/after a term that can be canonicalized and would change
                    for extra in ([], [((("A", (p[1],), (p[0],)),), (), True)], [((("Z", (p[1],), (p[1],)), ("A", (p[1],), (p[1],))), (), True)]):
                        terms = [(t, None)] + [(x, None) for x in extra]
                        case = ["r", job[1], [[x, None] for x, _ in terms]]
                        vc.crumb(json.dumps(case))
                        m = check_reject(w, B, terms)
                        a.states += 1
                        a.transitions += len(terms) + 1
                        a.validated += 1
                        a.count("rejections")
                        if m:
                            a.bad(case, m)


def unj(t):
    return (tuple((l, tuple(map(tuple, u)), tuple(map(tuple, d))) for l, u, d in t[0]), tuple((c, tuple(i)) for c, i in t[1]), t[2])


def replay(case):
    w, B = builder(case[1])
    if case[0] == "l":
        return check_large(B, unj(case[2]), case[3])
    terms = [(unj(t), None if c is None else w.make_rational("%d/%d" % tuple(c))) for t, c in case[2]]
    return check_terms(B, terms)[0] if case[0] == "t" else check_reject(w, B, terms)
