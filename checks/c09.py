"""C09: canonical form is stable and merges equal terms."""
import itertools, json
import common as C
import terms as T
import c08, ref, vc

ID = "C09"
LEVEL = "model_checking"
TECHNIQUE = "bounded exhaustive enumeration of terms and of all their equivalent presentations on the real code"
RULE = ("for every term of the enumeration of C08 the canonical form is canonicalized again and must not change; for every term whose tensors are "
        "distinguishable and that does not vanish by symmetry, every renaming of its summation indices, every order of its tensors and operators, every symmetry permutation of indices "
        "connecting the same partners and combinations of them are subtracted with their sign: the canonical form of the difference must be empty, and that of the sum twice the term; "
        "canonicalization of sums and scalar multiples is compared with sums and multiples of canonical forms for all pairs and triples of a basis in every order of addition")
ASSUME = ["distinguishable: different label or different numbers of upper or lower indices in some space; terms up to the bounds of the evidence",
          "names of operator indices that appear on no tensor are kept as they are"]


def jobs(tier):
    b = c08.blocks(tier)
    b = [x + (1,) for x in b]
    if tier == "quick":
        b = [x for x in b if x[4] <= 4 or x[4] == 8 and x[1] == "ov"]
    b.sort(key=lambda x: (x[1], -x[4]))
    out = [["terms", x] for x in C.chunks(b, 400)]
    out += [["sums", cfg, i, 24, tier] for cfg in ("ov", "fb") for i in range(24)]
    out += [["large", cfg, 12 if tier == "thorough" else 7, i, n] for cfg, n in (("ov", 24), ("g", 8), ("ovx", 24)) for i in range(n)]
    return out


def check_large(w, B, cfg, t):
    e = B.expr([(t, None)])
    g = ref.graph(str(e))
    e.canonicalize()
    a = str(e)
    e.canonicalize()
    if str(e) != a:
        return "canonicalizing again changes the canonical form:\n%s\n%s\n%s" % (T.text(t), a, e), 1
    if not T.distinguishable(t, C.labels(cfg)) or not g.strip():
        return None, 1
    vs = list(T.large_presentations(t)) + list(swaps(t))[:60]
    m = merges(w, B, t, vs)
    if m:
        for v, s in vs:
            m2 = merges(w, B, t, [(t, 1), (v, s)])
            if m2:
                return m2, len(vs)
    return m, len(vs)


def renamings(term):
    """maps on the indices that occur on tensors (injective per space, avoiding names of operator-only indices)"""
    ont = sorted({i for _, u, d in term[0] for i in u + d})
    onop = {i for _, i in term[1]} - set(ont)
    bysp = {}
    for i in ont:
        bysp.setdefault(i[0], []).append(i)
    parts = []
    for s, v in bysp.items():
        names = sorted({i[1] for i in v} | {0, 7})
        names = [x for x in names if (s, x) not in onop]
        if len(v) > 3:
            # all permutations of the names in use only
            names = [i[1] for i in v]
        parts.append([list(zip(v, [(s, x) for x in p])) for p in itertools.permutations(names, len(v))][:40])
    for c in itertools.product(*parts):
        yield dict(x for y in c for x in y)


def rename(term, m):
    f = lambda i: m.get(i, i)
    return (tuple((l, tuple(map(f, u)), tuple(map(f, d))) for l, u, d in term[0]), tuple((c, f(i)) for c, i in term[1]), term[2])


def occurrences(term):
    occ = {}
    for k, (l, u, d) in enumerate(term[0]):
        for i in u:
            occ.setdefault(i, []).append((k, 0))
        for i in d:
            occ.setdefault(i, []).append((k, 1))
    for c, i in term[1]:
        occ.setdefault(i, []).append(("op", c))
    return occ


def swaps(term):
    """(variant, sign): exchange of two equivalent indices in one tensor list"""
    occ = occurrences(term)
    for k, t in enumerate(term[0]):
        for side in (0, 1):
            v = t[1 + side]
            for a in range(len(v)):
                for b in range(a + 1, len(v)):
                    if v[a] != v[b] and v[a][0] == v[b][0] and len(occ[v[a]]) == 2 and occ[v[a]] == occ[v[b]] and occ[v[a]].count((k, side)) == 1:
                        nv = list(v)
                        nv[a], nv[b] = nv[b], nv[a]
                        nt = list(t)
                        nt[1 + side] = tuple(nv)
                        yield (term[0][:k] + (tuple(nt),) + term[0][k + 1:], term[1], term[2]), -1 if c08.SYM.get(t[0], "A") == "A" else 1


def orders(term):
    for p in itertools.permutations(term[0]):
        if p != term[0]:
            yield (p, term[1], term[2]), 1


def oporders(term, bos):
    n = len(term[1])
    for p in itertools.permutations(range(n)):
        s = 1
        for i in range(n):
            for j in range(i + 1, n):
                if p[i] > p[j] and term[1][p[i]][1][0] not in bos and term[1][p[j]][1][0] not in bos:
                    s = -s
        if list(p) != list(range(n)):
            yield (term[0], tuple(term[1][k] for k in p), term[2]), s


def variants(term, bos):
    R = [(rename(term, m), 1) for m in renamings(term)]
    O, S, P = list(orders(term)), list(swaps(term)), list(oporders(term, bos))
    out = R + O + S + P
    # combinations: every renaming followed by one order, one exchange and one operator order
    for k, (t, s) in enumerate(R):
        for gen in (orders, swaps, lambda x: oporders(x, bos)):
            l = list(gen(t))
            if l:
                t, s2 = l[(k * 7) % len(l)]
                s *= s2
        out.append((t, s))
    return out


def merges(w, B, t, vs):
    """the average of all signed presentations of t is t, and the differences cancel"""
    R = w.rational
    x = B.expr([(t, None)])
    x.canonicalize()
    n = len(vs)
    e = B.expr([(v, R(s, n)) for v, s in vs])
    e.canonicalize()
    if str(e) != str(x) or len(e) != 1:
        return "equal terms do not merge: the average of the presentations of %s is\n%s\ninstead of\n%s\npresentations: %s" % (
            T.text(t), e, x, "; ".join("%+d %s" % (s, T.text(v)) for v, s in vs[:12]))
    e = B.expr([(t, R(-3 * n, 2))] + [(v, R(3 * s, 2)) for v, s in vs])
    e.canonicalize()
    if len(e):
        return "equal terms do not cancel: the presentations of %s minus their number times the term leave\n%s" % (T.text(t), e)
    return None


def check(w, B, cfg, t):
    """-> message, number of variants"""
    e = B.expr([(t, None)])
    e.canonicalize()
    a = str(e)
    e.canonicalize()
    if str(e) != a:
        return "canonicalizing again changes the canonical form:\n%s\n%s\n%s" % (T.text(t), a, e), 1
    bos = c08.BOS.get(cfg, ())
    if not T.distinguishable(t, C.labels(cfg)) or not ref.brute(a, c08.SYMS, 3).strip():
        return None, 1
    vs = variants(t, bos)
    m = merges(w, B, t, vs)
    if m:
        # the shortest failing presentation
        for v, s in vs:
            m2 = merges(w, B, t, [(t, 1), (v, s)])
            if m2:
                return m2, len(vs)
    return m, len(vs)


def sums(w, B, cfg, i, n, tier, a):
    bs = c08.basis(cfg)[:: 2 if tier == "thorough" else 6]
    R = w.rational
    cs = [R(1, 1), R(-1, 2), R(2, 3), R(-1, 1), w.make_rational("-1/1000000000000000000000000000000")]
    trip = list(itertools.combinations(range(len(bs)), 2)) + list(itertools.combinations(range(len(bs)), 3))
    canon = {}

    def can(k):
        if k not in canon:
            e = B.expr([(bs[k], None)])
            e.canonicalize()
            canon[k] = e
        return canon[k]
    for x in trip[i::n]:
        case = ["s", cfg, list(x)]
        vc.crumb(json.dumps(case))
        m = sumcheck(w, B, bs, x, cs, can)
        a.states += 1
        a.transitions += 7
        a.validated += 7
        if m:
            a.bad([*case, tier], m)


def sumcheck(w, B, bs, x, cs, can):
    terms = [(bs[k], cs[(k + j) % 5]) for j, k in enumerate(x)]
    texts = set()
    for p in itertools.permutations(terms):
        e = B.expr(list(p))
        e.canonicalize()
        texts.add(str(e))
    if len(texts) != 1:
        return "the canonical form depends on the order of addition of %s:\n%s" % ([T.text(t) for t, _ in terms], "\n---\n".join(sorted(texts)))
    s = w.Expression()
    for (t, c), k in zip(terms, x):
        s = s + can(k) * c
    txt = texts.pop()
    if str(s) != txt:
        return "canonicalization does not commute with sums and multiples:\ncanonical form of the sum\n%s\nsum of the canonical forms\n%s" % (txt, s)
    s.canonicalize()
    if str(s) != txt:
        return "canonicalizing again changes\n%s\nto\n%s" % (txt, s)
    return None


def run(job, a):
    if job[0] == "terms":
        cur = None
        for b in job[1]:
            if b[1] != cur:
                cur = b[1]
                w, B = c08.builder(cur)
            for k, t in enumerate(c08.expand(b)):
                if b[4] == 8 and k % b[5]:
                    continue
                case = ["t", cur, t]
                vc.crumb(json.dumps(case))
                m, n = check(w, B, cur, t)
                a.states += 1
                a.transitions += n
                a.validated += n
                if n > 30:
                    a.sample("%s: %d equivalent presentations merged" % (T.text(t), n))
                if m:
                    a.bad(case, m)
    elif job[0] == "large":
        w, B = c08.builder(job[1])
        for name, t in list(T.large(C.labels(job[1]), job[2]))[job[3]::job[4]]:
            case = ["l", job[1], t]
            vc.crumb(json.dumps(case))
            m, n = check_large(w, B, job[1], t)
            a.states += 1
            a.transitions += n
            a.validated += n
            a.count("large terms")
            if m:
                a.bad(case, m)
    else:
        w, B = c08.builder(job[1])
        sums(w, B, *job[1:], a)


def replay(case):
    w, B = c08.builder(case[1])
    if case[0] == "t":
        return check(w, B, case[1], c08.unj(case[2]))[0]
    if case[0] == "l":
        return check_large(w, B, case[1], c08.unj(case[2]))[0]
    bs = c08.basis(case[1])[:: 2 if case[3] == "thorough" else 6]

    def can(k):
        e = B.expr([(bs[k], None)])
        e.canonicalize()
        return e
    R = w.rational
    return sumcheck(w, B, bs, case[2], [R(1, 1), R(-1, 2), R(2, 3), R(-1, 1), w.make_rational("-1/1000000000000000000000000000000")], can)
