"""C26: contraction results are covariant under relabelling, reordering and symmetries of orbital spaces."""
import itertools, json, re
import common as C
import ref, vc

ID = "C26"
LEVEL = "model_checking"
TECHNIQUE = "bounded exhaustive enumeration on the real code of operator products x transformations (relabellings, registration orders, extra spaces, particle-hole conjugation, adjoint); the results are compared after mapping them back"
RULE = ("for every product of the universe and every transformation of the list (all permutations of the registration order of up to four spaces and transpositions and rotations of eight, relabellings of spaces and "
        "operators that change their alphabetical order and length, unused spaces of every type inserted at every position, exchange of particles and holes, adjoint, and combinations) the product is transformed, "
        "contracted by the real engine, the result is mapped back and must be the original result up to renaming summation indices and permutations of antisymmetric indices with their signs")
ASSUME = ["fermionic spaces (bosonic ones only as unused spaces)", "operator labels differ from those of the density cumulants"]
BIG = 99
KINDS = {"o": "occupied", "u": "unoccupied", "g": "general"}
# base configurations: (labels, kinds)
BASE = {"ov": ("ov", "ou"), "cav": ("cav", "ogu"), "g": ("g", "g"), "hg": ("hg", "gg"), "ovx": ("ovx", "ouo"), "og": ("og", "og"), "four": ("ovgh", "ougg"), "mix8": ("oupgqhwk", "ouoguugu"[:8])}
POOL = list("zyxwvutsrqponmlkjihgfedcbaZYXWVUTSRQPONMLKJIHGFEDCBA")
NAMES = [c + str(k) for c in "xyzw" for k in range(20)]


def tok(line):
    """coefficient text, tensors [(label, up, lo)], ops [(cre, index)], flag"""
    m = re.match(r"^([+-]?)(\d+(?:/\d+)?)?(?=\s|[A-Za-z{]|$)", line)
    if not m:
        raise ValueError(line)
    sgn, num = m[1] == "-", m[2] or "1"
    rest = line[m.end():]
    ts = [(l, u.split(",") if u else [], d.split(",") if d else []) for l, u, d in re.findall(r"([A-Za-z][A-Za-z0-9_]*)\^\{([^}]*)\}_\{([^}]*)\}", rest)]
    rest2 = re.sub(r"[A-Za-z][A-Za-z0-9_]*\^\{[^}]*\}_\{[^}]*\}", " ", rest)
    ops = [(c == "+", i) for c, i in re.findall(r"a([+-])\(([^)]*)\)", rest2)]
    left = re.sub(r"a[+-]\([^)]*\)", " ", rest2).replace("{", " ").replace("}", " ").strip()
    if left:
        raise ValueError(line)
    return sgn, num, ts, ops


def untok(sgn, num, ts, ops):
    return ("-" if sgn else "+") + num + " " + " ".join(["%s^{%s}_{%s}" % (l, ",".join(u), ",".join(d)) for l, u, d in ts] + ["a%s(%s)" % ("+" if c else "-", i) for c, i in ops])


class Tr:
    """a transformation: order = list of base space numbers and extra spaces ("+o"), lab = new labels of the base spaces, op = renaming of operator labels, ph, adj"""

    def __init__(self, base, d):
        labs, kinds = BASE[base]
        self.n = len(labs)
        self.labs, self.kinds = labs, kinds
        self.order = d.get("order", list(range(self.n)))
        self.lab = d.get("lab", labs)
        self.op = d.get("op", {})
        self.ph, self.adj = d.get("ph", False), d.get("adj", False)

    def register(self, w):
        w.reset_space()
        free = [c for c in POOL if c not in self.lab]
        self.reglabs, self.pos = "", {}
        swap = {"o": "u", "u": "o", "g": "g"}
        for q, s in enumerate(self.order):
            if isinstance(s, str):
                l, k, f = free.pop(), s[1], "boson" if len(s) > 2 else "fermion"
            else:
                l, k, f = self.lab[s], swap[self.kinds[s]] if self.ph else self.kinds[s], "fermion"
                self.pos[s] = q
            self.reglabs += l
            w.add_space(l, f, KINDS[k], NAMES[4 * q:4 * q + 4])

    def ops(self, ops):
        out = []
        for l, cre, ann in ops:
            c, a = [0] * len(self.order), [0] * len(self.order)
            for s in range(self.n):
                c[self.pos[s]], a[self.pos[s]] = cre[s], ann[s]
            if self.ph != self.adj:
                c, a = a, c
            out.append((self.op.get(l, l), c, a))
        return out[::-1] if self.adj else out

    def sign(self, ops):
        s = 1
        if self.ph:
            for l, c, a in ops:
                n = sum(c) + sum(a)
                s *= (-1) ** (n * (n - 1) // 2)
        return s

    def back(self, text, sign):
        """map the text of the transformed result to the base"""
        inv = {n: o for o, n in zip(self.labs, self.lab)}
        iop = {n: o for o, n in self.op.items()}
        ix = lambda i: inv[i[0]] + i[1:]
        out = []
        for line in str(text).split("\n"):
            if not line:
                continue
            sgn, num, ts, ops = tok(line)
            if sign < 0:
                sgn = not sgn
            nt = []
            for l, u, d in ts:
                m = re.fullmatch(r"lambda(\d+)", l)
                dens = m or l in ("gamma1", "eta1")
                u, d = [ix(i) for i in u], [ix(i) for i in d]
                if self.ph != self.adj:
                    u, d = d, u
                if self.ph:
                    if m and int(m[1]) % 2:
                        sgn = not sgn
                    l = {"gamma1": "eta1", "eta1": "gamma1"}.get(l, l)
                nt.append((l if dens else iop.get(l, l), u, d))
            no = [(c != (self.ph != self.adj), ix(i)) for c, i in ops]
            if self.adj:
                no.reverse()
            out.append(untok(sgn, num, nt, no))
        return "\n".join(out)


def result(w, tr, ops, win, mc, canon):
    e = C.engine(w, canon, True, mc)
    if len(ops[0]) == 2:  # sums: (label, [(cre, ann), ...])
        fs = []
        for l, comps in ops:
            # "AB": a sum of operators with different labels
            f = None
            for m in l:
                c = [tr.ops([(m, x[0], x[1])])[0] for x in comps]
                g = w.op(c[0][0], [C.comp_str(tr.reglabs, x[1], x[2]) for x in c])
                f = g if f is None else f + g
            fs.append(f)
        p = fs[-1] if tr.adj else fs[0]
        for f in (fs[::-1] if tr.adj else fs)[1:]:
            p = p @ f
        return e.contract(p, win[0], win[1])
    p = C.make_product(w, tr.reglabs, tr.ops(ops))
    return e.contract(p, win[0], win[1])


def compare(w, base, ops, win, mc, canon, ds):
    """-> first failure (transformation, message), number of terms"""
    t0 = Tr(base, {})
    t0.register(w)
    a = t0.back(result(w, t0, ops, win, mc, canon), 1)
    for d in ds:
        t = Tr(base, d)
        t.register(w)
        r = result(w, t, ops, win, mc, canon)
        b = t.back(r, t.sign(ops) if len(ops[0]) == 3 else 1)
        m = ref.diff(a, b)
        if m:
            return d, "the product %s, rank window %s, transformed by %s:\n%sresult\n%s\nmapped back\n%s\noriginal result\n%s" % (ops, win, d, m, r, b, a), 0
    return None, None, a.count("\n") + bool(a)


# ---------------------------------------------------------------- enumeration
def trafos(base, tier):
    """the transformations of a base configuration"""
    labs, kinds = BASE[base]
    n = len(labs)
    th = tier == "thorough"
    perms = [list(p) for p in itertools.permutations(range(n))] if n < 5 else \
        [list(range(n))[k:] + list(range(n))[:k] for k in range(n)] + [[(j if i == k else k if i == j else i) for i in range(n)] for k, j in itertools.combinations(range(n), 2)] + [list(range(n))[::-1]]
    perms = [p for p in perms if p != list(range(n))]
    relab = ["".join(POOL[(7 * k + 3) % 52] for k in range(n)), "".join(POOL[-1 - k] for k in range(n)), "".join(sorted(labs, reverse=True)), "ZaYbXcWd"[:n]]
    opn = [dict(zip("ABCD", x)) for x in (("D", "C", "B", "A"), ("Z", "a", "M9", "b"), ("A1", "A12", "A2", "A"), ("zz", "z", "y", "x"), ("AA", "A", "AAA", "B"), ("ab", "AB", "aB", "Ab"),
                                          ("LongOperatorLabelNumber1", "LongOperatorLabelNumber2", "LongOperatorLabelNumber", "LongOperatorLabelNumber10"))]
    extra = [list(range(k)) + [e] + list(range(k, n)) for k in range(n + 1) for e in ("+o", "+u", "+g", "+ub")] if n < 8 else []
    extra += [["+g"] + list(range(n)) + ["+o", "+ub"], [x for k in range(n) for x in ("+u", k)]] if n < 5 else []
    out = [dict(order=p) for p in perms] + [dict(lab=l) for l in relab] + [dict(op=o) for o in opn] + [dict(order=x) for x in extra if len(x) <= 8]
    out += [dict(ph=True), dict(adj=True), dict(ph=True, adj=True)]
    out += [dict(order=perms[k % len(perms)] if perms else [0], lab=relab[k % 4], op=opn[k % 5], ph=bool(k & 1), adj=bool(k & 2)) for k in range(len(opn) * (2 if th else 1))]
    return out


def universe(tier):
    th = tier == "thorough"
    out = []

    def pairs(base, nmax, tot):
        U = C.comps_upto(len(BASE[base][0]), nmax)
        for a, b in itertools.product(U, repeat=2):
            if C.nlines(a) + C.nlines(b) <= tot:
                out.append((base, [("A",) + a, ("B",) + b]))
                if C.nlines(a) and C.nlines(b) and a != b:
                    out.append((base, [("A",) + a, ("A",) + b]))

    def triples(base, nmax, tot, pats=((0, 1, 2), (0, 1, 0), (0, 0, 0))):
        U = [c for c in C.comps_upto(len(BASE[base][0]), nmax) if C.nlines(c)]
        for t in itertools.product(U, repeat=3):
            if sum(map(C.nlines, t)) <= tot:
                for p in pats:
                    out.append((base, [("ABC"[i],) + c for i, c in zip(p, t)]))
    pairs("ov", 4 if th else 3, 8 if th else 6)
    pairs("cav", 2, 4)
    pairs("g", 6 if th else 4, 10 if th else 8)
    pairs("hg", 3, 6 if th else 5)
    pairs("ovx", 2, 4)
    pairs("og", 3, 6 if th else 5)
    triples("ov", 2, 6 if th else 4)
    triples("g", 2, 6)
    triples("hg", 2, 4 if not th else 5)
    triples("og", 2, 4 if not th else 5)
    if th:
        triples("cav", 2, 4, ((0, 1, 2), (0, 1, 0)))
    U = C.comps_upto(4, 2)
    for a, b in itertools.product(U, repeat=2):
        if C.nlines(a) + C.nlines(b) <= 4 and (th or a[0] == b[1] or C.nlines(a) + C.nlines(b) <= 2):
            out.append(("four", [("A",) + a, ("B",) + b]))
    U = C.comps_upto(8, 2 if th else 1)
    for a, b in itertools.product(U, repeat=2):
        if th and C.nlines(a) == 2 and not (a[0] == b[1] or a[1] == b[0]):
            continue
        out.append(("mix8", [("A",) + a, ("B",) + b]))
    for a in C.comps_upto(8, 2):
        if C.nlines(a) == 2:
            out.append(("mix8", [("A",) + a, ("B", a[1], a[0])]))
    # realistic shapes
    e1, e2, d1, d2 = ((0, 1), (1, 0)), ((0, 2), (2, 0)), ((1, 0), (0, 1)), ((2, 0), (0, 2))
    for h in (d1, d2, ((1, 1), (1, 1)), ((0, 2), (0, 2)), ((2, 0), (2, 0)), ((1, 1), (0, 2)), ((1, 0), (1, 0)), ((0, 2), (1, 1))):
        for q in ([e1], [e2], [e1, e1], [e2, e1], [e2, e2] if th else [e1, e2]):
            out.append(("ov", [("H",) + h] + [("T",) + t for t in q]))
    return out


def sums(tier):
    """products of sums of operators: no transformation may merge or lose components"""
    for base in BASE:
        n = len(BASE[base][0])
        one = [c for c in C.comps_upto(n, 2) if C.nlines(c) == 1]
        two = [c for c in C.comps_upto(n, 2) if C.nlines(c) == 2]
        ex = [c for c in two if sum(c[0]) == 1]
        if n == 8:
            two = [c for k, c in enumerate(two) if k % 3 == 0]
        for fs in ([("A", one)], [("A", two)], [("A", one), ("B", one)], [("A", ex), ("B", ex)], [("A", one), ("B", one), ("A", one)], [("A", ex[::-1]), ("A", ex[1:])],
                   [("A", two), ("B", one)], [("A", two[::2]), ("B", two[1::2])], [("AB", one)], [("ABCD", two[:4]), ("A", one[:4])], [("BA", one), ("AC", one)], [("AB", ex), ("DA", ex)]):
            if all(f[1] for f in fs) and (len(fs) * sum(len(f[1]) for f in fs) < (40 if n < 8 else 70) * (3 if tier == "thorough" else 1) or len(fs) == 1):
                yield base, fs


CASES = []


def cases(tier):
    u = universe(tier)
    for k, (base, ops) in enumerate(u):
        win = [(0, BIG), (0, 0), (2, 2), (0, 4), (1, BIG)][k % 5 if k % 3 else 0]
        T = trafos(base, tier)
        yield [base, ops, win, BIG if k % 4 else 2, k % 2 == 0, T]
    for k, (base, fs) in enumerate(sums(tier)):
        yield [base, fs, (0, BIG), BIG, k % 2 == 0, [d for d in trafos(base, tier) if not d.get("ph")]]


def jobs(tier):
    n = 400 if tier == "thorough" else 120
    CASES[:] = list(cases(tier))
    return [[tier, i, n] for i in range(n)]


def run(job, a):
    import wicked as w
    tier, i, n = job
    for c in CASES[i::n]:
        vc.crumb(json.dumps(c))
        d, m, nt = compare(w, *c)
        a.states += 1
        a.transitions += len(c[5])
        a.validated += len(c[5])
        a.count("products over " + c[0])
        a.count("terms of the original results", nt)
        if nt and len(c[5]):
            a.sample(json.dumps(c[:5])[:300])
        if m:
            a.bad(c[:5] + [[d]], m)


def replay(case):
    import wicked as w
    base, ops, win, mc, canon, ds = case
    return compare(w, base, [tuple(o) if len(o) == 2 else (o[0], tuple(o[1]), tuple(o[2])) for o in ops], win, mc, canon, ds)[1]
