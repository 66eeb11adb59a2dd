"""C02: generalized Wick contraction over general (correlated) spaces."""
import itertools, json
from fractions import Fraction as F
import common as C
import fock, ref, vc

ID = "C02"
LEVEL = "model_checking"
RULE = ("(i) every operator product of the stated universe is contracted by the real engine for each cumulant level and compared with an "
        "enumeration of all sets of elementary contractions of individual operators; (ii) for every tuple of normal-ordered monomials over a few "
        "orbitals, the engine's result is evaluated on a correlated mixed reference state and compared, matrix element by matrix element, with "
        "the operator product in Fock space")
ASSUME = ["fermionic spaces only", "bounds on the number of factors, lines per factor and orbitals as listed in DESIGN.md"]
L = "ABCD"


def universe(tier):
    th = tier == "thorough"
    out = []   # (cfg, ops, maxcum)

    def pairs(cfg, nmax, tot, mcs, pats=((0, 1), (0, 0))):
        U = C.comps_upto(len(C.CFG[cfg]), nmax)
        for a in U:
            for b in U:
                if C.nlines(a) + C.nlines(b) <= tot:
                    for p in pats:
                        for mc in mcs:
                            out.append((cfg, [(L[p[0]],) + a, (L[p[1]],) + b], mc))

    def triples(cfg, nmax, tot, mcs, pats):
        U = C.comps_upto(len(C.CFG[cfg]), nmax)
        for a in U:
            for b in U:
                for c in U:
                    if 2 <= C.nlines(a) + C.nlines(b) + C.nlines(c) <= tot:
                        for p in pats:
                            for mc in mcs:
                                out.append((cfg, [(L[p[0]],) + a, (L[p[1]],) + b, (L[p[2]],) + c], mc))
    big = 99
    pairs("g", 6 if th else 4, 10 if th else 8, (1, 2, 3, 4, big))
    pairs("hg", 4 if th else 3, 6, (1, 2, big))
    pairs("og", 4 if th else 3, 6, (1, 2, big))
    pairs("vg", 4 if th else 3, 6, (1, 2, big))
    pairs("cav", 4 if th else 3, 6 if th else 5, (2, big), ((0, 1), (0, 0)) if th else ((0, 1),))
    pats = C.set_partitions(3) + [(1, 0, 2), (2, 1, 0), (1, 0, 0)]
    triples("g", 4 if th else 3, 9 if th else 7, (1, 2, big), pats)
    triples("og", 3 if th else 2, 6 if th else 5, (2, big), pats[:3] if not th else pats)
    triples("hg", 2, 6 if th else 5, (big,), pats[:3] if not th else pats)
    triples("cav", 2, 6 if th else 4, (big,), pats[:2] if not th else pats)
    U = [c for c in C.comps_upto(1, 4 if th else 2) if C.nlines(c)]
    for q in itertools.product(U, repeat=4):
        if sum(map(C.nlines, q)) > (10 if th else 8):
            continue
        for p in C.set_partitions(4) if sum(map(C.nlines, q)) <= 8 else [(0, 1, 2, 3), (0, 0, 0, 0)]:
            for mc in ((2, big) if th else (big,)):
                out.append(("g", [(L[p[i]],) + q[i] for i in range(4)], mc))
    # five and six operators with one or two lines: cumulants spread over many operators
    for n in (5, 6):
        one = [((1,), (0,)), ((0,), (1,))]
        two = one + [((1,), (1,))] if n == 5 else one
        for q in itertools.product(two, repeat=n):
            if sum(map(C.nlines, q)) <= 6 and (th or sum(map(C.nlines, q)) < 6 or sum(c[0][0] for c in q) == 3):
                for p in ((0, 1, 2, 3, 4, 5), (0, 0, 0, 0, 0, 0), (5, 1, 3, 0, 1, 2)):
                    out.append(("g", [("ABCDEF"[p[i]],) + q[i] for i in range(n)], big))
    # cumulants of many bodies
    many = [[((n,), (0,)), ((0,), (n,))] for n in range(5, 8 if th else 7)]
    many += [[((5,), (1,)), ((1,), (5,))], [((6,), (0,)), ((0,), (3,)), ((0,), (3,))], [((4,), (0,)), ((2,), (0,)), ((0,), (6,))], [((0,), (6,)), ((6,), (0,))],
             [((2,), (0,)), ((0,), (6,)), ((4,), (0,))], [((6,), (1,)), ((0,), (5,))]]
    for q in many:
        for mc in (3, 4, 5, 6, big) if th else (4, 5, big):
            out.append(("g", [("ABC"[i],) + c for i, c in enumerate(q)], mc))
    # eight spaces, and four general spaces
    U = C.comps_upto(8, 2)
    for a in U:
        for b in U:
            m = C.nlines(a) + C.nlines(b)
            if th or m <= 3 and {k for k in (3, 5, 7) if a[0][k] + a[1][k] + b[0][k] + b[1][k]} or a == (b[1], b[0]):
                for p in ((0, 1), (1, 0)):
                    out.append(("mix8", [(L[p[0]],) + a, (L[p[1]],) + b], big))
    U = C.comps_upto(4, 2)
    for a in U:
        for b in U:
            if th or C.nlines(a) + C.nlines(b) <= 3 or a[1] == b[0]:
                for p in ((0, 1), (1, 0)):
                    out.append(("gg4", [(L[p[0]],) + a, (L[p[1]],) + b], big))
    U = C.comps_upto(2, 2)
    for cfg, ns, pos in (("mix8", 8, (3, 7)), ("mix8", 8, (5, 6)), ("gg4", 4, (3, 1))):
        for t in itertools.product(U, repeat=3):
            if 3 <= sum(map(C.nlines, t)) <= (6 if th else 4):
                for p in ((0, 1, 2), (0, 1, 0), (2, 1, 0)):
                    out.append((cfg, [(L[i],) + C.embed(c, ns, pos) for i, c in zip(p, t)], big))
    # realistic shapes: active/mixed two-body operator with excitation operators
    exc = ["a+ c", "v+ c", "v+ a", "v+ v+ a a", "a+ v+ a a", "a+ a+ a c", "a+ a+ c c", "v+ a+ a c"]
    ham = ["a+ a", "c+ c", "v+ v", "c+ v", "a+ v", "a+ a+ a a", "v+ v+ a a", "a+ a+ v v", "a+ a+ a v", "a+ c+ c a", "c+ c+ a a", "v+ a+ a v"]

    def comp(s):
        cre, ann = [0] * 3, [0] * 3
        for x in s.split():
            (cre if x.endswith("+") else ann)["cav".index(x[0])] += 1
        return tuple(cre), tuple(ann)
    for h in ham:
        for t in exc:
            out.append(("cav", [("H",) + comp(h), ("T",) + comp(t)], big))
            out.append(("cav", [("T",) + comp(t)[::-1], ("H",) + comp(h)], 2))
            if th:
                for u in exc[:3]:
                    out.append(("cav", [("H",) + comp(h), ("T",) + comp(t), ("T",) + comp(u)], big))
    return out


# ---- Fock-space part -------------------------------------------------------------------
RHO3 = None


def rho3():
    """number-conserving density matrix over three modes with nonvanishing two- and three-body cumulants"""
    w = {0: 2, 1: 1, 2: 3, 4: 1, 3: 2, 5: 1, 6: 4, 7: 2}
    r = {(k, k): F(v, 16) for k, v in w.items()}
    for a, b, v in ((1, 2, 1), (2, 4, -1), (1, 4, 1), (3, 5, 1), (3, 6, -2), (5, 6, 1)):
        r[(a, b)] = r[(b, a)] = F(v, 16)
    return r


def rho2():
    r = {(0, 0): F(1, 7), (1, 1): F(2, 7), (2, 2): F(1, 7), (3, 3): F(3, 7)}
    r[(1, 2)] = r[(2, 1)] = F(1, 7)
    return r


SYS = {
    "g3": ("g", [("g", "g")] * 3, rho3),
    "g2": ("g", [("g", "g")] * 2, rho2),
    "ov4": ("ov", [("o", "o")] * 2 + [("v", "u")] * 2, None),
    "cav4": ("cav", [("c", "o"), ("a", "g"), ("a", "g"), ("v", "u")], rho2),
    "og": ("og", [("o", "o"), ("g", "g"), ("g", "g")], rho2),
}


def monomials(modes, maxlines):
    """normal-ordered monomials: ascending creation modes, descending annihilation modes"""
    n = len(modes)
    out = []
    for nc in range(n + 1):
        for na in range(n + 1):
            if nc + na <= maxlines:
                for c in itertools.combinations(range(n), nc):
                    for a in itertools.combinations(range(n), na):
                        out.append((c, a))
    return out


def fock_universe(tier):
    th = tier == "thorough"
    out = []
    for s, ml, k, cap in (("g3", 6, 2, 10 if th else 8), ("g2", 4, 3, 8 if th else 6), ("g2", 2, 4, 8 if th else 6), ("ov4", 4 if th else 3, 2, 99), ("ov4", 2, 3, 6 if th else 4),
                          ("cav4", 4 if th else 3, 2, 6 if th else 5), ("og", 4 if th else 3, 2, 99), ("og", 2, 3, 6 if th else 5), ("g3", 4 if th else 3, 3, 7 if th else 5)):
        M = [m for m in monomials(SYS[s][1], ml) if m != ((), ())]
        bycounts = {}
        for t in itertools.product(M, repeat=k):
            # only tuples whose net operator conserves the particle number have a nonzero reference part,
            # but all of them are operator identities
            if sum(len(c) + len(a) for c, a in t) > cap:
                continue
            bycounts.setdefault(tuple((len(c), len(a)) for c, a in t), []).append(t)
        for v in bycounts.values():
            step = 30 if s == "g3" and sum(len(c) + len(a) for c, a in v[0]) > 8 else 2000 if th else 400
            for i in range(0, len(v), step):
                out.append((s, v[i:i + step]))
    return out


def jobs(tier):
    u = universe(tier)
    seen, v = set(), []
    for x in u:
        k = repr(x)
        if k not in seen:
            seen.add(k)
            v.append(x)
    v.sort(key=lambda x: (sum(C.nlines(o[1:]) for o in x[1])), reverse=True)
    return [("p", c) for c in C.chunks(v, 400)] + [("f", s, lst) for s, lst in fock_universe(tier)]


def case_msg(w, cfg, ops, mc):
    labs = C.labels(cfg)
    e = C.engine(w, True, True, mc)
    n = sum(C.nlines(o[1:]) for o in ops)
    got = str(e.contract(C.make_product(w, labs, ops), 0, n))
    d, raw, nt = ref.check(C.spec(cfg, ops, 0, n, mc), got)
    return (None if d == "" else "contract(%s) over %s, max_cumulant %d:\n%s\nengine output:\n%s" % (
        " @ ".join("%s{%s}" % (o[0], C.comp_str(labs, *o[1:])) for o in ops), cfg, mc, d, got)), raw, nt, got


class FockEval:
    def __init__(self, w, sysname):
        cfg, modes, rho = SYS[sysname]
        self.cfg, self.modes = cfg, modes
        self.fk = fock.Fock(modes, rho() if rho else None)
        self.labs = C.labels(cfg)
        self.w = w
        self.cache = {}
        C.spaces(w, cfg)

    def spaces_of(self, ms):
        return tuple(sum(1 for m in ms if self.modes[m][0] == l) for l in self.labs)

    def result(self, ops):
        k = repr(ops)
        if k not in self.cache:
            n = sum(C.nlines(o[1:]) for o in ops)
            e = C.engine(self.w)
            self.cache[k] = fock.parse_expr(e.contract(C.make_product(self.w, self.labs, ops), 0, n))
        return self.cache[k]

    def check(self, t):
        fk = self.fk
        ops, supp = [], {}
        for i, (c, a) in enumerate(t):
            # tensor slots are ordered by space, the modes of each space ascending
            cm = sorted(c, key=lambda m: (self.labs.index(self.modes[m][0]), m))
            am = sorted(a, key=lambda m: (self.labs.index(self.modes[m][0]), m))
            ops.append((L[i], self.spaces_of(c), self.spaces_of(a)))
            supp[L[i]] = (cm, am)
        lhs = None
        for c, a in t:
            i = len(ops)
        for i, (c, a) in enumerate(t):
            cm, am = supp[L[i]]
            string = tuple((True, m) for m in cm) + tuple((False, m) for m in reversed(am))
            m = fk.normal_ordered(string)
            lhs = m if lhs is None else fock.mmul(lhs, m)
        rhs = {}
        for coef, tens, sq in self.result(ops):
            optens = [x for x in tens if x[0] in supp]
            other = [x for x in tens if x[0] not in supp]

            def rec(k, asg, sgn):
                if k == len(optens):
                    v = coef * sgn
                    for lab, up, lo in other:
                        u, l = [asg[x] for x in up], [asg[x] for x in lo]
                        if lab == "gamma1":
                            v *= fk.gamma(u[0], l[0])
                        elif lab == "eta1":
                            v *= fk.eta(u[0], l[0])
                        elif lab.startswith("lambda"):
                            if len(set(u)) < len(u) or len(set(l)) < len(l):
                                v = 0
                            else:
                                v *= fk.lam(u, l)
                        else:
                            raise ValueError("unknown tensor " + lab)
                        if v == 0:
                            return
                    string = tuple((cre, asg[i]) for cre, i, _ in sq)
                    fock.madd(rhs, fk.normal_ordered(string), v)
                    return
                lab, up, lo = optens[k]
                cm, am = supp[lab]
                for pu in placements(up, am, self.modes):
                    for pl in placements(lo, cm, self.modes):
                        b = dict(asg)
                        ok = True
                        for idx, m in list(zip(up, pu[0])) + list(zip(lo, pl[0])):
                            if b.setdefault(idx, m) != m:
                                ok = False
                                break
                        if ok:
                            rec(k + 1, b, sgn * pu[1] * pl[1])
            rec(0, {}, 1)
        if lhs != rhs:
            return "%s: %r: product of the normal-ordered monomials differs from the contracted expression\nexpected %r\n     got %r\nengine: %r" % (
                self.cfg, t, dict(list(sorted(lhs.items()))[:6]), dict(list(sorted(rhs.items()))[:6]), self.result(ops)[:6])
        return None


def placements(idxs, ms, modes):
    """all ways to assign the modes ms to the index slots respecting spaces, with the antisymmetry sign
    relative to the stored order"""
    out = []
    if len(idxs) != len(ms):
        return out
    for p in itertools.permutations(range(len(ms))):
        if all(idxs[i][0] == modes[ms[p[i]]][0] for i in range(len(ms))):
            out.append(([ms[k] for k in p], fock.parity(p)))
    return out


def run(job, a):
    import wicked as w
    if job[0] == "p":
        cur = None
        for cfg, ops, mc in job[1]:
            if cfg != cur:
                C.spaces(w, cfg)
                cur = cfg
            vc.crumb(json.dumps(["p", cfg, ops, mc]))
            msg, raw, nt, got = case_msg(w, cfg, ops, mc)
            a.states += 1
            a.transitions += raw
            a.validated += 1
            a.count("distinct_terms", nt)
            if nt > 3:
                a.sample("%s %s maxcum=%d -> %s" % (cfg, ops, mc, got.replace("\n", " ; ")[:300]))
            if msg:
                a.bad(["p", cfg, ops, mc], msg)
    else:
        _, s, lst = job
        fe = FockEval(w, s)
        for t in lst:
            vc.crumb(json.dumps(["f", s, t]))
            msg = fe.check(t)
            a.states += 1
            a.validated += 1
            a.transitions += 1
            a.count("fock_space_identities")
            if msg:
                a.bad(["f", s, t], msg)


def replay(case):
    import wicked as w
    if case[0] == "p":
        _, cfg, ops, mc = case
        C.spaces(w, cfg)
        return case_msg(w, cfg, [tuple(o) for o in ops], mc)[0]
    return FockEval(w, case[1]).check(tuple((tuple(c), tuple(x)) for c, x in case[2]))
