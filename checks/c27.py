"""C27: the generated equations, executed, reproduce the operator algebra."""
import itertools, json, re, zlib
from fractions import Fraction as F
import c02
import fock
import minieinsum as E
import vc

ID = "C27"
LEVEL = "model_checking"
TECHNIQUE = "bounded exhaustive enumeration of derivations (product, commutator or expansion, contraction, equations, generated code) on the real code; the code is executed exactly and compared with operators of a small Fock space"
RULE = ("for every ordered pair and triple (and quadruples of small operators) of the operator pools and the listed commutators and similarity-transform expansions over four small orbital systems (particle-hole, general with a correlated mixed reference, active space, occupied plus general): the result is "
        "contracted, split into many-body equations, compiled by the three code generators, directly, after canonicalization, with other engine settings and after reading the printed text back; the code is executed exactly on fixed "
        "antisymmetric integer tensors and the exact densities and cumulants of the reference, and the operator with the computed amplitudes equals, matrix element by matrix element, the operator formed in Fock space")
ASSUME = ["tensors have fixed nonzero integer values; systems of three to six spin orbitals", "numpy.einsum is represented by an exact stand-in that follows its rules", "printed coefficients are fractions with denominators below 700"]

NAMES = {"o": list("ijklmnIJKLMN"), "v": list("abcdefghABCDEFGH"), "g": list("pqrstuvwPQRSTUVWyzYZ"), "c": list("ijklIJKL"), "a": list("uvwxyzUVWXYZ"), }
KIND = {"o": "occupied", "u": "unoccupied", "g": "general"}
# system -> spaces in order of registration, modes, reference
SYS = {
    "ov4": ("ov", [("o", "o")] * 2 + [("v", "u")] * 2, None),
    "vo5": ("vo", [("o", "o")] * 3 + [("v", "u")] * 2, None),
    "g3": ("g", [("g", "g")] * 3, c02.rho3),
    "cav4": ("cav", [("c", "o"), ("a", "g"), ("a", "g"), ("v", "u")], c02.rho2),
    "go3": ("go", [("o", "o"), ("g", "g"), ("g", "g")], c02.rho2),
}
# operators of a system: (label, components)
POOL = {
    "ov4": [("T", ["v+ o"]), ("T", ["v+ v+ o o"]), ("L", ["o+ v"]), ("L", ["o+ o+ v v"]), ("F", ["o+ o", "v+ v", "o+ v", "v+ o"]), ("V", ["o+ v+ v o"]), ("V", ["v+ v+ v v"]),
            ("V", ["o+ o+ v o", "o+ v+ v v"]), ("c", ["v+"]), ("d", ["o+", "v"]), ("U", ["v+ v+ o"]), ("Y", ["o+ v v"]), ("s", [""]), ("T", ["v+ o", "v+ v+ o o"]), ("V", ["o+ o+ o o", "o+ v+ o o"]), ("D", ["v+ v+", "o o"])],
    "vo5": [("T", ["v+ o"]), ("T", ["v+ v+ o o"]), ("L", ["o+ v"]), ("F", ["o+ o", "v+ v"]), ("V", ["o+ o+ v v"]), ("V", ["o+ v+ v o", "o+ o+ o o"]), ("W", ["o+ o+ v o"]), ("c", ["o"])],
    "g3": [("H", ["g+ g"]), ("V", ["g+ g+ g g"]), ("A", ["g+"]), ("B", ["g"]), ("P", ["g+ g+"]), ("Q", ["g g"]), ("X", ["g+ g+ g"]), ("H", ["g+ g", "g+ g+ g g"])],
    "cav4": [("T", ["v+ c", "v+ a", "a+ c"]), ("T", ["a+ v+ a c", "v+ a+ a a", "a+ a+ a c"]), ("F", ["c+ c", "a+ a", "v+ v", "c+ a", "a+ v", "c+ v", "a+ c", "v+ a", "v+ c"]), ("V", ["a+ a+ a a"]),
             ("V", ["c+ a+ a a", "a+ a+ v a"]), ("V", ["c+ a+ v a"]), ("L", ["a+ v", "c+ v"]), ("q", ["a+"])],
    "go3": [("H", ["o+ o", "g+ g", "g+ o", "o+ g"]), ("V", ["g+ g+ g g"]), ("V", ["o+ g+ g o"]), ("V", ["g+ g+ g o", "o+ g+ g g"]), ("A", ["g+", "o+"]), ("P", ["g+ o+", "g g"])],
}
# (system, operators) with names for the expansions; ranks limited to the excitations of interest
HAM = ("H", ["o+ o", "v+ v", "o+ v", "v+ o", "o+ o+ o o", "v+ v+ v v", "o+ v+ v o", "o+ o+ v o", "o+ v+ v v", "v+ v+ v o", "o+ v+ o o", "o+ o+ v v", "v+ v+ o o"])


def gval(lab, cre, ann):
    """amplitude of {cre ... ann reversed}: antisymmetric in both lists, any order"""
    if len(set(cre)) < len(cre) or len(set(ann)) < len(ann):
        return 0
    s = fock.parity(cre) * fock.parity(ann)
    h = zlib.crc32(repr((lab, sorted(cre), sorted(ann))).encode())
    return s * (1, -1, 2, -2, 3, -1, 1, -3)[(h >> 7) % 8]


class System:
    def __init__(self, w, name):
        self.w, self.name = w, name
        self.labs, modes, rho = SYS[name]
        self.fk = fock.Fock(modes, rho() if rho else None)
        self.modes = [[k for k, m in enumerate(modes) if m[0] == l] for l in self.labs]
        self.by = dict(zip(self.labs, self.modes))
        kinds = dict(modes)
        w.reset_space()
        for l in self.labs:
            w.add_space(l, "fermion", KIND[kinds[l]], NAMES[l])
        self.mats = {}

    def op(self, k):
        return POOL[self.name][k] if isinstance(k, int) else HAM

    def wick(self, k):
        l, c = self.op(k)
        return self.w.op(l, c)

    def matrix(self, k):
        """the operator in Fock space"""
        if k not in self.mats:
            l, comps = self.op(k)
            r = {}
            for c in comps:
                w = c.split()
                cre = [x[0] for x in w if x.endswith("+")]
                ann = [x for x in w if not x.endswith("+")]
                lists = []
                for side in (cre, ann):
                    per = [itertools.combinations(self.by[s], side.count(s)) for s in self.labs]
                    lists.append([sum(t, ()) for t in itertools.product(*map(list, per))])
                for a in lists[0]:
                    for b in lists[1]:
                        fock.madd(r, self.string(a, b), F(gval(l, a, b)))
            self.mats[k] = r
        return self.mats[k]

    def string(self, cre, ann):
        """{cre ... reversed ann}"""
        return self.fk.normal_ordered(tuple((True, m) for m in cre) + tuple((False, m) for m in reversed(ann)))

    def array(self, lab, key):
        """upper indices (annihilation) first, then lower ones; key = space labels of all"""
        n = len(key) // 2 if lab.startswith(("gamma", "eta", "lambda")) else None
        ms = [self.by[s] for s in key]
        a = E.Arr([len(m) for m in ms])
        for t in itertools.product(*[range(len(m)) for m in ms]):
            m = [x[i] for x, i in zip(ms, t)]
            if lab == "gamma1":
                v = self.fk.gamma(*m)
            elif lab == "eta1":
                v = self.fk.eta(*m)
            elif lab.startswith("lambda"):
                u, l = m[:n], m[n:]
                v = 0 if len(set(u)) < n or len(set(l)) < n else self.fk.lam(u, l)
            else:
                u, l = m[:self.up[lab, key]], m[self.up[lab, key]:]
                v = gval(lab, l, u)
            if v:
                a.data[t] = v
        return a

    def execute(self, eqs, gen):
        """-> {key: (number of upper indices, spaces, array)}"""
        self.up = {}
        blocks, out = {}, {}
        for q in (x for l in eqs.values() for x in l):
            lt = q.lhs().tensors()[0]
            sp = lambda l: "".join(str(i)[0] for i in l)
            u, l = sp(lt.upper()), sp(lt.lower())
            for t in q.rhs().tensors():
                k = (t.label(), sp(t.upper()) + sp(t.lower()))
                n = len(t.upper())
                if self.up.setdefault(k, n) != n:
                    return None, "the block %s of %s has two shapes" % (k[1], k[0])
                if k not in blocks:
                    blocks[k] = self.array(*k)
            code = self.w.compile_einsum(q) if gen == 1 else q.compile("ambit" if gen else "einsum")
            name = "R" + u + l
            key = u + "|" + l
            if key not in out:
                out[key] = (u, l, E.Arr([len(self.by[s]) for s in u + l]))
            if gen == 2:
                m = self.ambit(code, blocks, out[key], name[:1])
                if m:
                    return None, "the code %s of %s: %s" % (code, q, m)
                continue
            env = {k[0]: {} for k in blocks}
            for (a, b), arr in blocks.items():
                env[a][b] = arr
            env[name] = out[key][2]
            try:
                E.run_python(code, env)
            except E.CodeError as e:
                return None, "the code %s of %s cannot be executed: %s" % (code, q, e)
            out[key] = (u, l, env[name])
        return out, None

    def ambit(self, code, blocks, out, label):
        m = re.match(r"^(\w+)(?:\[([^\]]*)\])? \+= (-?\d+\.\d+)((?: \* [A-Za-z]\w*(?:\[[^\]]*\])?)*);$", code)
        if not m or m.group(1) != label:
            return "not an ambit statement for " + label
        sp = lambda x: [i for i in (x or "").split(",") if i]
        fac = [(sp(x), l) for l, x in re.findall(r" \* ([A-Za-z]\w*)(?:\[([^\]]*)\])?", m.group(4))]
        res = sp(m.group(2))
        if "".join(i[0] for i in res) != out[0] + out[1]:
            return "wrong output indices"
        f = []
        for x, l in fac:
            k = (l, "".join(i[0] for i in x))
            if k not in blocks:
                return "unknown block %s of %s" % k[::-1]
            f.append((x, blocks[k]))
        dim = {i: len(self.by[i[0]]) for x, _ in f for i in x}
        if len(set(res)) < len(res) or any(i not in dim for i in res):
            return "output indices do not appear once"
        c = F(m.group(3)).limit_denominator(700)
        for k, v in E.contract(f, res, dim).items():
            out[2].data[k] = out[2].data.get(k, F(0)) + c * v
        return None

    def operator(self, out):
        r = {}
        for u, l, arr in out.values():
            mu, ml = [self.by[s] for s in u], [self.by[s] for s in l]
            acc = {}
            for t, v in arr.data.items():
                if not v:
                    continue
                f = F(v)
                ann = [x[i] for x, i in zip(mu, t)]
                cre = [x[i] for x, i in zip(ml, t[len(mu):])]
                if len(set(ann)) < len(ann) or len(set(cre)) < len(cre):
                    continue
                k = (tuple(sorted(cre)), tuple(sorted(ann)))
                acc[k] = acc.get(k, 0) + f * fock.parity(cre) * fock.parity(ann)
            for (c, a), v in acc.items():
                if v:
                    fock.madd(r, self.string(c, a), v)
        return r


def exactly(c):
    return F(str(c)).limit_denominator(5000) if isinstance(c, float) else F(c)


E.exact = exactly


def expand(s, prog):
    """-> (OperatorExpression, matrix)"""
    w = s.w
    kind, ids = prog[0], prog[1]
    if kind == "prod":
        e, m = None, None
        for k in ids:
            o, x = s.wick(k), s.matrix(k)
            e = o if e is None else e @ o
            m = x if m is None else fock.mmul(m, x)
        return e, m
    if kind == "comm":
        m = s.matrix(ids[0])
        for k in ids[1:]:
            m = comm(m, s.matrix(k))
        return w.commutator(*[s.wick(k) for k in ids]), m
    a, b, n = ids
    r = dict(s.matrix(a))
    t, f = s.matrix(a), 1
    for k in range(1, n + 1):
        t = comm(t, s.matrix(b))
        f *= k
        fock.madd(r, t, F(1, f))
    return w.bch_series(s.wick(a), s.wick(b), n), r


def comm(a, b):
    r = dict(fock.mmul(a, b))
    fock.madd(r, fock.mmul(b, a), F(-1))
    return r


def lines(s, ids):
    return sum(max(len(c.split()) for c in s.op(k)[1]) for k in ids)


def check(w, sysname, prog, variants):
    s = System(w, sysname)
    x, want = expand(s, prog)
    nstat = 0
    for v in variants:
        e = w.WickTheorem()
        e.set_single_threaded(v != 2)
        e.do_canonicalize_graph(v != 3)
        r = e.contract(x, 0, 99)
        if v == 1:
            r = w.string_to_expr(str(r)) if str(r) else r
        if v == 3:
            r = r.canonicalize()
        eqs = r.to_manybody_equations("R")
        out, msg = s.execute(eqs, (0, 1, 2, 0)[v])
        nstat += sum(map(len, eqs.values()))
        if msg:
            return "%s %s: %s" % (sysname, describe(s, prog), msg), nstat
        got = s.operator(out)
        if got != want:
            d = [(k, want.get(k, 0), got.get(k, 0)) for k in sorted(set(got) | set(want)) if want.get(k, 0) != got.get(k, 0)][:4]
            return "%s %s (variant %d): the operator with the computed amplitudes differs from the exact one: (element, exact, computed) %s\nequations:\n%s" % (
                sysname, describe(s, prog), v, [(k, str(a), str(b)) for k, a, b in d], "\n".join(str(q) for l in eqs.values() for q in l)[:1500]), nstat
    return None, nstat



def describe(s, prog):
    return "%s(%s)" % (prog[0], ", ".join("%s{%s}" % (s.op(k)[0], " | ".join(s.op(k)[1])) if not (prog[0] == "bch" and i == 2) else str(k) for i, k in enumerate(prog[1])))


LIM = {"ov4": (8, 8), "vo5": (8, 6), "g3": (8, 6), "cav4": (8, 6), "go3": (8, 6)}


def programs(tier):
    th = tier == "thorough"
    out = []
    for name, pool in POOL.items():
        N = range(len(pool))

        class S:
            op = staticmethod(lambda k, p=pool: p[k])
        small = [k for k in N if len(pool[k][1]) == 1 and lines(S, [k]) <= 2]
        for ids in itertools.product(small, repeat=4):
            L = lines(S, ids)
            if L <= (8 if name in ("ov4", "vo5") or th else 6):
                out.append((L * 10, [name, ["prod", list(ids)]]))
                if th and len(set(ids)) > 1:
                    out.append((L * 10, [name, ["comm", list(ids)]]))
        for n in (1, 2, 3):
            for ids in itertools.product(N, repeat=n):
                L = lines(S, ids)
                multi = 1
                for k in ids:
                    multi *= len(pool[k][1])
                lim = (99, LIM[name][0], LIM[name][1] if not th else LIM[name][1] + 2)[n - 1]
                if L > lim or (n == 3 and multi > (24 if th else 8)):
                    continue
                out.append((L * 10 + multi, [name, ["prod", list(ids)]]))
                if n > 1 and L <= lim - (0 if th else 2) + (n == 2) and len(set(ids)) > 1:
                    out.append((L * 10 + 2 * multi, [name, ["comm", list(ids)]]))
    for name, a, b, n in [("ov4", 4, 0, 2), ("ov4", 5, 0, 3), ("ov4", 4, 1, 2), ("ov4", 6, 0, 4), ("ov4", 3, 1, 2), ("ov4", 3, 0, 4), ("ov4", 2, 13, 2), ("vo5", 3, 0, 3), ("vo5", 4, 0, 4), ("g3", 0, 0, 2), ("g3", 0, 1, 1), ("cav4", 3, 0, 1), ("cav4", 2, 0, 2), ("go3", 0, 1, 1)] + (
            [("ov4", "H", 0, 4), ("ov4", "H", 1, 2), ("ov4", "H", 13, 2), ("ov4", "H", 13, 3), ("vo5", 4, 1, 2), ("g3", 1, 0, 2), ("cav4", 3, 0, 2), ("go3", 2, 0, 3)] if th else [("ov4", "H", 0, 2), ("ov4", "H", 1, 1)]):
        out.append((500 if a == "H" else 150, [name, ["bch", [a, b, n]]]))
    out.sort(key=lambda x: -x[0])
    return [x[1] for x in out]


def jobs(tier):
    ps = programs(tier)
    vs = [0, 1, 2, 3]
    out = []
    for i, (n, p) in enumerate(ps):
        # every program: two ways; together all four ways on neighbouring programs
        out.append([n, p, vs if tier == "thorough" or len(p[1]) < 3 else [(0, 2), (1, 3)][i % 2]])
    big = [[x] for x in out[:200]]
    rest = out[200:]
    return big + [rest[i:i + 12] for i in range(0, len(rest), 12)]


def run(job, a):
    import wicked as w
    for n, p, v in job:
        case = [n, p, list(v)]
        vc.crumb(json.dumps(case))
        m, k = check(w, n, p, v)
        a.states += len(v)
        a.transitions += k
        a.validated += len(v)
        a.count("derivations over " + n)
        if k > 6:
            a.sample(json.dumps(case))
        if m:
            a.bad(case, m)


def replay(case):
    import wicked as w
    return check(w, case[0], case[1], case[2])[0]
