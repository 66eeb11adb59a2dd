"""C22: operator constructors build exactly the requested operators."""
import itertools, json, math, re
from collections import Counter
from fractions import Fraction as F
import common as C
import vc

ID = "C22"
LEVEL = "model_checking"
TECHNIQUE = "bounded exhaustive enumeration of constructor arguments on the real code against counting models"
RULE = ("op: all words of creation and annihilation symbols up to the length bound over one to three spaces with several separators, all pairs and triples of component strings from a pool with repetitions, with and without uniqueness, single "
        "operators with up to 30 equivalent lines; diag_operator and Operator: all counts up to the bound; gen_op: all ranks up to the bound and all ordered subsets of spaces, with and without diagonal components, over several registries; "
        "operator_expr: all words up to the bound, flags, symmetries and coefficients; every printed object, and its contraction with itself alone, is compared with counts computed from the arguments")
ASSUME = ["printed operators are read back by an independent parser", "index numbers chosen by operator_expr only need to be distinct"]

REG = {
    "ov": C.CFG["ov"], "vo": C.CFG["vo"], "cav": C.CFG["cav"], "ovb": C.CFG["ovb"], "g": C.CFG["g"], "uov": C.CFG["uov"],
    "vac": [C.CFG["cav"][2], C.CFG["cav"][1], C.CFG["cav"][0]],
    "five": [("o", "fermion", "occupied", list("ijkl")), ("O", "fermion", "occupied", list("mnpq")), ("g", "fermion", "general", list("rstu")), ("V", "fermion", "unoccupied", list("abcd")), ("v", "fermion", "unoccupied", list("efgh"))],
}


def setup(w, reg):
    w.reset_space()
    for s in REG[reg]:
        w.add_space(*s)
    return [s[0] for s in REG[reg]]


def model_op(comp):
    """component string -> (creation counts, annihilation counts)"""
    syms = re.findall(r"[A-Za-z][+^]?", comp)
    return (tuple(sorted(Counter(s[0] for s in syms if len(s) == 2).items())), tuple(sorted(Counter(s for s in syms if len(s) == 1).items())))


def factor(key):
    r = F(1)
    for side in key:
        for _, n in side:
            r /= math.factorial(n)
    return r


OP = re.compile(r"^(?:(\d+/\d+|\d+) )?([A-Za-z]\w*) \{ ((?:[A-Za-z]\+? )*)\}$")


def parse_operator(text, labs):
    """one printed operator -> (label, key); raises when the prefactor or the order is wrong"""
    m = OP.match(text)
    if not m:
        raise ValueError("cannot read the operator %r" % text)
    syms = m.group(3).split()
    cre, ann = [s[0] for s in syms if len(s) == 2], [s for s in syms if len(s) == 1]
    if [s for s in syms if len(s) == 2] != syms[:len(cre)]:
        raise ValueError("%r is not in creation-then-annihilation order" % text)
    if cre != sorted(cre, key=labs.index) or ann != sorted(ann, key=labs.index, reverse=True):
        raise ValueError("the spaces of %r are not in canonical order" % text)
    key = (tuple(sorted(Counter(cre).items())), tuple(sorted(Counter(ann).items())))
    if F(m.group(1) or 1) != factor(key):
        raise ValueError("%r has prefactor %s instead of %s" % (text, m.group(1) or 1, factor(key)))
    return m.group(2), key


def parse_opexpr(text, labs, label):
    r = {}
    for line in text.split("\n") if text else []:
        m = re.match(r"^([+-])(\d+(?:/\d+)?)? (.*)$", line)
        if not m:
            raise ValueError("cannot read the term %r" % line)
        lab, key = parse_operator(m.group(3), labs)
        if lab != label:
            raise ValueError("label %s instead of %s" % (lab, label))
        if key in r:
            raise ValueError("the component %s appears twice" % line)
        r[key] = F(m.group(2) or 1) * (-1 if m.group(1) == "-" else 1)
    return r


def show(d):
    return "; ".join("%s x (cre %s, ann %s)" % (c, dict(k[0]), dict(k[1])) for k, c in sorted(d.items()))


def compare(what, got, want):
    return None if got == want else "%s is\n%s\ninstead of\n%s" % (what, show(got), show(want))


N = [0]   # objects made by the library and compared


def check_opexpr(w, what, e, labs, label, want):
    N[0] += 1
    try:
        got = parse_opexpr(str(e), labs, label)
    except ValueError as x:
        return "%s: %s" % (what, x)
    if e.size() != len(want):
        return "%s has %d terms instead of %d" % (what, e.size(), len(want))
    return compare(what, got, want)


TERM = re.compile(r"^([+-]?)(\d+(?:/\d+)?)?\s*([A-Za-z]\w*)\^\{([^}]*)\}_\{([^}]*)\}\s*(\{)?((?:\s*[ab][+-]\([A-Za-z]\d+\))*)\s*(\})?$")


def parse_terms(text, label):
    """-> list of (key, coefficient, cre, ann, upper, lower, flagged)"""
    r = []
    for line in text.split("\n") if text else []:
        m = TERM.match(line)
        if not m or m.group(3) != label:
            raise ValueError("cannot read the term %r" % line)
        ops = re.findall(r"([ab])([+-])\(([A-Za-z]\d+)\)", m.group(7))
        r.append((F(m.group(2) or 1) * (-1 if m.group(1) == "-" else 1), [i for _, k, i in ops if k == "+"], [i for _, k, i in ops if k == "-"],
                  [i for i in m.group(4).split(",") if i], [i for i in m.group(5).split(",") if i], bool(m.group(6)), "".join(k for _, k, _ in ops), ops))
    return r


def check_contract(w, comp, labs):
    """the operator alone, contracted: coefficient 1/prod n! and matching indices"""
    e = w.op("T", [comp])
    key = model_op(comp)
    n = sum(x for s in key for _, x in s)
    t = w.WickTheorem()
    t.set_single_threaded(True)
    out = str(t.contract(e, 0, n))
    N[0] += 1
    if n == 0:
        return None if out.split() == ["T^{}_{}"] or out.split() == ["+", "T^{}_{}"] or out == "+T^{}_{}" else "contracting T { } alone gives %r" % out
    try:
        ts = parse_terms(out, "T")
    except ValueError as x:
        return "contracting %s alone gives %r: %s" % (comp, out, x)
    if len(ts) != 1:
        return "contracting %s alone gives %r" % (comp, out)
    c, cre, ann, up, lo, flag, kinds, ops = ts[0]
    got = (tuple(sorted(Counter(i[0] for i in cre).items())), tuple(sorted(Counter(i[0] for i in ann).items())))
    if got != key or abs(c) != factor(key) or sorted(lo) != sorted(cre) and sorted(up) != sorted(cre):
        return "contracting %s alone gives %r" % (comp, out)
    # sign: cre in order of the tensor, ann reversed, up to permutations with their signs
    a, b = (lo, up) if sorted(lo) == sorted(cre) else (up, lo)
    if sorted(b) != sorted(ann):
        return "contracting %s alone gives %r" % (comp, out)
    s = psign(cre, a) * psign(ann[::-1], b)
    if s * c != factor(key):
        return "contracting %s alone gives %r, with the wrong sign" % (comp, out)
    return None


def psign(a, b):
    p = [b.index(x) for x in a]
    return (-1) ** sum(p[i] > p[j] for i in range(len(p)) for j in range(i + 1, len(p)))


def check_words(w, reg, comps, unique):
    labs = setup(w, reg)
    e = w.op("T", comps, unique)
    want = {}
    for c in comps:
        k = model_op(c)
        want[k] = F(1) if unique else want.get(k, 0) + F(1)
    what = "op('T',%s,unique=%s) over %s" % (comps, unique, "".join(labs))
    m = check_opexpr(w, what, e, labs, "T", want)
    if m:
        return m
    if len(comps) == 1:
        syms = re.findall(r"[A-Za-z][+^]?", comps[0])
        if all(s[0] != "B" for s in syms):
            m = check_contract(w, comps[0], labs)
            if m:
                return m
        d = w.diag_operator("T", [s[0] for s in syms if len(s) == 2], [s for s in syms if len(s) == 1])
        cre = [sum(s == l + "+" or s == l + "^" for s in syms) for l in labs]
        ann = [sum(s == l for s in syms) for l in labs]
        o = w.Operator("T", cre, ann)
        for x, n in ((d, "diag_operator"), (o, "Operator")):
            N[0] += 1
            try:
                k = parse_operator(str(x), labs)
            except ValueError as y:
                return "%s of %s: %s" % (n, comps[0], y)
            if k != ("T", model_op(comps[0])):
                return "%s of %s is %s" % (n, comps[0], x)
    return None


def check_gen(w, reg, rank, cs, as_, diagonal):
    labs = setup(w, reg)
    e = w.gen_op("T", rank, cs, as_, diagonal)
    want = {}
    for c in itertools.combinations_with_replacement(sorted(cs, key=labs.index), rank):
        for a in itertools.combinations_with_replacement(sorted(as_, key=labs.index), rank):
            if diagonal or sorted(c) != sorted(a):
                want[(tuple(sorted(Counter(c).items())), tuple(sorted(Counter(a).items())))] = F(1)
    m = check_opexpr(w, "gen_op('T',%d,%r,%r,%s) over %s" % (rank, cs, as_, diagonal, "".join(labs)), e, labs, "T", want)
    return m


SYM = ["anti", "symm", "none"]


def check_expr(w, reg, comps, flag, sym, c):
    labs = setup(w, reg)
    fields = {s[0]: s[1] for s in REG[reg]}
    e = w.operator_expr("T", comps, flag, getattr(w.sym, SYM[sym]), w.make_rational("%d/%d" % (F(c).numerator, F(c).denominator)))
    what = "operator_expr('T',%s,%s,%s,%s) over %s" % (comps, flag, SYM[sym], c, "".join(labs))
    try:
        ts = parse_terms(str(e), "T")
    except ValueError as x:
        return "%s: %s" % (what, x)
    N[0] += 1
    want = {}
    for comp in comps:
        s = comp.split()
        k = (tuple(x[0] for x in s if len(x) == 2), tuple(x for x in s if len(x) == 1))
        want[k] = want.get(k, 0) + F(c)
    want = {k: v for k, v in want.items() if v}
    got = {}
    for c1, cre, ann, up, lo, f, kinds, ops in ts:
        if len(set(cre + ann)) < len(cre + ann):
            return "%s: indices are repeated in\n%s" % (what, e)
        if not (up == cre and lo == ann[::-1] or lo == cre and up == ann[::-1]):
            return "%s: tensor and operators do not match in\n%s" % (what, e)
        if cre + ann and kinds != "+" * len(cre) + "-" * len(ann):
            return "%s: order of operators in\n%s" % (what, e)
        if any((t == "a") != (fields[i[0]] == "fermion") for t, _, i in ops):
            return "%s: fermion and boson operators confused in\n%s" % (what, e)
        if ops and f != flag:
            return "%s: normal ordering is %s in\n%s" % (what, f, e)
        k = (tuple(i[0] for i in cre), tuple(i[0] for i in ann))
        got[k] = got.get(k, 0) + c1
    if got != want:
        return "%s is\n%s\nexpected components %s" % (what, e, want)
    # which side holds the creation indices must be the one of contractions
    return None


def symbols(labs):
    return [l + x for l in labs for x in ("+", "", "^")]


POOL = {"ov": ["v+ o", "o v+", "v^ o", "o+ v", "v+ v+ o o", "v+ o v+ o", "o o v+ v+", "o+ o", "", "v+ v", "v+", "o"],
        "vac": ["a+ a+ a a", "a a a+ a+", "v+ a", "a v+", "c+ a+ v c", "v c a+ c+", "c+ c", "v+ v", "a+ c"]}


def ncomb(c, r):
    return math.comb(len(c) + r - 1, r) if c else int(r == 0)


def gen(job):
    k, tier = job[0], job[-1]
    t = tier == "thorough"
    if k == "words":
        reg, n, i = job[1:4]
        labs = [s[0] for s in REG[reg]]
        al = symbols(labs) if n <= 3 else [l + x for l in labs for x in ("+", "")]
        for j, x in enumerate(itertools.product(al, repeat=n)):
            if j % 8 == i:
                for sep in ((" ", "", "   ") if n <= 4 else (" ", "") if j % 8 == 0 else (" ",)):
                    yield ["w", reg, [sep.join(x)], False]
                if n <= 3:
                    yield ["w", reg, [" ".join(x)], True]
    elif k == "lists":
        reg, n, i = job[1:4]
        for j, x in enumerate(itertools.product(POOL[reg], repeat=n)):
            if j % 4 == i:
                for u in (False, True):
                    yield ["w", reg, list(x), u]
    elif k == "large":
        for reg, l in (("g", "g"), ("ov", "o"), ("ov", "v")):
            for n in range(0, 31 if not t else 61):
                for m in (0, 1, n):
                    yield ["L", reg, l, n, m]
    elif k == "gen":
        reg, rank, i = job[1:4]
        labs = [s[0] for s in REG[reg]]
        subs = [p for m in range(0, len(labs) + 1) for p in (itertools.permutations(labs, m) if len(labs) <= 3 else itertools.combinations(labs[::-1], m))]
        j = 0
        for c in subs:
            for a in subs:
                for d in (True, False):
                    j += 1
                    if j % 4 == i and ncomb(c, rank) * ncomb(a, rank) <= 3000:
                        yield ["g", reg, rank, "".join(c), "".join(a), d]
    elif k == "expr":
        reg, n, i = job[1:4]
        labs = [s[0] for s in REG[reg]]
        al = symbols(labs) if n <= 2 else [l + x for l in labs for x in ("+", "")]
        for j, x in enumerate(itertools.product(al, repeat=n)):
            if j % 4 == i:
                for flag in (False, True):
                    yield ["e", reg, [" ".join(x)], flag, j % 3, COEF[j % len(COEF)]]
    elif k == "exprl":
        reg, n = job[1:3]
        pool = [p for p in POOL[reg] if p]
        for j, x in enumerate(itertools.product(pool, repeat=n)):
            yield ["e", reg, list(x), j % 2 == 0, j % 3, COEF[j % len(COEF)]]


COEF = ["1", "-1", "1/4", "-7/3", "12", "0", "1/1000000000000000000000000", "100000000000000000000000000000/3"]


def jobs(tier):
    t = tier == "thorough"
    out = []
    for reg, top in (("ov", 6 if t else 5), ("vo", 4), ("cav", 5 if t else 4), ("vac", 4), ("ovb", 5 if t else 4), ("g", 9 if t else 7), ("uov", 4 if t else 3), ("five", 4 if t else 3)):
        out += [["words", reg, n, i, tier] for n in range(top + 1) for i in range(8)]
    out += [["lists", reg, n, i, tier] for reg in POOL for n in range(4 if not t else 5) for i in range(4)]
    out += [["large", tier]]
    for reg in REG:
        if reg != "ovb":
            out += [["gen", reg, r, i, tier] for r in range(5 if t else 4) for i in range(4)]
    # higher ranks, over one to three spaces
    out += [["gen", reg, r, i, tier] for reg in ("g", "ov", "vo") for r in range(5 if t else 4, 9 if t else 8) for i in range(4)]
    out += [["gen", reg, r, i, tier] for reg in ("cav", "vac", "uov") for r in range(5 if t else 4, 6) for i in range(4)]
    for reg, top in (("ov", 6 if t else 5), ("ovb", 4), ("cav", 4), ("g", 6)):
        out += [["expr", reg, n, i, tier] for n in range(1, top + 1) for i in range(4)]
    out += [["exprl", reg, n, tier] for reg in POOL for n in (0, 2, 3)]
    return out


def dispatch(w, case):
    k = case[0]
    if k == "w":
        return check_words(w, *case[1:])
    if k == "L":
        reg, l, n, m = case[1:]
        labs = setup(w, reg)
        comp = " ".join([l + "+"] * n + [l] * m)
        return check_opexpr(w, "op('T',['%s'])" % comp, w.op("T", [comp]), labs, "T", {model_op(comp): F(1)})
    if k == "g":
        return check_gen(w, *case[1:])
    return check_expr(w, *case[1:])


def run(job, a):
    import wicked as w
    for case in gen(job):
        vc.crumb(json.dumps(case))
        N[0] = 0
        m = dispatch(w, case)
        a.states += 1
        a.transitions += N[0]
        a.validated += 1
        a.sample(json.dumps(case))
        if m:
            a.bad(case, m)


def replay(case):
    import wicked as w
    return dispatch(w, case)
