"""C14: canonicalizing operator expressions only uses valid commutations."""
import itertools, json
from fractions import Fraction as F
import algmodel as M
import common as C
import ref, vc
import terms as T

ID = "C14"
LEVEL = "model_checking"
TECHNIQUE = "bounded exhaustive enumeration of operator products on the real code against a signed trace-monoid model, with the contractions before and after compared"
RULE = ("every word of operators up to the length bound over alphabets that mix even and odd, commuting and non-commuting, equal-label and repeated, fermionic and bosonic operators is canonicalized; "
        "the result must be reachable by exchanges of operators that share no contractible pair, with the sign of the exchanges of odd operators; all permutations of mutually commuting "
        "operators (and all pairs of commuting components with one label over several registries) must merge into one term with exact signs and be fixed points; sums of words follow by linearity (checked on all pairs), and the contractions before and after agree")
ASSUME = ["alphabets and word lengths as listed in the evidence"]

# alphabets: configuration, [(label, component)]
ALPHA = [
    ("ov", [("T", "v+ o"), ("T", "v+ v+ o o"), ("A", "v+ o"), ("V", "o+ o+ v v"), ("c", "v+"), ("b", "v+"), ("d", "o"), ("F", "o+ v")]),
    ("cav", [("T", "v+ c"), ("T", "v+ a"), ("T", "a+ c"), ("R", "v+ v+ a c"), ("D", "a+ a"), ("x", "v+"), ("y", "c"), ("y", "c+ c+ c+")]),
    ("ovb", [("T", "v+ o"), ("B", "B+"), ("B", "v+ B+"), ("C", "B"), ("D", "B+ o"), ("c", "v+"), ("E", "v+ v+ o"), ("K", "v+ B+ B+")]),
    ("ov", [("a", "v+ v+ v+"), ("c", "v+ o o"), ("d", "o"), ("A", "v+ o"), ("s", "")]),
]


def op(w, x):
    return w.op(x[0], [x[1]])


def counts(x):
    c = {}
    for t in x[1].split():
        k = (t[0], t.endswith("+"))
        c[k] = c.get(k, 0) + 1
    return c


def commute(x, y):
    """no creation operator of one meets an annihilation operator of the other in a space"""
    cx, cy = counts(x), counts(y)
    return not any((s, not c) in cy for s, c in cx)


def odd(x):
    """number of fermionic operators is odd (B is the bosonic space)"""
    return sum(1 for t in x[1].split() if t[0] != "B") % 2


def norm(w, x):
    """key of an operator as printed"""
    return (x[0], tuple(x[1].split()))


def product(w, word):
    r = None
    for x in word:
        r = op(w, x) if r is None else r @ op(w, x)
    return r


def trace(word, res):
    """sign of the exchanges turning word into res, None when a forbidden exchange is needed, 0 when
    two equal odd operators can be exchanged (the product is its own negative)"""
    key = [norm(None, x) for x in word]
    occ = {}
    pos = []
    slots = {}
    for i, k in enumerate(res):
        slots.setdefault(k, []).append(i)
    for k in key:
        n = occ.get(k, 0)
        occ[k] = n + 1
        if n >= len(slots.get(k, ())):
            return None
        pos.append(slots[k][n])
    if sorted(pos) != list(range(len(res))):
        return None
    s = 1
    for i in range(len(word)):
        for j in range(i + 1, len(word)):
            if pos[i] > pos[j]:
                if not commute(word[i], word[j]):
                    return None
                if odd(word[i]) and odd(word[j]):
                    s = -s
    return s


def check_word(w, cfg, word, a, contract=False):
    e = product(w, word)
    text = str(e)
    before = M.parse_o(e)
    if list(before) != [tuple(norm(w, x) for x in word)] or list(before.values()) != [F(1)]:
        return "the product of %s prints as %s" % (word, text)
    e.canonicalize()
    after = M.parse_o(e)
    if len(after) != 1:
        return "canonicalizing\n%s\ngives %d terms:\n%s" % (text, len(after), e)
    (k, c), = after.items()
    s = trace(word, k)
    if s is None:
        return "canonicalizing\n%s\ngives\n%s\nwhich needs an exchange of operators that share a contractible pair" % (text, e)
    if c != s:
        return "canonicalizing\n%s\ngives\n%s\nwith the wrong sign or coefficient (expected %s)" % (text, e, s)
    if all(commute(x, y) for x, y in itertools.combinations(word, 2)):
        if list(k) != sorted(k) and False:
            return "not sorted"
        t2 = str(e)
        e.canonicalize()
        if str(e) != t2:
            return "canonicalizing again\n%s\nchanges it to\n%s" % (t2, e)
        a.count("commuting products")
    if contract and cfg != "ovb":
        eng = C.engine(w)
        x = eng.contract(product(w, word), 0, 99)
        y = eng.contract(e, 0, 99)
        a.count("contractions compared")
        d = ref.diff(x, y)
        if d:
            return "the contraction changes from\n%s\nto\n%s\nwhen\n%s\nis canonicalized to\n%s\n(%s)" % (x, y, text, e, d)
    return None


def all_or_some(n):
    if n <= 7:
        return sorted(set(itertools.permutations(range(n))))
    some = [tuple(range(n))] + T.some_perms(n)
    # products of a rotation and an interleaving
    some += [tuple(p[x] for x in q) for p in some[2:n:2] for q in some[-1:] + some[1:2]]
    return sorted(set(some))


def check_perms(w, cfg, ms, a):
    """all permutations of a multiset of mutually commuting operators, with different coefficients"""
    perms = all_or_some(len(ms))
    words = {}
    for p in perms:
        words.setdefault(tuple(norm(w, ms[i]) for i in p), [ms[i] for i in p])
    ws = list(words.values())
    tot = w.OperatorExpression()
    canon = {}
    first = trace_key = None
    for n, word in enumerate(ws):
        c = F(n + 1, (2, 3, 5, 7)[n % 4])   # small denominators: the sum stays within the supported width
        tot.add2(product(w, word), w.make_rational(str(c)))
        e = product(w, word)
        e.canonicalize()
        (k, v), = M.parse_o(e).items()
        if first is None:
            first, ref_word = k, word
        elif k != first:
            return "the commuting products %s and %s become different terms %s and %s" % (ws[0], word, first, k)
        M.add(canon, k, v * c)
    text = str(tot)
    if tot.size() != len(ws):
        return "the permutations of %s are not %d distinct terms:\n%s" % (ms, len(ws), text)
    tot.canonicalize()
    if M.parse_o(tot) != canon:
        return "canonicalizing\n%s\ngives\n%s\ninstead of %s" % (text, tot, canon)
    if tot.size() != len(canon):
        return "canonicalizing\n%s\nleaves %d terms" % (text, tot.size())
    # signs: a sum of a word and a permutation weighted with minus the sign cancels
    for word in ws[1:]:
        s = trace(ws[0], tuple(norm(w, x) for x in word))
        e = product(w, ws[0])
        e.add2(product(w, word), w.rational(-s, 1))
        e.canonicalize()
        if e.size() != 0:
            return "%s and %s times the permuted product %s do not cancel:\n%s" % (ws[0], -s, word, e)
    return None


def check_pair(w, cfg, u, v, c1, c2):
    """canonicalization is linear"""
    e = w.OperatorExpression()
    e.add2(product(w, u), w.make_rational(c1))
    e.add2(product(w, v), w.make_rational(c2))
    text = str(e)
    want = {}
    for x, c in ((u, c1), (v, c2)):
        p = product(w, x)
        p.canonicalize()
        for k, s in M.parse_o(p).items():
            M.add(want, k, s * F(c))
    e.canonicalize()
    try:
        got = M.parse_o(e)
    except ValueError as x:
        return "canonicalizing\n%s\n%s" % (text, x)
    if got != want or e.size() != len(want):
        return "canonicalizing\n%s\ngives\n%s\ninstead of %s" % (text, e, want)
    return None


def check_sum(w, cfg, words):
    """canonicalization of a sum of many products"""
    e = w.OperatorExpression()
    want = {}
    for n, word in enumerate(words):
        c = F((1, -1, 2, -3)[n % 4], (1, 2, 3)[n % 3])
        e.add2(product(w, word), w.make_rational(str(c)))
        p = product(w, word)
        p.canonicalize()
        for k, s in M.parse_o(p).items():
            M.add(want, k, s * c)
    text = str(e)
    e.canonicalize()
    got = M.parse_o(e)
    if got != want or e.size() != len(want):
        return "canonicalizing\n%s\ngives\n%s\ninstead of %s" % (text, e, want)
    return None


def run_case(w, case, a):
    kind, n = case[0], case[1]
    if kind == "c":
        C.spaces(w, n)
        return check_perms(w, n, [tuple(x) for x in case[2]], a)
    cfg, al = ALPHA[n]
    pick = lambda idx: [al[i] for i in idx]
    C.spaces(w, cfg)
    if kind == "w":
        return check_word(w, cfg, pick(case[2]), a, case[3])
    if kind == "p":
        return check_perms(w, cfg, pick(case[2]), a)
    if kind == "s":
        return check_sum(w, cfg, [pick(x) for x in case[2]])
    return check_pair(w, cfg, pick(case[2]), pick(case[3]), case[4], case[5])


# long products of commuting operators
LONG = [("ov", [("T", "v+ o"), ("T", "v+ v+ o o"), ("A", "v+ o"), ("c", "v+"), ("b", "v+"), ("d", "o"), ("e", "v+ v+ o"), ("f", "v+ o o"), ("Z", "o"), ("S", "v+ v+"), ("a1", "v+"), ("a10", "v+"), ("a2", "o")]),
        ("ovb", [("B", "B+"), ("C", "v+ B+"), ("D", "B+ o"), ("c", "v+"), ("E", "v+ v+ o"), ("K", "v+ B+ B+"), ("d", "o"), ("e", "B+ o"), ("f", "v+ v+"), ("g", "v+ o o"), ("T", "v+ B+ o")])]
ALPHA += LONG


def cases(tier):
    th = tier == "thorough"
    out = []
    for n, (cfg, al) in enumerate(ALPHA):
        if n < len(ALPHA) - len(LONG):
            continue
        ev = [i for i, x in enumerate(al) if not odd(x)]
        for k in range(5 if th else 6, 14 if th else 11):
            for r in range(len(al)):
                sel = [(r + 2 * i) % len(al) for i in range(k)]
                # odd operators once, even ones may repeat
                used, m = set(), []
                for i in sel:
                    if i in used and odd(al[i]):
                        i = ev[i % len(ev)]
                    used.add(i)
                    m.append(i)
                out.append(["p", n, m])
                out.append(["w", n, m, False])
    # all pairs of commuting components with the same label, and triples of a few
    for cfg, k in (("uov", 4 if th else 3), ("ovx", 4), ("ovb", 4 if th else 3), ("ou8", 2)):
        labs = C.labels(cfg)
        comps = [("T", C.comp_str(labs, *c)) for c in C.comps_upto(len(labs), k) if C.nlines(c)]
        for x, y in itertools.combinations(comps, 2):
            if commute(x, y):
                out.append(["c", cfg, [x, y]])
        odds = [x for i, x in enumerate(comps) if i % (7 if th else 13) == 3]
        for t in itertools.combinations(odds, 3):
            if all(commute(x, y) for x, y in itertools.combinations(t, 2)):
                out.append(["c", cfg, list(t)])
    for n, (cfg, al) in enumerate(ALPHA[:-len(LONG)]):
        N = range(len(al))
        for k in range(1, 6):
            for t in itertools.product(N, repeat=k):
                legs = sum(len(al[i][1].split()) for i in t)
                out.append(["w", n, t, k > 1 and legs <= ((10 if k < 4 else 8) if th else (9 if k < 4 else 7)) and k < 5])
        for k in range(2, 8 if th else 6):
            for t in itertools.combinations_with_replacement(N, k):
                if not all(commute(al[i], al[j]) for i, j in itertools.combinations(t, 2)):
                    continue
                # two equal odd operators: the product is its own negative
                if any(al[i] == al[j] and odd(al[i]) for i, j in itertools.combinations(t, 2)):
                    continue
                out.append(["p", n, t])
        # long words: periodic, and a block inside another one
        for k in range(6, 17 if th else 11):
            for p in (1, 2, 3):
                for t in itertools.product(N, repeat=p):
                    out.append(["w", n, [t[i % p] for i in range(k)], False])
            for x, y in itertools.permutations(N, 2):
                for j in range(1, k):
                    out.append(["w", n, [x] * j + [y] * (k - j), False])
                    out.append(["w", n, [x] * (j // 2) + [y] + [x] * (k - 1 - j // 2), False])
        # sums of many words
        for k in (2, 3):
            for q in range(8):
                ws = [t for j, t in enumerate(itertools.product(N, repeat=k)) if j % 8 <= q]
                out.append(["s", n, ws])
        two = [t for k in ((1, 2, 3) if th and n == 3 else (1, 2)) for t in itertools.product(N, repeat=k)]
        for u, v in itertools.combinations_with_replacement(two, 2):
            out.append(["l", n, u, v, "1/2", "-1/2" if (len(u) + u[0] + v[-1]) % 2 else "3"])
    return out


def jobs(tier):
    return C.chunks(cases(tier), 120)


def run(job, a):
    import wicked as w
    for case in job:
        vc.crumb(json.dumps(case))
        msg = run_case(w, case, a)
        a.states += 1
        a.transitions += len(case[2]) if case[0] == "w" else len(all_or_some(len(case[2]))) if case[0] in ("p", "c") else len(case[2]) if case[0] == "s" else 3   # factors, permutations, canonicalizations
        a.validated += 1
        if case[0] == "w" and len(case[2]) > 3:
            a.sample(json.dumps([ALPHA[case[1]][1][i] for i in case[2]]))
        if msg:
            a.bad(case, msg)


def replay(case):
    import wicked as w
    return run_case(w, case, vc.Acc())
