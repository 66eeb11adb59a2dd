"""C10: vacuum normal ordering is an exact operator identity."""
import itertools, json
from fractions import Fraction as F
import common as C
import fock, vc
import terms as T

ID = "C10"
LEVEL = "model_checking"
TECHNIQUE = "bounded exhaustive enumeration of operator strings on the real code against exact Fock-space action and explicit pairing enumeration"
RULE = ("all strings of creation/annihilation operators up to the length bound over pools of fermionic and bosonic indices (every pattern of equal indices), and all longer strings with "
        "distinct indices, and strings of up to 33 [40] operators with few contractions in many orders, are normal ordered in both modes; strings and results are applied to every basis state of the Fock space for every way in which "
        "index names can coincide in value (only distinct values in the same-index mode), or compared with the sum over all pairings; ordering, tensors, coefficients and rejection "
        "of labelled normal-ordered terms are checked in every case")
ASSUME = ["string lengths and index pools up to the bounds of the evidence"]
CFG = "ovb"
LAB = {"o": 0, "v": 1, "B": 2}


def letters(names):
    return [(c, (n[0], int(n[1:]))) for n in names for c in (True, False)]


def alphabets(tier):
    th = tier == "thorough"
    out = [(["o0", "o1", "v0", "B0", "B1"], range(0, 5)), (["v0", "v1", "v2"], range(5, 6)), (["B0", "B1"], range(5, 8 if th else 7)), (["o0", "B0"], range(5, 9 if th else 8)),
           (["o0", "o1"], range(5, 7)), (["v2", "v5", "B3"], range(5, 6))]
    out += [(["o0", "o1", "v0", "B0"], range(5, 6)), (["o0", "o1", "o2"], range(6, 7))]
    if th:
        out += [(["o0", "o1", "v0", "B0", "B1"], range(5, 6)), (["o0", "o1", "o2"], range(7, 8)), (["o0", "v0", "B0"], range(6, 7)), (["o0", "o1"], range(7, 9))]
    return out


def long_strings(n):
    """strings of n operators with distinct indices and few possible contractions"""
    seen = set()
    for sp in ("o", "oB", "ovB", "oooB", "BBo", "vo"):
        ix = [(sp[k % len(sp)], k) for k in range(n)]
        cre, ann = [(True, i) for i in ix], [(False, i) for i in ix]
        split = [cre[:h] + ann[h:] for h in (0, n // 3, n // 2, n - 2, n)]
        swap = [[(False, ("o", k)) for k in range(n // 2)] + [(True, (("v", "B")[k % len(set(sp)) % 2], k)) for k in range(n // 2, n)]]
        few = [[(False, ("o", 50))] + cre, cre[:3] + [(False, ("o", 50))] + cre[3:], [(False, ("B", 50)), (False, ("o", 51))] + cre[:n - 2] if n <= 20 else cre, ann[1:] + [(True, ix[0][:1] + (60,))],
               [(False, ("o", 50)), (False, ("o", 40))] + cre[:8] + [(True, ("v", 70 + k)) for k in range(n - 8)] if n <= 20 else ann]
        for base in split + swap + few:
            perms = [tuple(range(len(base)))]
            if base in split and all(x == y for x, y in zip([b[0] for b in base], sorted([b[0] for b in base], reverse=True))) and (base[0][0] == base[-1][0]):
                perms += T.some_perms(len(base))
            elif base in split:
                h = sum(b[0] for b in base)
                perms += [p + tuple(range(h, len(base))) for p in T.some_perms(h)[::3]] + [tuple(range(h)) + tuple(h + x for x in p) for p in T.some_perms(len(base) - h)[::3]]
                perms += [tuple(reversed(range(h))) + tuple(h + x for x in p) for p in T.some_perms(len(base) - h)[::4]]
            for p in perms:
                s = tuple(base[k] for k in p)
                if s not in seen:
                    seen.add(s)
                    yield s


def longest_strings(n):
    """hundreds of operators, at most one pair can be contracted"""
    for sp in ("o", "oB", "ovB"):
        ix = [(sp[k % len(sp)], k) for k in range(n)]
        cre, ann = [(True, i) for i in ix], [(False, i) for i in ix]
        for base in (cre, ann):
            for s in (base, base[::-1], base[n // 2:] + base[:n // 2]):
                yield tuple(s)
        yield tuple([(False, ("v", 499))] + cre[::-1]) if sp == "o" else tuple([(False, ("o", 499))] + [x for x in cre if x[1][0] != "o"][::-1])
        yield tuple(ann[::2] + cre[::-2]) if sp == "oB" else tuple(cre[::2] + ann[1::2])
    yield tuple([(False, ("o", k)) for k in range(n // 2)] + [(True, ("v", k)) for k in range(n // 2)])
    yield tuple([(False, ("o", 499)), (True, ("o", 498))] + [(True, ("v", k)) for k in range(n, 0, -1)])


def jobs(tier):
    out = [["longest", n] for n in ([50, 100, 150, 250, 400] if tier == "thorough" else [64, 150, 200])]
    for names, R in alphabets(tier):
        for n in R:
            tot = (2 * len(names)) ** n
            k = max(1, min(200, tot // 150))
            out += [["str", names, n, i, k] for i in range(k)]
    top = 10 if tier == "thorough" else 9
    out += [["dist", n, i, 16] for n in range(1, top + 1) for i in range(16)]
    out += [["sums", i, 16] for i in range(16)]
    out += [["powers", n, m] for n in range(1, 7) for m in range(1, 7) if n + m <= (11 if tier == "thorough" else 9)]
    out += [["long", n] for n in ([10, 11, 12, 13, 16, 17, 20, 24, 31, 32, 33, 40] if tier == "thorough" else [10, 12, 15, 16, 17, 20, 24, 33])]
    out.sort(key=lambda j: -j[2] if j[0] == "str" else -j[1])
    return out


# ---------------------------------------------------------------- models
def partitions(names):
    """all maps of the index names to values such that names of different spaces never coincide"""
    by = {}
    for n in sorted(set(names)):
        by.setdefault(n[0], []).append(n)
    per = []
    for s, v in by.items():
        per.append([{n: (s, k) for n, k in zip(v, p)} for p in C.set_partitions(len(v))])
    for c in itertools.product(*per):
        yield {k: v for d in c for k, v in d.items()}


def act(string, st, bos):
    """string of (cre, mode) on a basis state; fermion modes numbered first"""
    mask, occ, f = st[0], list(st[1:]), 1
    for cre, m in reversed(string):
        if m >= 0:
            if cre == bool(mask >> m & 1):
                return 0, None
            if bin(mask & ((1 << m) - 1)).count("1") & 1:
                f = -f
            mask ^= 1 << m
        else:
            k = -1 - m
            if cre:
                occ[k] += 1
            else:
                if occ[k] == 0:
                    return 0, None
                f *= occ[k]
                occ[k] -= 1
    return f, (mask, *occ)


def semantic(inp, out, same):
    """inp, out: [(coef, tensors, ops)]; compare as operators for all index values (distinct values only when same)"""
    names = {i for _, t, o in inp for _, i in o} | {i for _, t, o in out for _, i in o} | {i for _, t, o in out for l, u, d in t if l == "delta" for i in u + d}
    if {i for _, t, o in out for _, i in o} - {i for _, t, o in inp for _, i in o}:
        return "an index appears that is not in the input"
    for val in partitions(names):
        if same and len(set(val.values())) < len(val):
            continue
        modes = {}
        nf = nb = 0
        for v in sorted(set(val.values())):
            if v[0] == "B":
                modes[v] = -1 - nb
                nb += 1
            else:
                modes[v] = nf
                nf += 1
        nann = [0] * nb
        for _, t, o in inp + out:
            c = [0] * nb
            for cre, i in o:
                m = modes[val[i]]
                if m < 0 and not cre:
                    c[-1 - m] += 1
            nann = [max(a, b) for a, b in zip(nann, c)]
        terms = []
        for side, e in ((1, inp), (-1, out)):
            for c, t, o in e:
                z = False
                rest = []
                for l, u, d in t:
                    if l == "delta" and side < 0 and len(u) == 1 and len(d) == 1:
                        if val[u[0]] != val[d[0]]:
                            z = True
                    else:
                        rest.append((l, u, d))
                if not z:
                    terms.append((side * c, repr(rest), [(cre, modes[val[i]]) for cre, i in o]))
        for mask in range(1 << nf):
            for occ in itertools.product(*[range(x + 1) for x in nann]):
                tot = {}
                for c, rest, s in terms:
                    f, st = act(s, (mask, *occ), nb)
                    if f:
                        tot[rest, st] = tot.get((rest, st), 0) + c * f
                bad = {k: v for k, v in tot.items() if v}
                if bad:
                    return "with index values %s the two sides differ on the state %s: %s" % ({C_istr(k): v[1] for k, v in val.items()}, (mask, *occ), list(bad.items())[:3])
    return None


def C_istr(i):
    return "%s%d" % i


def normal_form(c, tens, ops):
    """all indices distinct: key and coefficient with operators sorted"""
    key = sorted(range(len(ops)), key=lambda k: (not ops[k][0], ops[k][1]))
    s = 1
    for a in range(len(key)):
        for b in range(a + 1, len(key)):
            if key[a] > key[b] and ops[key[a]][1][0] != "B" and ops[key[b]][1][0] != "B":
                s = -s
    return (tuple(sorted(tens)), tuple(ops[k] for k in key)), c * s


def pairings(ops):
    """every normal ordering of a string of distinct indices: {key: coef}"""
    out = {}

    def rec(rem, pairs, sign):
        # sign accumulated by moving each contracted pair together
        k, c = normal_form(sign, pairs, [ops[i] for i in rem])
        out[k] = out.get(k, 0) + c
    n = len(ops)

    def choose(i, rem, pairs, sign):
        while i < n and (i not in rem or ops[i][0]):
            i += 1
        if i >= n:
            rec(rem, pairs, sign)
            return
        choose(i + 1, rem, pairs, sign)
        for j in rem:
            if j > i and ops[j][0] and ops[j][1][0] == ops[i][1][0]:
                between = [x for x in rem if i < x < j and ops[x][1][0] != "B"]
                s = -1 if ops[i][1][0] != "B" and len(between) % 2 else 1
                choose(i + 1, [x for x in rem if x not in (i, j)], pairs + [(ops[i][1], ops[j][1])], sign * s)
    choose(0, list(range(n)), [], 1)
    return {k: v for k, v in out.items() if v}


# ---------------------------------------------------------------- driving the implementation
_c = {}


def setup():
    import wicked as w
    C.spaces(w, CFG)
    if not _c:
        T = w.type
        _c.update({(c, (s, n)): w.SQOperator(T.cre if c else T.ann, w.Index(k, n)) for s, k in LAB.items() for n in range(512) for c in (True, False)})
        _c["A"] = w.Tensor("A", [w.Index(0, 3)], [w.Index(1, 4)], w.sym.anti)
    return w


def build(w, terms):
    e = w.Expression()
    for c, t, ops in terms:
        s = w.SymbolicTerm()
        if t:
            s.add(_c["A"])
        if ops:
            s.add([_c[o] for o in ops])
        x = w.Term(s)
        x.set(w.rational(F(c).numerator, F(c).denominator))
        e += x
    return e


def pidx(s):
    k = 0
    while not s[k].isdigit():
        k += 1
    return (s[:k].rstrip("_"), int(s[k:]))


def parse(e):
    out = []
    for c, t, o in fock.parse_expr(str(e)):
        out.append((c, [(l, tuple(map(pidx, u)), tuple(map(pidx, d))) for l, u, d in t], [(cre, pidx(i)) for cre, i, _ in o]))
    return out


def structure(w, r, out, before, e):
    if str(e) != before:
        return "normal ordering changed its argument:\n%s\nbecame\n%s" % (before, e)
    for c, t, o in out:
        k = [cre for cre, _ in o]
        if k != sorted(k, reverse=True):
            return "a creation operator stands to the right of an annihilation operator:\n%s\ngives\n%s" % (before, r)
    if "{ " in str(r):
        return "the result of normal ordering is labelled normal ordered: %s -> %s" % (before, r)
    if not r.is_vacuum_normal_ordered():
        return "the result of normal ordering is not reported as vacuum normal ordered: %s -> %s" % (before, r)
    return None


def check(w, terms, distinct=False, long=False):
    e = build(w, terms)
    before = str(e)
    A = [("A", (("v", 4),), (("o", 3),))]
    inp = [(F(c), A if t else [], list(o)) for c, t, o in terms]
    for same in (False, True):
        r = e.vacuum_normal_ordered(same)
        out = parse(r)
        m = structure(w, r, out, before, e)
        if not m:
            if distinct and (long or not same):
                want = {}
                for c, t, o in inp:
                    if same:
                        # nothing is contracted
                        k, v = normal_form(c, [], o)
                        want[k] = want.get(k, 0) + v
                        continue
                    for k, v in pairings(o).items():
                        want[k] = want.get(k, 0) + c * v
                got = {}
                for c, t, o in out:
                    k, v = normal_form(c, [(d[0], u[0]) for l, u, d in t], o)
                    got[k] = got.get(k, 0) + v
                if len(want) > 0 and {k: v for k, v in want.items() if v} != {k: v for k, v in got.items() if v}:
                    # the position of the two delta indices is symmetric
                    sw = lambda d: {(tuple(sorted(tuple(sorted(p)) for p in k[0])), k[1]): v for k, v in d.items() if v}
                    if sw(want) != sw(got):
                        m = "not the sum over all pairings"
            else:
                m = semantic(inp, out, same)
        if m:
            return "vacuum_normal_ordered(%s) of\n%s\ngives\n%s\n%s" % (same, before, r, m)
    ann = [any(not o[i][0] and o[i + 1][0] for i in range(len(o) - 1)) for _, _, o in terms]
    if any(ann) and e.is_vacuum_normal_ordered():
        return "reported as vacuum normal ordered: %s" % before
    return None


def reject(w, terms):
    e = build(w, terms[:-1])
    c, t, ops = terms[-1]
    s = w.SymbolicTerm()
    s.add([_c[o] for o in ops])
    s.set_normal_ordered(True)
    e += s
    before = str(e)
    try:
        r = e.vacuum_normal_ordered(False)
    except Exception:
        return None if str(e) == before else "a rejected normal ordering changed the expression %s" % before
    return "a labelled normal-ordered expression was not rejected: %s -> %s" % (before, r)


def run(job, a):
    w = setup()
    if job[0] == "str":
        L = letters(job[1])
        for k, ops in enumerate(itertools.product(L, repeat=job[2])):
            if k % job[4] != job[3]:
                continue
            terms = [(F(1), False, ops)] if k % 4 else [(F(-2, 3), True, ops)]
            case = ["t", [[str(c), t, o] for c, t, o in terms], False]
            vc.crumb(json.dumps(case))
            m = check(w, terms)
            a.states += 1
            a.transitions += 2
            a.validated += 2
            if m:
                a.bad(case, m)
            if ops and k % 5 == 0:
                m = reject(w, [(F(1), False, ops[:1]), (F(1), False, ops)])
                a.count("rejections")
                if m:
                    a.bad(["r", [["1", False, ops[:1]], ["1", False, ops]]], m)
            if job[2] > 3:
                a.sample("%s normal ordered" % build(w, terms))
    elif job[0] == "dist":
        n = job[1]
        sp = "ovB" if n <= 5 else "oB" if n <= 6 else "o"
        for k, (cs, ss) in enumerate(itertools.product(itertools.product((True, False), repeat=n), itertools.product(sp, repeat=n))):
            if k % job[3] != job[2]:
                continue
            num = [(5 * i + 1) % 11 for i in range(n)] if k % 2 else list(range(n))
            ops = tuple((c, (s, i)) for c, s, i in zip(cs, ss, num))
            terms = [(F(1), False, ops)]
            case = ["t", [[str(c), t, o] for c, t, o in terms], True]
            vc.crumb(json.dumps(case))
            m = check(w, terms, True)
            if not m and n <= 4:
                # the two models agree on these strings
                m = check(w, terms, False)
            a.states += 1
            a.transitions += 2
            a.validated += 2
            if m:
                a.bad(case, m)
    elif job[0] == "powers":
        n, m = job[1], job[2]
        B, x, y = ("B", 0), ("o", 0), ("B", 1)
        for ops in ([(False, B)] * n + [(True, B)] * m, [(True, B)] + [(False, B)] * n + [(True, B)] * m, [(False, B), (True, B)] * min(n, m, 4), [(False, x)] + [(False, B)] * n + [(True, B)] * m + [(True, x)],
                    [(False, y)] + [(False, B)] * n + [(True, B)] * m + [(True, y)]):
            terms = [(F(1, 2), True, tuple(ops))]
            case = ["t", [[str(c), t, o] for c, t, o in terms], False]
            vc.crumb(json.dumps(case))
            msg = check(w, terms)
            a.states += 1
            a.transitions += 2
            a.validated += 2
            if msg:
                a.bad(case, msg)
    elif job[0] in ("long", "longest"):
        for ops in (long_strings if job[0] == "long" else longest_strings)(job[1]):
            terms = [(F(3, 7), False, ops)]
            case = ["l", [[str(c), t, o] for c, t, o in terms], True]
            vc.crumb(json.dumps(case))
            m = check(w, terms, True, True)
            a.states += 1
            a.transitions += 2
            a.validated += 2
            a.count("long strings")
            if m:
                a.bad(case, m)
    else:
        L = letters(["o0", "o1", "B0"])
        base = [(), *itertools.product(L, repeat=2), *list(itertools.product(L, repeat=3))[::7]]
        prs = list(itertools.combinations(range(len(base)), 2))
        for k, (i, j) in enumerate(prs):
            if k % job[2] != job[1]:
                continue
            terms = [(F(1, 2), k % 3 == 0, base[i]), (F(-3), k % 2 == 0, base[j])]
            case = ["t", [[str(c), t, o] for c, t, o in terms], False]
            vc.crumb(json.dumps(case))
            m = check(w, terms)
            a.states += 1
            a.transitions += 2
            a.validated += 2
            if m:
                a.bad(case, m)


def unj(terms):
    return [(F(c), t, tuple((cre, tuple(i)) for cre, i in o)) for c, t, o in terms]


def replay(case):
    w = setup()
    if case[0] == "l":
        return check(w, unj(case[1]), True, True)
    return check(w, unj(case[1]), case[2]) if case[0] == "t" else reject(w, unj(case[1]))
