"""C11: expressions form an algebra with exact rational coefficients."""
import itertools, json, math
from fractions import Fraction as F
import common as C
import algmodel as M
import terms as T
import vc

ID = "C11"
LEVEL = "model_checking"
TECHNIQUE = "explicit-state exploration of operation sequences on the real objects against an exact model"
RULE = ("breadth-first exploration from single-term generators: every unary and binary operation (sum, difference, negation, scalar multiple, product, the in-place forms, aliased operands) "
        "applied to every pair of expressions reached so far, up to the depth bound; every resulting object is compared with a model over exact fractions, operands are checked to be "
        "unmodified, and equality, dot product and norm are evaluated on all pairs of reached states")
ASSUME = ["generators and depth as listed; associativity and distributivity follow from agreement with the free-algebra model on every reached state"]


def gens_e(w):
    """[(object, model)]"""
    i = w.index
    S = w.sym
    out = []

    def mk(c, tens, ops, flag=False):
        s = w.SymbolicTerm()
        for t, sy in tens:
            s.add(w.tensor(t, sy))
        if ops:
            s.add([w.sqoperator(o[3:-1], w.type.cre if o[1] == "+" else w.type.ann) for o in ops])
        s.set_normal_ordered(flag)
        x = w.Term(s)
        c = F(c)
        x.set(w.make_rational(str(c)))
        e = w.Expression()
        e += x
        return e, {(tuple(t for t, _ in tens), tuple(ops), flag): c}, s, c
    out.append(mk(1, [("A^{o0}_{v0}", S.anti)], []))
    out.append(mk(F(-2, 3), [("A^{o1}_{v0}", S.anti)], []))
    out.append(mk(F(1, 2), [("A^{o0}_{v0}", S.anti)], ["a+(v0)", "a-(o0)"]))
    out.append(mk(F(5, 2), [], ["a+(v0)", "a-(o0)"]))
    out.append(mk(-1, [], ["a-(o0)", "a+(v0)"]))
    out.append(mk(3, [], []))
    out.append(mk(F(10 ** 25, 7), [("B^{}_{}", S.symm)], []))
    out.append(mk(F(7, 3), [], ["a+(v0)", "a-(o0)"], True))
    return out


def gens_o(w):
    out = []
    for c, l, s in ((1, "T", "v+ o"), (-1, "T", "v+ o"), (F(1, 2), "T", "v+ v+ o o"), (F(3, 2), "V", "v+ o"), (-2, "V", "o+ v")):
        e = w.OperatorExpression()
        c = F(c)
        e.add2(w.op(l, [s]), w.make_rational(str(c)))
        out.append((e, {((l, tuple(s.split())),): c}))
    return out


COEF = [F(-1), F(1, 2), F(-3, 2), F(0), F(10 ** 20)]


def rat(w, c):
    return w.make_rational(str(c))


def key(m):
    return tuple(sorted(m.items()))


def pools(w, kind, tier):
    """level-0 and level-1 states: [(object, model)]"""
    g = [x[:2] for x in (gens_e(w) if kind == "E" else gens_o(w))]
    empty = (w.Expression(), {}) if kind == "E" else (w.OperatorExpression(), {})
    l0 = [empty] + g
    seen = {key(m): 1 for _, m in l0}
    l1 = list(l0)
    for i, j in itertools.product(range(len(l0)), repeat=2):
        for name, f, mf in binops(kind):
            mm = mf(l0[i][1], l0[j][1])
            if mm is None or key(mm) in seen:
                continue
            seen[key(mm)] = 1
            l1.append((f(l0[i][0], l0[j][0]), mm))
    if kind == "E":
        for e, m in l0:
            for c in COEF:
                mm = M.lin((c, m))
                if key(mm) not in seen:
                    seen[key(mm)] = 1
                    l1.append((e * rat(w, c), mm))
    return l0, l1


def binops(kind):
    mul = M.emul if kind == "E" else M.omul
    return [("+", lambda a, b: a + b, lambda a, b: M.lin((1, a), (1, b))), ("-", lambda a, b: a - b, lambda a, b: M.lin((1, a), (-1, b))), ("@", lambda a, b: a @ b, mul)]


def parse(kind, e):
    return M.parse_e(e) if kind == "E" else M.parse_o(e)


def size(kind, e):
    return len(e) if kind == "E" else e.size()


def same(kind, e, m):
    try:
        p = parse(kind, e)
    except ValueError as x:
        return str(x)
    if p != m:
        return "prints as\n%s\ninstead of %s" % (e, m)
    if size(kind, e) != len(m):
        return "has %d terms instead of %d:\n%s" % (size(kind, e), len(m), e)
    return None


def pair(w, kind, A, B, alias):
    """all binary operations on one pair of states; -> (message, number of operations)"""
    (a, ma), (b, mb) = A, B
    if alias:
        b, mb = a, ma
    sa, sb = str(a), str(b)
    n = 0
    for name, f, mf in binops(kind):
        n += 1
        mm = mf(ma, mb)
        what = "(%s) %s (%s)" % (sa.replace("\n", " "), name, sb.replace("\n", " "))
        if mm is None:
            try:
                r = f(a, b)
            except Exception:
                if str(a) != sa or str(b) != sb:
                    return what + ": the rejected product modified an operand", n
                continue
            return what + ": a product of normal-ordered expressions was not rejected, it gave\n%s" % r, n
        r = f(a, b)
        m = same(kind, r, mm)
        if m:
            return what + " " + m, n
        if str(a) != sa or str(b) != sb:
            return what + " modified an operand", n
    eq = a == b
    if eq != (ma == mb) or (a != b) == eq:
        return "equality of\n%s\nand\n%s\nis reported as %s" % (sa, sb, eq), n
    n += 1
    if kind == "E":
        d = a.dot(b)
        want = sum((ma[k] * mb[k] for k in ma if k in mb), F(0))
        if F(int(d.numerator()), int(d.denominator())) != want:
            return "dot product of\n%s\nand\n%s\nis %s instead of %s" % (sa, sb, d, want), n
        n += 1
    else:
        for c in (F(1), F(-1), F(2, 3)):
            x = a + w.OperatorExpression()
            x.add2(x if alias else b, rat(w, c))
            m = same(kind, x, M.lin((1, ma), (c, mb)))
            if m:
                return "add2(%s, %s) to (%s) %s" % ("itself" if alias else sb.replace("\n", " "), c, sa.replace("\n", " "), m), n
            if str(b) != sb:
                return "add2 modified its argument %s" % sb, n
            y = rat(w, c) * a
            m = same(kind, y, M.lin((c, ma)))
            if m or str(a) != sa:
                return "%s * (%s) %s" % (c, sa.replace("\n", " "), m or "modified its operand"), n
            z = w.OperatorExpression(b)
            z.add2(a, rat(w, c))
            m = same(kind, z, M.lin((1, mb), (c, ma)))
            if m or str(b) != sb:
                return "add2 to a copy of (%s) %s" % (sb.replace("\n", " "), m or "modified the original"), n
            n += 3
        if rat(w, F(0)) * a != w.OperatorExpression():
            return "0 * (%s) is not zero" % sa.replace("\n", " "), n
    return None, n


def iterate(w, a, ma, sa):
    """iteration yields every term once, as copies; changing them or the expression meanwhile is safe"""
    got = w.Expression()
    k = 0
    for s, c in a:
        got += (s, c)
        k += 1
    m = same("E", got, ma)
    if m or k != len(ma):
        return "the terms obtained by iterating over (%s) sum to an expression that %s (%d terms)" % (sa, m, k)
    for s, c in a:
        s.set_normal_ordered(True)
        s.add(w.tensor("Z^{o5}_{}", w.sym.anti))
        c += w.rational(5)
    m = same("E", a, ma)
    if m or str(a) != sa:
        return "changing the terms obtained by iterating over (%s) changes the expression: it %s" % (sa, m)
    for how in range(4):
        x = a + w.Expression()
        k = 0
        for s, c in x:
            k += 1
            if how == 0:
                x += (s, w.rational(-1) * c)
            elif how == 1:
                x -= x
            elif how == 2:
                t = w.SymbolicTerm()
                t.add(w.tensor("Z%d^{o5}_{}" % k, w.sym.anti))
                x += (t, w.rational(k))
            else:
                x += x
        if how == 0:
            want = {}
        elif how == 1:
            want = {} if k else ma
        elif how == 2:
            want = M.lin((1, ma), (1, {((("Z%d^{o5}_{}" % j),), (), False): F(j) for j in range(1, k + 1)}))
        else:
            want = M.lin((2 ** k, ma))
        m = same("E", x, want)
        if m or k != len(ma):
            return "changing (%s) while iterating over it (%d) gives %d terms and a result that %s" % (sa, how, k, m)
    return None


def unary(w, kind, A, gens):
    a, ma = A
    sa = str(a)
    n = 0
    m = same(kind, a, ma)
    if m:
        return "the expression " + m, n
    if kind == "E":
        m = same(kind, -a, M.lin((-1, ma)))
        if m:
            return "-(%s) %s" % (sa, m), n
        for c in COEF:
            m = same(kind, a * rat(w, c), M.lin((c, ma)))
            if m:
                return "(%s) * %s %s" % (sa, c, m), n
        want = math.sqrt(sum(float(v * v) for v in ma.values()))
        if abs(a.norm() - want) > 1e-12 * max(1.0, want):
            return "norm of %s is %r instead of %r" % (sa, a.norm(), want), n
        n += 7
        for g, mg, s, c in gens:
            for form in range(3):
                x = a + w.Expression()
                keep = x
                if form == 0:
                    t = w.Term(s)
                    t.set(rat(w, c))
                    x += t
                    mm = M.lin((1, ma), (1, mg))
                elif form == 1:
                    x += (s, rat(w, c))
                    mm = M.lin((1, ma), (1, mg))
                else:
                    x += s
                    mm = M.lin((1, ma), (1 / c, mg))
                m = same(kind, x, mm)
                if m:
                    return "(%s) += %s (form %d) %s" % (sa, list(mg.items()), form, m), n
                if keep is x and str(keep) != str(x):
                    return "in-place addition is not in place", n
                n += 1
        m = iterate(w, a, ma, sa)
        if m:
            return m, n
        n += 4
        x = a + w.Expression()
        x += g
        x -= g
        if not (x == a) or str(x) != sa:
            return "adding and subtracting %s from %s gives %s" % (g, sa, x), n
    if str(a) != sa:
        return "an operation modified its operand %s" % sa, n
    return None, n


WCOEF = [F(1), F(-2, 3), F(-1), F(5), F(10 ** 30, 7), F(1, 2 ** 70)]


def wide_model(terms):
    return {(tuple(T.tstr(t) for t in ts), tuple("%s%s(%s)" % ("b" if i[0] in "B" else "a", "+" if c else "-", T.istr(i)) for c, i in ops), flag): F(c) for (ts, ops, flag), c in terms}


def wide_states(w, tier):
    """sums of many terms, their halves and shifted copies"""
    b = T.Builder(w, "ov", {})
    out = []
    for n in (9, 33, 70) if tier == "quick" else (9, 17, 33, 70, 140, 260):
        for s in T.wide("ov", [n], WCOEF):
            out.append(s)
        h = list(T.wide("ov", [n], WCOEF[::-1]))[-1]
        seen = {}
        for (ts, ops, f), c in h:
            seen.setdefault((ts, ops, False), c)
        h = list(seen.items())
        out += [h[:n // 2], h[n // 3:], [(t, -c) for t, c in out[-1]]]
    return [(b.expr([(t, rat(w, c)) for t, c in s]), wide_model(s)) for s in out]


def wide_pairs(st, n):
    for x in range(len(st)):
        for y in range(len(st)):
            if len(st[x][1]) * len(st[y][1]) <= n:
                yield x, y


def wide_ops(w, tier):
    """sums of many operator products: powers of sums by repeated multiplication"""
    g = gens_o(w)
    out = []
    for picks in ((0, 2, 3), (0, 3, 4, 2), (1, 4), (0, 2, 3, 4)):
        e, m = w.OperatorExpression(), {}
        for p in picks:
            e.add2(g[p][0], w.rational(1))
            m = M.lin((1, m), (1, g[p][1]))
        x, mx = e, m
        for k in range(3 if tier == "quick" else 4):
            out.append((x, mx))
            x, mx = x @ e, M.omul(mx, m)
            if len(mx) > (260 if tier == "quick" else 1100):
                break
    return out


def jobs(tier):
    n = 60
    return [["W", k, i, 12, tier] for k in "EO" for i in range(12)] + [[k, i, n, tier] for k in "EO" for i in range(n)]


def depth2(w, kind, l0, l1, i, n, a):
    """apply operations to level-2 states: products and differences of level-1 states with a generator"""
    bo = binops(kind)
    for k, (x, y) in enumerate(itertools.product(range(len(l1)), range(len(l0)))):
        if k % n != i:
            continue
        for name, f, mf in bo:
            m2 = mf(l1[x][1], l0[y][1])
            if m2 is None:
                continue
            e2 = f(l1[x][0], l0[y][0])
            for z in range(1, len(l0)):
                case = [kind, "d", x, y, name, z]
                vc.crumb(json.dumps(case))
                msg, c = pair(w, kind, (e2, m2), l0[z], False)
                a.states += 1
                a.transitions += c
                a.validated += c
                if msg:
                    a.bad(case, msg)


def wide_case(w, case):
    C.spaces(w, "ov")
    st = (wide_states if case[0] == "E" else wide_ops)(w, case[2])
    if case[1] == "wu":
        return unary(w, case[0], st[case[3]], gens_e(w) if case[0] == "E" else None)
    return pair(w, case[0], st[case[3]], st[case[4]], case[3] == case[4])


def run_wide(w, job, a):
    _, kind, i, n, tier = job
    C.spaces(w, "ov")
    st = (wide_states if kind == "E" else wide_ops)(w, tier)
    gens = gens_e(w) if kind == "E" else None
    todo = [(k,) for k in range(len(st))] + list(wide_pairs(st, 1300 if tier == "quick" else 20000))
    for k in range(i, len(todo), n):
        t = todo[k]
        case = [kind, "wu" if len(t) == 1 else "wp", tier] + list(t)
        vc.crumb(json.dumps(case))
        msg, c = unary(w, kind, st[t[0]], gens) if len(t) == 1 else pair(w, kind, st[t[0]], st[t[1]], t[0] == t[1])
        a.states += 1
        a.transitions += c
        a.validated += c
        a.count("states with many terms" if len(t) == 1 else "pairs of sums of many terms")
        if msg:
            a.bad(case, msg[:3000])


def run(job, a):
    import wicked as w
    if job[0] == "W":
        return run_wide(w, job, a)
    kind, i, n, tier = job
    C.spaces(w, "ov")
    gens = gens_e(w) if kind == "E" else None
    l0, l1 = pools(w, kind, tier)
    prs = list(itertools.product(range(len(l1)), repeat=2))
    for k in range(i, len(l1), n):
        case = [kind, "u", k]
        vc.crumb(json.dumps(case))
        msg, c = unary(w, kind, l1[k], gens)
        a.states += 1
        a.transitions += c
        a.validated += c
        a.sample("state: %s" % str(l1[k][0]).replace("\n", " ; "))
        if msg:
            a.bad(case, msg)
    for k in range(i, len(prs), n):
        x, y = prs[k]
        case = [kind, "p", x, y]
        vc.crumb(json.dumps(case))
        msg, c = pair(w, kind, l1[x], l1[y], x == y)
        a.states += 1
        a.transitions += c
        a.validated += c
        if msg:
            a.bad(case, msg)
    depth2(w, kind, l0, l1, i, n, a)


def replay(case):
    import wicked as w
    kind = case[0]
    if case[1] in ("wu", "wp"):
        return wide_case(w, case)[0]
    C.spaces(w, "ov")
    l0, l1 = pools(w, kind, "quick")
    if case[1] == "u":
        return unary(w, kind, l1[case[2]], gens_e(w) if kind == "E" else None)[0]
    if case[1] == "p":
        return pair(w, kind, l1[case[2]], l1[case[3]], case[2] == case[3])[0]
    f, mf = [(f, mf) for n, f, mf in binops(kind) if n == case[4]][0]
    x, y = l1[case[2]], l0[case[3]]
    return pair(w, kind, (f(x[0], y[0]), mf(x[1], y[1])), l0[case[5]], False)[0]
