"""C20: the Python einsum generator computes the equation."""
import json, re
from fractions import Fraction as F
import common as C
import minieinsum as E
import c19
import vc

ID = "C20"
LEVEL = "model_checking"
TECHNIQUE = "bounded exhaustive enumeration of equations on the real generator; the generated statement is executed exactly and compared with direct evaluation of the equation"
RULE = ("the equations of C19 (every pattern of index coincidence and every placement of the slots in upper and lower indices up to the slot bound, six registries, coefficient grid, equations of real contractions) are passed to "
        "compile_einsum; the statement is executed with exact arithmetic and must give the direct sum, with letters one to one to indices and all letters taken from the registered names; an error is demanded exactly when the names of a "
        "space run out or the next name is not a letter, and for equations with operators, without left-hand tensor or without right-hand tensors")
ASSUME = ["arrays of the tensors have small dimensions (2 and 3) with nonzero integer entries", "numpy.einsum is represented by an exact stand-in that follows its rules for explicit outputs",
          "coefficients are compared to the eight decimals printed"]


def feasible(w, lhs, rhs):
    """can the registered names be assigned in order of first use?"""
    names = {k: list(v) for k, v in w.osi().to_dict().items()}
    seen = set()
    for t in list(rhs) + [lhs]:
        for i in t[1] + t[2]:
            if i in seen:
                continue
            seen.add(i)
            n = names[i[0]]
            if not n:
                return False
            x = n.pop(0)
            if not (len(x) == 1 and x.isascii() and x.isalpha()):
                return False
    return True


N = [0, 0]   # statements compiled; statements executed and compared


def check(w, lhs, rhs, c):
    N[0] += 1
    q = c19.equation(w, lhs, rhs, c)
    text, reg = str(q), str(w.osi().to_dict())
    c = F(c)
    blocks = {t[0]: E.Block(t[0], c19.DIM) for t in rhs}
    ok = feasible(w, lhs, rhs)
    try:
        code = w.compile_einsum(q)
    except ValueError as e:
        return "compile_einsum of %s is refused: %s" % (text, e) if ok and rhs else None
    if str(q) != text or str(w.osi().to_dict()) != reg:
        return "compile_einsum changed the equation %s or the registry %s" % (text, reg)
    if w.compile_einsum(c19.equation(w, lhs, rhs, str(c))) != code:
        return "compile_einsum of %s depends on earlier calls" % text
    if not rhs:
        return "compile_einsum of %s gives %s" % (text, code)
    want = c19.direct(lhs, rhs, blocks)
    N[1] += 1
    m = c19.letters(code, lhs, rhs)
    if m:
        return "compile_einsum of %s is\n%s\n%s" % (text, code, m)
    try:
        got = c19.evaluate("einsum", code, lhs, rhs, blocks, c)
    except E.CodeError as e:
        return None if want is None else "compile_einsum of %s is\n%s\nwhich cannot be executed: %s" % (text, code, e)
    if want is None:
        return "compile_einsum of %s\n%s\nis executable although the equation is not a contraction" % (text, code)
    if not ok:
        return "compile_einsum of %s uses other letters than the registered ones:\n%s" % (text, code)
    tol = F(1, 2 * 10 ** 8) + abs(c) * F(1, 2 ** 50)
    for k in set(got) | set(want):
        x = want.get(k, F(0))
        if abs(got.get(k, F(0)) - c * x) > tol * abs(x):
            return "compile_einsum of %s is\n%s\nwhich gives element %s = %s instead of %s" % (text, code, k, got.get(k, 0), c * x)
    return None


def refusals(w):
    S = w.SymbolicTerm
    o, v = w.Index(0, 0), w.Index(1, 0)
    mk = lambda *ts: [w.Tensor(l, [v], [o], w.sym.anti) for l in ts]
    op = [w.SQOperator(w.type.cre, v), w.SQOperator(w.type.ann, o)]

    def term(ts, ops=()):
        s = S()
        for t in ts:
            s.add(t)
        if ops:
            s.add(list(ops))
        return s
    R, X, Y = mk("R", "X", "Y")
    n = 0
    for what, l, r in (("no tensor on the left", term([]), term([X])), ("two tensors on the left", term([R, X]), term([Y])), ("operators on the right", term([R]), term([X], op)),
                       ("operators on the left", term([R], op), term([X])), ("operators on both sides", term([R], op), term([X], op)), ("no tensors on the right", term([R]), term([]))):
        n += 1
        try:
            code = w.compile_einsum(w.Equation(l, r, w.rational(1, 2)))
        except Exception:
            continue
        return "an equation with %s is compiled to %s" % (what, code), n
    return None, n


def big(w, lhs, rhs):
    q = c19.equation(w, lhs, rhs, "1/2")
    ok = feasible(w, lhs, rhs)
    try:
        code = w.compile_einsum(q)
    except ValueError as e:
        return "compile_einsum of %s is refused: %s" % (q, e) if ok else None
    finally:
        N[0] += 1
    N[1] += 1
    return c19.letters(code, lhs, rhs)


def jobs(tier):
    return c19.jobs(tier)


def dispatch(w, case):
    k = case[0]
    if k == "s":
        c19.setup(w, case[1])
        up, lo = (tuple(tuple(i) for i in x) for x in case[3:5])
        return check(w, ("R", up, lo), [], case[2]), 1
    if k == "b":
        c19.setup(w, case[1])
        return big(w, c19.tup(case[2]), [c19.tup(t) for t in case[3]]), 1
    if k == "r":
        c19.setup(w, "ov")
        return refusals(w)
    return c19.dispatch(w, case, check)


def run(job, a):
    import wicked as w
    for case in c19.gen(job):
        vc.crumb(json.dumps(case))
        N[:] = [0, 0]
        m, n = dispatch(w, case)
        a.states += n
        a.transitions += N[0]
        a.validated += N[1]
        if case[0] == "q" and len(case[3]) > 1:
            a.sample(json.dumps(case))
        if m:
            a.bad(case, m)


def replay(case):
    import wicked as w
    return dispatch(w, case)[0]
