"""C24: malformed input is rejected with an error and no side effects.

Every job runs on the plain build; a part of every family runs again on a build with AddressSanitizer, UndefinedBehaviorSanitizer and
checked standard containers, in a subprocess (crashes are attributed to the case being executed)."""
import itertools, json, mmap, os, signal, resource, subprocess, sys, tempfile
from fractions import Fraction as F

if __name__ == "__main__":
    sys.dont_write_bytecode = True
    sys.path[:0] = [os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib")]
import algmodel as M
import build, vc
import common as C

ID = "C24"
LEVEL = "model_checking"
TECHNIQUE = ("bounded exhaustive enumeration on the real code: all strings over small alphabets and all near misses of valid strings against independent grammars, all argument "
             "grids, all pairs of registry configurations for stale objects, all sequences of faulty calls up to a depth, repeated on a build with address and undefined-behaviour sanitizers")
RULE = ("for every constructor that reads text, all strings over its alphabet up to the bound and all one-edit (thorough: two-edit) neighbours of valid strings, classified by an independent recogniser as valid "
        "(must be read with the recogniser's meaning), malformed (must raise) or tolerated (raise or that meaning); full grids of numeric arguments; every argument position of every function with every "
        "value of a wrong type; every object made under every registry configuration observed under every other one (out-of-range spaces must raise, in-range ones must equal the object made afresh by "
        "number); all sequences of faulty calls up to the depth; after every error the registry and a pool of objects must be unchanged; every case ends without crash, hang or sanitizer report")
ASSUME = ["objects made with __new__ without running the constructor are outside the bounds (a limitation of the binding library)",
          "inputs whose size alone exhausts memory or the stack of std::regex (texts beyond about 100000 characters) are outside the bounds",
          "sanitizer build: leaks are not checked; texts are kept short because regex matching is slow there",
          "tolerated forms (accepted with the obvious meaning or rejected): blanks around tokens, one trailing comma in index lists, commas between operators of operator_expr, leading zeros, sign or nothing alone as a number 1 or -1, quotes around expressions"]
MEMLIMIT = 0
JOB_TIMEOUT = 400
BUDGET_QUICK = 420
ASAN = ("-O1", "-g1", "-fsanitize=address,undefined", "-fno-sanitize=vptr", "-fno-sanitize-recover=undefined", "-D_GLIBCXX_ASSERTIONS")
G = {}
INTMAX = 2 ** 31 - 1
BIGRAT = 2 ** 1024 - 1


def prepare(tier):
    G["asan"] = build.build_module(ASAN, "asan", True)


# ---------------------------------------------------------------- configurations and pools
CFGS = {"": [], "ov": C.CFG["ov"], "vo": C.CFG["vo"], "g": C.CFG["g"], "ovb": C.CFG["ovb"], "cav": C.CFG["cav"], "b": C.CFG["b"], "mix8": C.CFG["mix8"],
        "nine": [(chr(97 + k), "fermion", "occupied" if k % 2 else "unoccupied", [chr(97 + k) + "0"]) for k in range(9)]}


def setcfg(w, name):
    w.reset_space()
    for l, f, k, i in CFGS[name]:
        w.add_space(l, f, k, i)


def observe(w, x):
    """text of an object of the interface"""
    if isinstance(x, (list, tuple)):
        return "[" + "; ".join(observe(w, y) for y in x) + "]"
    if isinstance(x, dict):
        return "{" + "; ".join("%s: %s" % (k, observe(w, x[k])) for k in sorted(x)) + "}"
    return "%s %s" % (type(x).__name__, x)


def registry(w):
    o = w.osi()
    return (w.num_spaces(), str(o), json.dumps(o.to_dict(), sort_keys=True))


def pool(w, cfg):
    """objects of every kind in a configuration"""
    sp = CFGS[cfg]
    r = {}
    r["rational"] = w.rational(-3, 7)
    r["engine"] = w.WickTheorem()
    r["engine"].set_single_threaded(True)
    r["empty"] = w.Expression()
    r["emptyop"] = w.OperatorExpression()
    r["scalar"] = w.expression("5/3")
    r["sterm0"] = w.SymbolicTerm()
    r["term0"] = w.Term()
    if not sp:
        return r
    L = [s[0] for s in sp]
    a, z = L[0], L[-1]
    r["index"] = w.index(a + "0")
    r["index2"] = w.index(z + "12")
    r["ops"] = [w.cre(z + "1"), w.ann(a + "0")]
    up, lo = [a + "0"], [z + "0"]
    r["tensor"] = w.tensor("T", lo, up, w.sym.anti)
    r["tensor2"] = w.tensor("S", lo + [a + "1"], up + [z + "1"], w.sym.symm)
    sy = lambda l: "b" if dict((s[0], s[1]) for s in sp)[l] == "boson" else "a"
    r["expr"] = w.string_to_expr("2/3 T^{%s0}_{%s0} { %s+(%s0) %s-(%s0) }\n-1/2 S^{%s1}_{%s2}\n+1" % (a, z, sy(z), z, sy(a), a, a, z))
    r["expr2"] = w.operator_expr("V", ["%s+ %s" % (z, a), "%s+ %s+ %s %s" % (z, z, a, a)], True)
    r["raw"] = w.expression("%s-(%s0) %s+(%s0)" % (sy(a), a, sy(a), a))
    s = w.SymbolicTerm()
    s.add(r["tensor"])
    s.add(r["ops"])
    r["sterm"] = s
    t = w.Term(s)
    t.set(w.rational(4, 5))
    r["term"] = t
    r["eq"] = w.Equation(s, s, w.rational(1, 2))
    if len(sp) <= 8:
        r["op"] = w.op("T", ["%s+ %s" % (z, a)])
        r["op2"] = w.op("A", ["%s+ %s" % (a, z), "%s+ %s+ %s %s" % (a, a, z, z)])
        r["prod"] = r["op2"] @ r["op"]
        r["operator"] = w.diag_operator("D", [z], [a])
        if all(x[1] == "fermion" for x in sp):
            r["res"] = r["engine"].contract(w.rational(1), r["prod"], 0, 4)
            m = r["engine"].contract(w.rational(1), r["prod"], 2, 2).to_manybody_equation("R")
            r["mbeqs"] = [m[k][0] for k in sorted(m)]
    return r


def snapshot(w, p):
    return {k: observe(w, v) for k, v in p.items() if k != "engine"}


def deep(w, p):
    """observations that also run the code on the objects"""
    r = snapshot(w, p)
    if "prod" in p:
        try:
            r["contract"] = str(p["engine"].contract(w.rational(2, 3), p["prod"], 0, 6))
        except Exception as x:
            r["contract"] = "raises " + type(x).__name__
    for k in ("expr", "res", "expr2"):
        if k in p:
            r[k + " latex"] = p[k].latex()
            r[k + " adjoint"] = str(p[k].adjoint())
    return r


# ---------------------------------------------------------------- recognisers
# each returns (status, meaning): status "ok" (must be read with that meaning), "err" (must raise), "any" (raise, or that meaning)
WS = " \t\n\v\f\r"
LET = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"
DIG = "0123456789"
ERR = ("err", None)


def worst(*st):
    return "err" if "err" in st else "any" if "any" in st else "ok"


def rec_index(labels, s):
    if not s or s[0] not in LET:
        return ERR
    d = s[1:]
    if d[:1] == "_":
        d = d[1:]
    if not d or any(c not in DIG for c in d) or s[0] not in labels or int(d) > INTMAX:
        return ERR
    return ("any" if len(d) > 1 and d[0] == "0" else "ok"), (labels.index(s[0]), int(d))


def rec_indices(labels, s):
    st, out = "ok", []
    if s == "":
        return "ok", []
    p = s.split(",")
    if len(p) > 1 and p[-1].strip(WS) == "":
        # one trailing comma (possibly followed by blanks)
        st = "any"
        p = p[:-1]
    for x in p:
        y = x.strip(WS)
        # a blank after a comma is common usage
        if y != x and not (x == " " + y and len(out) > 0):
            st = worst(st, "any")
        a, m = rec_index(labels, y)
        st = worst(st, a)
        out.append(m)
    return (st, out) if st != "err" else ERR


def rec_tensor(labels, s, inside=False):
    k = 0
    while k < len(s) and s[k] in LET + DIG:
        k += 1
    lab, r = s[:k], s[k:]
    if not lab or not r.startswith("^{") or not r.endswith("}") or r.count("{") != 2 or r.count("}") != 2:
        return ERR
    u, sep, l = r[2:-1].partition("}_{")
    if not sep or "{" in u or "}" in u or "{" in l or "}" in l:
        return ERR
    a, up = rec_indices(labels, u)
    b, lo = rec_indices(labels, l)
    st = worst(a, b)
    if st == "err":
        return ERR
    if lab[0] in DIG or (inside and any(c in WS for c in s)):
        st = "any"
    return st, (lab, up, lo)


def rec_rational(s):
    t = s.strip(WS)
    st = "ok" if t == s else "any"
    sign = 1
    if t[:1] in ("+", "-"):
        sign = -1 if t[0] == "-" else 1
        t = t[1:]
    if t == "":
        return "any", F(sign)
    p = t.split("/")
    if len(p) > 2 or any(not x or any(c not in DIG for c in x) for x in p):
        return ERR
    n, d = int(p[0]), int(p[1]) if len(p) == 2 else 1
    if d == 0 or n > BIGRAT or d > BIGRAT:
        return ERR
    if any(len(x) > 1 and x[0] == "0" for x in p):
        st = "any"
    return st, F(sign * n, d)


def rec_comp(labels, s, expr=False):
    """component of an operator: meaning is the list of (creation?, space)"""
    out, k, st = [], 0, "ok"
    if expr and "," in s:
        # commas separate like blanks
        st = "any"
        s = s.replace(",", " ")
    if expr and s.strip(WS) == "":
        return "any", []
    if s != s.strip(WS):
        st = "any"
    while k < len(s):
        c = s[k]
        if c in WS:
            if c != " " or s[k + 1:k + 2] == " ":
                st = "any"
            k += 1
            continue
        if c not in labels:
            return ERR
        if expr and k and s[k - 1] not in WS:
            return ERR
        k += 1
        if s[k:k + 1] in ("+", "^"):
            out.append((True, labels.index(c)))
            k += 1
        else:
            out.append((False, labels.index(c)))
        if not expr and k < len(s) and s[k] not in WS:
            st = "any"
    return st, out


def lex_expr(s):
    """tokens of an expression text: ('num', x) ('sign', x) ('tensor', x) ('op', x) ('{',) ('}',); None when some character fits no token"""
    k, out = 0, []
    while k < len(s):
        c = s[k]
        if c in WS:
            out.append(("ws", c))
            k += 1
        elif c in "\"'":
            out.append(("quote", c))
            k += 1
        elif c in "{}":
            out.append((c, c))
            k += 1
        elif c in "ab" and s[k + 1:k + 2] in ("+", "-") and s[k + 2:k + 3] == "(":
            e = s.find(")", k)
            if e < 0:
                return None
            out.append(("op", s[k:e + 1]))
            k = e + 1
        elif c in LET:
            e = k
            while e < len(s) and s[e] in LET + DIG:
                e += 1
            if s[e:e + 2] != "^{":
                return None
            f = s.find("}_{", e)
            g = s.find("}", f + 3) if f >= 0 else -1
            if g < 0:
                return None
            out.append(("tensor", s[k:g + 1]))
            k = g + 1
        elif c in "+-":
            out.append(("sign", c))
            k += 1
        elif c in DIG or c == "/":
            e = k
            while e < len(s) and s[e] in DIG + "/":
                e += 1
            out.append(("num", s[k:e]))
            k = e
        else:
            return None
    return out


def rec_expression(labels, bos, s):
    """meaning: {(tensor texts, operator texts, flag): coefficient}"""
    if s.strip(WS) == "":
        return ("ok" if s == "" else "any"), {}
    t = lex_expr(s)
    if t is None:
        return ERR
    st = "ok"
    if any(x[0] == "quote" for x in t):
        st = "any"
        t = [x for x in t if x[0] != "quote"]
    if any(x == ("ws", c) for x in t for c in "\t\n\v\f\r") or t[:1] and t[0][0] == "ws" or t and t[-1][0] == "ws":
        st = "any"
    items = []
    pend = True
    for x in t:
        if x[0] == "ws":
            pend = True
        else:
            if not pend and not (items and items[-1][0] == "sign"):
                st = "any"
            if pend and items and items[-1][0] == "sign":
                st = "any"
            items.append(x)
            pend = False
    sign = 1
    if items and items[0][0] == "sign":
        sign = -1 if items[0][1] == "-" else 1
        items = items[1:]
        if not items:
            st = "any"
    c = F(1)
    if items and items[0][0] == "num":
        a, c = rec_rational(items[0][1])
        st = worst(st, a)
        if st == "err":
            return ERR
        items = items[1:]
        if not items:
            pass
    c *= sign
    tens, ops, depth, flag, ingroup = [], [], 0, False, 0
    for k, v in items:
        if k == "tensor":
            if depth:
                st = worst(st, "any")
            a, m = rec_tensor(labels, v, True)
            if a == "err":
                return ERR
            if ops or flag:
                st = worst(st, "any")
            st = worst(st, a)
            tens.append("%s^{%s}_{%s}" % (m[0], ",".join("%s%d" % (labels[i], n) for i, n in m[1]), ",".join("%s%d" % (labels[i], n) for i, n in m[2])))
        elif k == "op":
            a, m = rec_index(labels, v[3:-1])
            if a == "err":
                return ERR
            st = worst(st, a)
            want = "b" if labels[m[0]] in bos else "a"
            if v[0] != want:
                st = worst(st, "any")
            ops.append("%s%s(%s%d)" % (want, v[1], labels[m[0]], m[1]))
            ingroup += depth
        elif k == "{":
            if flag or depth or ops:
                return ERR
            depth, flag = 1, True
        elif k == "}":
            if not depth:
                return ERR
            depth = 0
            if not ops:
                return ERR
        else:
            return ERR
    if depth or (flag and ingroup != len(ops)):
        return ERR
    if flag and st != "err" and any(x[0] == "tensor" for x in items[[i for i, x in enumerate(items) if x[0] == "{"][0]:[i for i, x in enumerate(items) if x[0] == "}"][0]]):
        return ERR
    if c == 0:
        return st, {}
    return st, {(tuple(tens), tuple(ops), flag): c}


# what the interface makes of a text
def fr(x):
    return F(x.numerator(), x.denominator())


def read_index(w, s):
    i = w.index(s)
    return (i.space(), i.pos())


def read_cre(w, s):
    o = w.cre(s)
    assert o.type() == w.type.cre
    return (o.index().space(), o.index().pos())


def read_ann(w, s):
    o = w.sqoperator(s, w.type.ann)
    p = w.ann(s)
    assert o.type() == w.type.ann and o == p
    return (o.index().space(), o.index().pos())


def read_indices(w, s):
    return [(i.space(), i.pos()) for i in w.indices(s)]


def read_tensor(w, s):
    t = w.tensor(s, w.sym.none)
    return (t.label(), [(i.space(), i.pos()) for i in t.upper()], [(i.space(), i.pos()) for i in t.lower()])


def read_tensor_list(w, s):
    """the constructor with lists of index texts"""
    t = w.tensor("T", ["o0"], [s], w.sym.anti)
    return (t.upper()[0].space(), t.upper()[0].pos())


def read_rational(w, s):
    return fr(w.make_rational(s))


def read_expression(w, s):
    return M.parse_e(str(w.expression(s, w.sym.none)))


def read_lines(w, s):
    return M.parse_e(str(w.string_to_expr(s)))


def count(labels, m):
    return [tuple(sum(x == (c, k) for x in m) for k in range(len(labels))) for c in (True, False)]


def read_op(w, s):
    t = str(w.op("T", [s]))
    d = M.parse_o(t)
    assert len(d) == 1 and len(list(d)[0]) == 1
    return sorted((x[1:] in ("+", "^"), x[0]) for x in list(d)[0][0][1])


def read_opexpr(w, s):
    e = w.operator_expr("T", [s], False, w.sym.none)
    t, = [t for t, c in e]
    return [(o.type() == w.type.cre, o.index().space(), o.index().pos()) for o in t.ops()]


KINDS = ("index", "cre", "ann", "tlist", "indices", "tensor", "rational", "expression", "lines", "op", "opexpr")
READ = dict(index=read_index, cre=read_cre, ann=read_ann, tlist=read_tensor_list, indices=read_indices, tensor=read_tensor, rational=read_rational, expression=read_expression, lines=read_lines,
            op=read_op, opexpr=read_opexpr)


def recognise(kind, labels, bos, s):
    if kind in ("index", "cre", "ann", "tlist"):
        return rec_index(labels, s)
    if kind == "indices":
        return rec_indices(labels, s)
    if kind == "tensor":
        return rec_tensor(labels, s)
    if kind == "rational":
        return rec_rational(s)
    if kind == "expression":
        return rec_expression(labels, bos, s)
    if kind == "lines":
        st, d = "ok", {}
        for line in s.split("\n"):
            a, m = rec_expression(labels, bos, line)
            st = worst(st, a)
            if st == "err":
                return ERR
            for k, v in m.items():
                M.add(d, k, v)
        return st, d
    if kind == "op":
        a, m = rec_comp(labels, s)
        return a, m and sorted((c, labels[k]) for c, k in m) or ([] if m == [] else None)
    a, m = rec_comp(labels, s, True)
    if a == "err":
        return ERR
    nc, na = {}, {}
    for c, k in m:
        na[k] = na.get(k, 0) + 1
    out = []
    for c, k in m:
        if c:
            out.append((True, k, nc.get(k, 0)))
            nc[k] = nc.get(k, 0) + 1
        else:
            na[k] -= 1
            out.append((False, k, na[k]))
    # creation operators come first, then annihilation operators, each in the order of the text
    return a, [x for x in out if x[0]] + [x for x in out if not x[0]]


def check_text(w, kind, labels, bos, s):
    st, m = recognise(kind, labels, bos, s)
    try:
        v = READ[kind](w, s)
    except Exception as x:
        if isinstance(x, (AssertionError, MemoryError)):
            return "err", "%s(%r): %s" % (kind, s, x)
        if st == "ok":
            return "err", "%s(%r) raises %s: %s, but the text is well formed" % (kind, s, type(x).__name__, str(x).strip()[:200])
        return "raised", None
    if st == "err":
        return "err", "%s(%r) is accepted as %r, but the text is malformed" % (kind, s, v)
    if v != m:
        return "err", "%s(%r) is read as %r instead of %r" % (kind, s, v, m)
    return "ok", None


# alphabets (characters or tokens) and depths (quick, thorough, sanitizer)
ALPHA = {
    "index": (list("ovz_01+ ,;(é"), (4, 5, 2)), "cre": (list("ov_01+ -"), (4, 5, 2)), "ann": (list("ov_01+ -"), (3, 4, 2)), "tlist": (list("ov_01, "), (3, 4, 2)),
    "indices": (["o", "o0", "v_1", ",", " ", "0", "x", "\t", "v12"], (5, 6, 2)),
    "tensor": (["T", "^", "_", "{", "}", "o0", ",", "^{", "}_{", " ", "^{o0}", "_{v0,v1}", "2", "x0"], (4, 5, 1)),
    "rational": (list("017+-/. x"), (5, 7, 3)),
    "expression": (["2", "1/2", "-", "+", "0", "/", " ", "T^{o0}_{v0}", "U^{}_{}", "a+(o0)", "a-(v0)", "{", "}", "x", "b+(o0)", "a+(x0)", "a+(", "^{o0}", "\"", ","], (4, 5, 1)),
    "lines": (["\n", "2 ", "-1/2 ", "T^{o0}_{v0}", "U^{}_{}", "a+(o0)", " ", "x", "{ a+(o0) }", "1"], (4, 5, 1)),
    "op": (list("ov+^ Bx,"), (5, 6, 2)), "opexpr": (list("ov+^ B,"), (5, 6, 2)),
}
SEEDS = {
    "index": ["o0", "v_12", "B2147483647", "o2147483648", "v99999999999999999999999"], "cre": ["o0", "v_12"], "ann": ["o0", "B7"], "tlist": ["o0", "v_3"],
    "indices": ["o0,v1", "o_0,v_1,B12", "o0"], "tensor": ["T^{o0}_{v0}", "T2^{o0,o1}_{v_0,v1}", "t^{}_{}", "Ab1^{o0, o1}_{}"],
    "rational": ["1/2", "-12/7", "+100", "0", str(BIGRAT), str(BIGRAT + 1), "-" + str(BIGRAT), "1/" + str(BIGRAT), "1/" + str(BIGRAT + 1), "0/5", "5/0", "0/0", "00/1", "10/020"],
    "expression": ["1/2 T^{o0}_{v0} { a+(v0) a-(o0) }", "-T2^{o0,o1}_{v0,v1} U^{B0}_{} a+(o0)", "-3", "+7/3 b+(B0) b-(B1)", "{ a+(o_1) }", "T^{}_{}"],
    "lines": ["T^{o0}_{v0}\n-2 U^{}_{}", "1\n-1"], "op": ["o+ v", "v+ v+ o o", "B+ o^"], "opexpr": ["o+ v", "v+ v+ o o", "B^ o"],
}
EDIT = {"index": "ov_0+ ", "cre": "ov_0+", "ann": "oB_0-", "tlist": "ov_0", "indices": "ov_0, x", "tensor": "oT^_{}0, ", "rational": "01+-/ .", "expression": "oT^_{}0, +-/ab()1", "lines": "oT^_{}0,\n +-1",
        "op": "ov+^ x", "opexpr": "ov+^ x"}


def edits(kind, s):
    out = {s}
    al = EDIT[kind]
    for k in range(len(s) + 1):
        if len(s) > 60 and 5 < k < len(s) - 5:
            continue
        for c in al:
            out.add(s[:k] + c + s[k:])
        if k < len(s):
            out.add(s[:k] + s[k + 1:])
            for c in al:
                out.add(s[:k] + c + s[k + 1:])
            if k + 1 < len(s):
                out.add(s[:k] + s[k + 1] + s[k] + s[k + 2:])
    return sorted(out)


def texts(kind, level, i, n):
    """level: 0 quick, 1 thorough, 2 sanitizer"""
    al, dep = ALPHA[kind]
    k = 0
    for d in range(dep[level] + 1):
        for t in itertools.product(al, repeat=d):
            k += 1
            if k % n == i:
                yield "".join(t)
    for s in SEEDS[kind]:
        E = edits(kind, s)
        if level == 1 and len(s) <= (14 if kind != "expression" else 0):
            E = sorted(set(x for e in E for x in edits(kind, e)))
        if level == 2 and kind not in ("index", "cre", "ann", "tlist", "rational"):
            E = E[::17]
        for x in E:
            k += 1
            if k % n == i:
                yield x


# ---------------------------------------------------------------- argument grids
def num_grid(w, acc_fail):
    """every numeric call -> (name, thunk, expected): expected 'raise', ('=', value) or None (no constraint but no crash)"""
    out = []
    IV = [-2 ** 31, -10, -2, -1, 0, 1, 2, 3, 4, 7, 8, 9, 127, 128, 10 ** 6, INTMAX]
    n = w.num_spaces()
    lab = [w.osi().label(k) for k in range(n)]
    d = w.osi().to_dict()
    for v in IV:
        for f in ("label", "indices"):
            g = lambda v=v, f=f: getattr(w.osi(), f)(v)
            out.append(("osi().%s(%d)" % (f, v), g, ("=", lab[v] if f == "label" else d[lab[v]]) if 0 <= v < n else "raise"))
    for v in (2 ** 31, -2 ** 31 - 1, 2 ** 63, 10 ** 40):
        for f in ("label", "indices"):
            out.append(("osi().%s(%d)" % (f, v), lambda v=v, f=f: getattr(w.osi(), f)(v), "raise"))
        out.append(("Index(%d,0)" % v, lambda v=v: w.Index(v, 0), "raise"))
        out.append(("Index(0,%d)" % v, lambda v=v: w.Index(0, v), "raise"))
        out.append(("rational(%d)" % v, lambda v=v: fr(w.rational(v)) == v, ("~", True)))
    # objects that refer to spaces outside the registry
    S = w.sym
    for s in IV:
        inr = 0 <= s < n
        for p in (0, 5):
            mk = lambda s=s, p=p: w.Index(s, p)
            fl = "B" if inr and CFGS_FIELD(w, s) == "boson" else "F"
            use = [("str", lambda m=mk: str(m())), ("latex", lambda m=mk: m().latex()), ("compile", lambda m=mk: m().compile()),
                   ("str(op)", lambda m=mk: str(w.SQOperator(w.type.cre, m()))), ("latex(op)", lambda m=mk: w.SQOperator(w.type.ann, m()).latex()),
                   ("field_type", lambda m=mk: str(w.SQOperator(w.type.ann, m()).field_type())),
                   ("str(tensor)", lambda m=mk: str(w.Tensor("T", [m()], [], S.anti))), ("latex(tensor)", lambda m=mk: w.Tensor("T", [], [m()], S.symm).latex()),
                   ("compile(tensor)", lambda m=mk: w.Tensor("T", [m()], [], S.anti).compile("einsum"))]
            for nm, f in use:
                out.append(("Index(%d,%d) %s" % (s, p, nm), f, None if inr else "raise"))
            if inr:
                out.append(("str Index(%d,%d)" % (s, p), lambda m=mk: str(m()), ("=", lab[s] + str(p))))
            out.append(("Index(%d,%d).space" % (s, p), lambda m=mk, s=s, p=p: (m().space(), m().pos()) == (s, p), None))
            out.append(("Index(%d,%d) == and <" % (s, p), lambda m=mk: (m() == m(), m() < m(), w.SQOperator(w.type.cre, m()) < w.SQOperator(w.type.ann, m()),
                                                                       w.SQOperator(w.type.cre, m()) == w.SQOperator(w.type.cre, m())), None))
            out.append(("normal_ordered_less Index(%d,%d)" % (s, p), lambda m=mk: w.SQOperator(w.type.cre, m()).normal_ordered_less(w.SQOperator(w.type.ann, m())), None))
            out.append(("canonicalize_indices Index(%d,%d)" % (s, p), lambda m=mk: w.canonicalize_indices([m(), m()], True), None))
            # expressions holding such an object
            for what in ("op", "tensor", "both", "pair", "only op of many"):
                def ex(m=mk, what=what):
                    t = w.SymbolicTerm()
                    if what in ("tensor", "both"):
                        t.add(w.Tensor("T", [m()], [m()] if what == "tensor" else [], S.anti))
                    if what in ("op", "both"):
                        t.add(w.SQOperator(w.type.cre, m()))
                    if what == "pair":
                        t.add([w.SQOperator(w.type.cre, m()), w.SQOperator(w.type.ann, m())])
                    if what == "only op of many":
                        t.add([w.SQOperator(w.type.ann, m()), w.SQOperator(w.type.cre, m()), w.SQOperator(w.type.cre, w.Index(s, 9))])
                    e = w.Expression()
                    e += t
                    return e
                for nm, f in (("str", lambda e: str(e)), ("latex", lambda e: e.latex()), ("canonicalize", lambda e: keep(w, e, lambda: e.canonicalize())),
                              ("vacuum_normal_ordered", lambda e: str(e.vacuum_normal_ordered())), ("vno same", lambda e: str(e.vacuum_normal_ordered(True))),
                              ("is_vno", lambda e: e.is_vacuum_normal_ordered()), ("adjoint", lambda e: str(e.adjoint())),
                              ("manybody", lambda e: observe(w, e.to_manybody_equation("R"))), ("norm", lambda e: str(e.norm())), ("dot", lambda e: str(e.dot(e))),
                              ("+", lambda e: str(e + e)), ("@", lambda e: str(e @ e)), ("==", lambda e: e == e),
                              ("equation", lambda e: [w.Equation(t, t, c).compile(x) for t, c in e for x in ("einsum", "ambit")]),
                              ("compile_einsum", lambda e: [w.compile_einsum(w.Equation(t, t, c)) for t, c in e])):
                    must = not inr and nm not in ("norm", "dot", "==", "is_vno", "canonicalize", "vacuum_normal_ordered", "vno same")
                    if not inr and nm == "canonicalize":
                        must = True
                    if not inr and nm in ("vacuum_normal_ordered", "vno same") and what != "tensor":
                        must = True
                    out.append(("%s of an expression with %s Index(%d,%d)" % (nm, what, s, p), lambda f=f, ex=ex: f(ex()), "raise" if must else None))
    # operator counts
    V = [-1, 0, 1, 2]
    lists = [list(x) for k in range(0, 4) for x in itertools.product(V, repeat=k)] + [[0] * 8, [0] * 9, [1] * 9]
    ok1 = [x for x in lists if len(x) == n and all(v >= 0 for v in x)] if n <= 8 else []
    base = ok1[:1] or [[0] * n]
    for a in lists:
        for b in lists if n <= 2 and (len(a) in (n, n - 1, n + 1)) else base + [[1, -1], [1], [1, 1, 1]]:
            good = n <= 8 and len(a) == n and len(b) == n and min(a + b + [0]) >= 0
            def f(a=a, b=b):
                o = w.Operator("A", a, b)
                return str(o)
            exp = "raise"
            if good:
                m = 1
                for v in a + b:
                    m *= (1, 1, 2)[v] if v < 3 else 6
                exp = ("=", ("1/%d " % m if m > 1 else "") + "A { %s}" % "".join([(lab[k] + "+ ") * a[k] for k in range(n)] + [(lab[k] + " ") * b[k] for k in reversed(range(n))]))
            out.append(("Operator('A',%s,%s)" % (a, b), f, exp))
    # windows and cumulant levels
    if n and n <= 8 and all(CFGS_FIELD(w, k) == "fermion" for k in range(n)):
        op = w.op("A", ["%s+ %s" % (lab[0], lab[-1])]) @ w.op("B", ["%s+ %s" % (lab[-1], lab[0])])
        e = w.WickTheorem()
        e.set_single_threaded(True)
        full = M.parse_e(str(e.contract(w.rational(1), op, 0, 4)))
        for a in IV:
            for b in IV:
                want = {k: v for k, v in full.items() if a <= len(k[1]) <= b}
                out.append(("contract window (%d,%d)" % (a, b), lambda a=a, b=b: M.parse_e(str(e.contract(w.rational(1), op, a, b))), ("~", want)))
        for c in IV:
            def g(c=c):
                x = w.WickTheorem()
                x.set_single_threaded(True)
                x.set_max_cumulant(c)
                return str(x.contract(w.rational(1), op, 0, 4))
            out.append(("max_cumulant %d" % c, g, None))
        for k in IV[:10]:
            out.append(("bch_series order %d" % k, lambda k=k: w.bch_series(op, w.op("C", ["%s+ %s" % (lab[0], lab[-1])]), k) == op, ("~", True) if k <= 0 else None) if k < 5 else ("skip", lambda: 0, None))
        for s in (0, -1, 2 ** 31, 1.5):
            out.append(("factor %r" % s, lambda s=s: str(e.contract(s, op, 0, 4)), None))
    # rationals
    for a in IV + [2 ** 31, 2 ** 64]:
        for b in IV:
            def f(a=a, b=b):
                return fr(w.rational(a, b)) == F(a, b)
            out.append(("rational(%d,%d)" % (a, b), f, ("~" if a > INTMAX else "=", True) if b else "raise"))
            out.append(("rational %d / %d" % (a, b), lambda a=a, b=b: fr(w.rational(a) / w.rational(b)) == F(a, b), ("~" if a > INTMAX else "=", True) if b else "raise"))
    for a in (-5, -1, 0, 1, 3):
        for b in (-5, -1, 0, 1, 3):
            out.append(("integer_partitions(%d,%d)" % (a, b), lambda a=a, b=b: w.integer_partitions(a, b), None))
    # equations of every shape
    def term(ts, ops):
        t = w.SymbolicTerm()
        for l, u, d in ts:
            t.add(w.Tensor(l, d, u, S.anti))
        if ops:
            t.add(ops)
        return t
    if n:
        i, j = w.Index(0, 0), w.Index(n - 1, 1)
        tl = [[], [("A", [], [])], [("A", [i], [j])], [("A", [i], [i])], [("A", [i], [j]), ("B", [j], [])], [("", [i], [])], [("x y", [i], [j])], [("A", [i] * 5, [j] * 5)]]
        ol = [[], [w.SQOperator(w.type.cre, i)], [w.SQOperator(w.type.cre, i), w.SQOperator(w.type.ann, j)]]
        for L, R, a, b in itertools.product(tl, tl, ol, ol):
            q = w.Equation(term(L, a), term(R, b), w.rational(-1, 2))
            for fm in ("einsum", "ambit", "", "foo", "EINSUM"):
                bad = fm not in ("einsum", "ambit") or a or b or len(L) == 0
                out.append(("compile %r of %s" % (fm, q), lambda q=q, fm=fm: q.compile(fm), "raise" if bad else None))
            out.append(("compile_einsum of %s" % q, lambda q=q: w.compile_einsum(q), "raise" if a or b or len(L) != 1 else None))
            out.append(("latex of %s" % q, lambda q=q: q.latex(), None))
        # malformed terms through every operation: indices that occur once, three times, twice on one tensor
        for ts, ops, no in itertools.product(tl, ol, (False, True)):
            for op in ("canonicalize", "vno", "adjoint", "manybody", "latex", "str", "norm"):
                def f(ts=ts, ops=ops, no=no, op=op):
                    t = term(ts, ops)
                    t.set_normal_ordered(no)
                    e = w.Expression()
                    e += t
                    if op == "canonicalize":
                        return keep(w, e, lambda: e.canonicalize())
                    if op == "vno":
                        return str(e.vacuum_normal_ordered()) + str(e.vacuum_normal_ordered(True))
                    if op == "manybody":
                        m = e.to_manybody_equation("R")
                        r = observe(w, m)
                        for k in m:
                            for q in m[k]:
                                for g in (lambda: q.compile("einsum"), lambda: q.compile("ambit"), lambda: w.compile_einsum(q), q.latex):
                                    try:
                                        r += g()
                                    except (ValueError, RuntimeError):
                                        pass
                        return r
                    return str(dict(adjoint=e.adjoint, latex=e.latex, str=e.__str__, norm=e.norm)[op]())
                out.append(("%s of a term with %s ops %s normal ordered %s" % (op, [x[0] for x in ts], len(ops), no), f, "raise" if op == "vno" and no and ops else None))
    return out


def CFGS_FIELD(w, k):
    return G["field"][k]


def keep(w, e, f):
    """an operation that changes e in place: when it raises, e must be as before"""
    try:
        b = str(e)
    except Exception:
        b = None
    n = len(e)
    c = w.Expression()
    c += e
    try:
        f()
    except Exception:
        if len(e) != n or not (e == c):
            raise AssertionError("the expression %s was changed by an operation that raised an error" % b)
        raise
    return str(e) if b is not None else None


def space_grid():
    """add_space calls: (args, accepted after ov?)"""
    labs = ["o", "v", "x", "", "xy", "1", "?"]
    fields = ["fermion", "boson", "Fermion", "", "fermi"]
    kinds = ["occupied", "unoccupied", "general", "Occupied", "", "virtual"]
    idxs = [[], ["p"], ["p", "q"], ["i"], ["p", "p"], ["p", "a"], ["p0", ""], ["i", "j"]]
    elem = [None, [], ["o"], ["o", "v"], ["x"], ["o", "z"], ["z"]]
    for c in itertools.product(labs, fields, kinds, idxs, elem):
        l, f, k, i, e = c
        used = set("ijklmn") | set("abcdef")
        ok = l in ("x",) and f in ("fermion", "boson") and k in ("occupied", "unoccupied", "general") and len(set(i)) == len(i) and not set(i) & used and (e in (None, []) or set(e) <= set("ov"))
        tol = ok and "" in i or (l in ("1", "?") and f in ("fermion", "boson") and k in ("occupied", "unoccupied", "general") and len(set(i)) == len(i) and not set(i) & used
                                 and (e in (None, []) or set(e) <= set("ov")))
        # an index name that is repeated within the space: rejected
        yield c, ("any" if tol else "ok" if ok else "err")


# ---------------------------------------------------------------- calls with every argument of a wrong type
def calls(w, p):
    """valid calls (name, function, args)"""
    S, T = w.sym, w.type
    E = p["engine"]
    sp = CFGS[G["cfg"]]
    a, z = sp[0][0], sp[-1][0]
    out = [("Index", w.Index, (0, 1)), ("index", w.index, (a + "0",)), ("indices", w.indices, (a + "0," + z + "1",)), ("canonicalize_indices", w.canonicalize_indices, ([w.Index(0, 1), w.Index(0, 0)], True)),
           ("Index.__lt__", lambda x: w.Index(0, 0) < x, (w.Index(0, 1),)), ("Index.__eq__", lambda x: w.Index(0, 0) == x, (w.Index(0, 1),)),
           ("SQOperator", w.SQOperator, (T.cre, w.Index(0, 0))), ("sqoperator", w.sqoperator, (a + "0", T.ann)), ("cre", w.cre, (a + "0",)), ("ann", w.ann, (a + "0",)),
           ("SQOperator.__lt__", lambda x: p["ops"][0] < x, (p["ops"][1],)), ("SQOperator.__eq__", lambda x: p["ops"][0] == x, (p["ops"][1],)), ("normal_ordered_less", lambda x: p["ops"][0].normal_ordered_less(x), (p["ops"][1],)),
           ("Tensor", w.Tensor, ("T", [w.Index(0, 0)], [w.Index(0, 1)], S.anti)), ("tensor", w.tensor, ("T", [a + "0"], [z + "0"], S.symm)), ("tensor(s)", w.tensor, ("T^{%s0}_{}" % a, S.none)),
           ("Tensor.compile", lambda x: p["tensor"].compile(x), ("einsum",)), ("Index.compile", lambda: p["index"].compile(), ()),
           ("SymbolicTerm.add(ops)", lambda x: cp(w, p["sterm"]).add(x), (p["ops"],)), ("SymbolicTerm.add", lambda x: cp(w, p["sterm"]).add(x), (p["tensor"],)),
           ("SymbolicTerm.set", lambda x: cp(w, p["sterm"]).set(x), (p["ops"],)), ("set_normal_ordered", lambda x: cp(w, p["sterm"]).set_normal_ordered(x), (True,)),
           ("Term", w.Term, (p["sterm"],)), ("Term.set", lambda x: w.Term(p["sterm"]).set(x), (p["rational"],)), ("Term.add", lambda x: w.Term(p["sterm"]).add(x), (p["tensor"],)),
           ("Term.add(ops)", lambda x: w.Term(p["sterm"]).add(x), (p["ops"],)), ("Term.set_normal_ordered", lambda x: w.Term(p["sterm"]).set_normal_ordered(x), (True,)),
           ("rational", w.rational, (3,)), ("rational2", w.rational, (3, 4)), ("make_rational", w.make_rational, ("3/4",)),
           ("rational +", lambda x: p["rational"] + x, (w.rational(1),)), ("rational -", lambda x: p["rational"] - x, (w.rational(1),)), ("rational *", lambda x: p["rational"] * x, (w.rational(1),)),
           ("rational /", lambda x: p["rational"] / x, (w.rational(1),)), ("rational ==", lambda x: p["rational"] == x, (w.rational(1),)), ("rational.str", lambda x: p["rational"].str(x), (True,)),
           ("expression", w.expression, ("2 T^{}_{}", S.anti)), ("string_to_expr", w.string_to_expr, ("2 T^{}_{}\n1",)),
           ("operator_expr", w.operator_expr, ("T", [z + "+ " + a], True, S.anti, w.rational(2))),
           ("Expression +", lambda x: p["expr"] + x, (p["expr2"],)), ("Expression -", lambda x: p["expr"] - x, (p["expr2"],)), ("Expression *", lambda x: p["expr"] * x, (p["rational"],)),
           ("Expression @", lambda x: p["raw"] @ x, (p["raw"],)), ("Expression ==", lambda x: p["expr"] == x, (p["expr2"],)), ("dot", lambda x: p["expr"].dot(x), (p["expr"],)),
           ("Expression +=", lambda x: iadd(w, p["expr"], x), (p["term"],)), ("Expression += pair", lambda x, y: iadd(w, p["expr"], (x, y)), (p["sterm"], p["rational"])), ("latex", lambda x: p["expr"].latex(x), ("\n",)),
           ("vacuum_normal_ordered", lambda x: p["raw"].vacuum_normal_ordered(x), (True,)), ("to_manybody_equation", lambda x: p["expr2"].to_manybody_equation(x), ("R",)),
           ("Equation", w.Equation, (p["sterm"], p["sterm"], p["rational"])), ("Equation.compile", lambda x: p["eq"].compile(x), ("einsum",)), ("compile_einsum", w.compile_einsum, (p["eq"],)),
           ("Operator", w.Operator, ("A", [1] * len(sp), [1] * len(sp))), ("diag_operator", w.diag_operator, ("A", [a], [z])), ("op", w.op, ("A", [z + "+ " + a], True)),
           ("gen_op", w.gen_op, ("A", 1, a + z, a + z, True)), ("OperatorExpression", w.OperatorExpression, (p["op"],)),
           ("OperatorExpression.add2", lambda x, y: w.OperatorExpression(p["op"]).add2(x, y), (p["op2"], w.rational(2))), ("OperatorExpression.add", lambda x, y: w.OperatorExpression(p["op"]).add(x, y), (p["op2"], w.rational(2))),
           ("OperatorExpression +", lambda x: p["op"] + x, (p["op2"],)), ("OperatorExpression -", lambda x: p["op"] - x, (p["op2"],)), ("OperatorExpression @", lambda x: p["op"] @ x, (p["op2"],)),
           ("OperatorExpression ==", lambda x: p["op"] == x, (p["op2"],)), ("commutator", w.commutator, (p["op"], p["op2"])), ("bch_series", w.bch_series, (p["op"], p["op2"], 2)),
           ("WickTheorem.contract", E.contract, (w.rational(1), p["op"], 0, 4)), ("contract3", E.contract, (p["op"], 0, 4)),
           ("set_print", lambda x: w.WickTheorem().set_print(x), (w.PrintLevel.none,)), ("set_max_cumulant", lambda x: w.WickTheorem().set_max_cumulant(x), (3,)),
           ("set_single_threaded", lambda x: w.WickTheorem().set_single_threaded(x), (True,)), ("do_canonicalize_graph", lambda x: w.WickTheorem().do_canonicalize_graph(x), (True,)),
           ("osi().label", lambda x: w.osi().label(x), (0,)), ("osi().indices", lambda x: w.osi().indices(x), (0,)),
           ("integer_partitions", w.integer_partitions, (5, 3)),
           ("use_boost_1024_int", w.use_boost_1024_int, ()), ("osi().add_space", lambda *x: w.OrbitalSpaceInfo().add_space(*x), ("o", "fermion", "occupied", ["i"], []))]
    return out


def cp(w, s):
    """copy of a symbolic term"""
    r = w.SymbolicTerm()
    for t in s.tensors():
        r.add(t)
    r.add(s.ops())
    return r


def iadd(w, e, x):
    r = w.Expression()
    r += e
    r += x
    return r


class Odd:
    def __index__(self):
        raise RuntimeError("no index")

    def __str__(self):
        raise RuntimeError("no text")

    def __iter__(self):
        raise RuntimeError("no items")


def wrong(w, p):
    return [("None", None), ("True", True), ("-1", -1), ("2**31", 2 ** 31), ("10**30", 10 ** 30), ("1.5", 1.5), ("nan", float("nan")), ("inf", float("inf")), ("''", ""), ("'x'", "x"), ("'o\\0'", "o\0"), ("'é'", "é"),
            ("surrogate", "\ud800"), ("b'o0'", b"o0"), ("bytearray", bytearray(b"o0")), ("[]", []), ("[1]", [1]), ("['o']", ["o"]), ("[None]", [None]), ("[[]]", [[]]), ("()", ()), ("(1,2)", (1, 2)), ("{}", {}), ("set", {1}), ("object", object()),
            ("Odd", Odd()), ("[Odd]", [Odd()]), ("type", int), ("module", w), ("class", w.Index), ("Index", p["index"]), ("SQOperator", p["ops"][0]), ("[SQOperator]", p["ops"]), ("Tensor", p["tensor"]), ("rational", p["rational"]),
            ("Expression", p["expr"]), ("OperatorExpression", p["op"]), ("SymbolicTerm", p["sterm"]), ("Term", p["term"]), ("Equation", p["eq"]), ("WickTheorem", p["engine"]), ("sym", w.sym.anti), ("type.cre", w.type.cre),
            ("osi", w.osi()), ("generator", (x for x in [1, 2])), ("range", range(3)), ("long list", ["o"] * 500), ("lambda", lambda: 0), ("complex", 1j)]


# ---------------------------------------------------------------- faulty calls for sequences
def faulty(w, p):
    """calls that must raise (name, thunk)"""
    S, T = w.sym, w.type
    E = p["engine"]
    e = p["expr"]
    nine = w.Index(9, 0)
    bad = w.Expression()
    t = w.SymbolicTerm()
    t.add(w.Tensor("N", [w.Index(0, 0)], [w.Index(0, 0)], S.none))
    bad += t
    G["bad"] = bad
    out = [("index('z0')", lambda: w.index("z0")), ("index('')", lambda: w.index("")), ("index('o')", lambda: w.index("o")), ("index big", lambda: w.index("o99999999999")), ("indices('o0,,v0')", lambda: w.indices("o0,,v0")),
           ("indices mixed", lambda: w.indices("o0,v0,z0")), ("cre", lambda: w.cre("o+")), ("ann", lambda: w.ann("q7")), ("tensor text", lambda: w.tensor("T^{o0_{v0}", S.anti)), ("tensor space", lambda: w.tensor("T^{o0}_{z0}", S.anti)),
           ("tensor list", lambda: w.tensor("T", ["o0", "z0"], ["v0"], S.anti)), ("expression junk", lambda: w.expression("T^{o0}_{v0} junk")), ("expression group", lambda: w.expression("{ a+(o0) ")), ("expression number", lambda: w.expression("1/0")),
           ("expression space", lambda: w.expression("a+(z0)")), ("second line bad", lambda: w.string_to_expr("T^{o0}_{v0}\nx y")), ("make_rational", lambda: w.make_rational("1//2")), ("make_rational zero", lambda: w.make_rational("3/0")),
           ("rational zero", lambda: w.rational(1, 0)), ("division", lambda: w.rational(1) / w.rational(0)), ("overflow", lambda: w.make_rational(str(2 ** 1024))), ("overflow *", lambda: w.make_rational(str(2 ** 1023)) * w.rational(4)),
           ("overflow expression", lambda: (e * w.make_rational(str(2 ** 1000))) * w.make_rational(str(2 ** 1000))), ("op label", lambda: w.op("A", ["o+ z"])), ("op second", lambda: w.op("A", ["o+ v", "o + v?"])), ("op type", lambda: w.op("A", "o+ v", 3, 4)),
           ("operator_expr", lambda: w.operator_expr("A", ["o+ v", "o+v"], True)), ("diag_operator", lambda: w.diag_operator("A", ["o", "z"], ["v"])), ("Operator sizes", lambda: w.Operator("A", [1], [1, 0, 0, 0])),
           ("Operator negative", lambda: w.Operator("A", [-1] + [0] * (w.num_spaces() - 1), [0] * w.num_spaces())), ("gen_op", lambda: w.gen_op("A", 1, "oz", "v")), ("add_space label", lambda: w.add_space(CFGS[G["cfg"]][0][0], "fermion", "occupied", ["x1"])),
           ("add_space index", lambda: w.add_space("x", "fermion", "occupied", ["x1", CFGS[G["cfg"]][0][3][0]])), ("add_space kind", lambda: w.add_space("x", "fermion", "virtual", ["x1"])), ("add_space field", lambda: w.add_space("x", "fermi", "occupied", ["x1"])),
           ("add_space elementary", lambda: w.add_space("x", "fermion", "general", ["x1", "x2"], ["?"])), ("add_space repeated index", lambda: w.add_space("x", "fermion", "general", ["x1", "x1"])), ("osi label", lambda: w.osi().label(99)), ("osi indices", lambda: w.osi().indices(-1)),
           ("str of index", lambda: str(nine)), ("latex of index", lambda: nine.latex()), ("str of tensor", lambda: str(w.Tensor("T", [nine], [], S.anti))), ("contract type", lambda: E.contract(w.rational(1), "x", 0, 2)), ("contract None", lambda: E.contract(None, p["prod"], 0, 2)),
           ("canonicalize nonsymmetric", lambda: bad.canonicalize()), ("vno labelled", lambda: p["expr2"].vacuum_normal_ordered()), ("product labelled", lambda: p["expr2"] @ p["expr2"]), ("compile format", lambda: p["eq"].compile("fortran")),
           ("compile operators", lambda: p["eq"].compile("einsum")), ("compile_einsum operators", lambda: w.compile_einsum(p["eq"])), ("commutator type", lambda: w.commutator(p["op"], 3)), ("bch type", lambda: w.bch_series(p["op"], p["op2"], "2")),
           ("iadd type", lambda: e.__iadd__("x") if False else e.__class__.__iadd__(e, "x") is NotImplemented and 1 / 0), ("dot type", lambda: e.dot(3)), ("setattr", lambda: setattr(p["index"], "foo", 1)), ("Term of text", lambda: w.Term("x")),
           ("sym type", lambda: w.tensor("T^{o0}_{v0}", 7)), ("set_print", lambda: E.set_print(17)), ("missing argument", lambda: w.op()), ("keyword", lambda: w.op(lab="A", components=[])), ("deep commutator", lambda: w.commutator(p["op"], p["op2"], None))]
    return out


# ---------------------------------------------------------------- running
def w_():
    import wicked
    return wicked


def enter(cfg):
    w = w_()
    G["cfg"] = cfg
    G["field"] = [s[1] for s in CFGS[cfg]]
    setcfg(w, cfg)
    return w


class Watch:
    def __init__(self, w, cfg):
        self.w, self.p = w, pool(w, cfg)
        self.reg = registry(w)
        self.snap = snapshot(w, self.p)
        self.deep = deep(w, self.p)

    def light(self):
        if registry(self.w) != self.reg:
            return "the registry changed from %r to %r" % (self.reg, registry(self.w))
        return None

    def full(self):
        m = self.light()
        if m:
            return m
        d = deep(self.w, self.p)
        for k, v in self.deep.items():
            if d.get(k) != v:
                return "the object %r changed from %r to %r" % (k, v, d.get(k))
        return None


def one_text(w, wt, cfg, kind, s):
    labels = "".join(x[0] for x in CFGS[cfg])
    bos = [x[0] for x in CFGS[cfg] if x[1] == "boson"]
    r, m = check_text(w, kind, labels, bos, s)
    if m is None and r == "raised":
        m = wt.light()
        if m:
            m = "after the error of %s(%r): %s" % (kind, s, m)
    return r, m


def one_grid(w, wt, item):
    nm, f, exp = item
    try:
        v = f()
    except AssertionError as x:
        return "%s: %s" % (nm, x)
    except MemoryError:
        return "%s: MemoryError" % nm
    except Exception as x:
        if exp is not None and exp[0] == "=":
            return "%s raises %s: %s" % (nm, type(x).__name__, str(x).strip()[:200])
        m = wt.light()
        return m and "after the error of %s: %s" % (nm, m)
    if exp == "raise":
        return "%s returns %r instead of raising an error" % (nm, v)
    if exp is not None and v != exp[1]:
        return "%s returns %r instead of %r" % (nm, v, exp[1])
    return None


def one_space(w, c, want):
    setcfg(w, "ov")
    l, f, k, i, e = c
    before = registry(w)
    try:
        if e is None:
            w.add_space(l, f, k, i)
        else:
            w.add_space(l, f, k, i, e)
    except Exception as x:
        if want == "ok":
            return "add_space%r raises %s" % (c, x)
        if registry(w) != before:
            return "the rejected add_space%r changed the registry from %r to %r" % (c, before, registry(w))
        try:
            w.index(l[:1] + "0")
            if l[:1] not in "ov":
                return "after the rejected add_space%r the label is known" % (c,)
        except RuntimeError:
            pass
        return None
    if want == "err":
        return "add_space%r is accepted" % (c,)
    if w.num_spaces() != 3 or w.osi().label(2) != l or w.osi().indices(2) != i or registry(w)[1].split("\n\n")[:2] != before[1].split("\n\n"):
        return "add_space%r gives the registry %r" % (c, registry(w))
    return None


# arguments that are sizes of the result
SIZES = {("gen_op", 1), ("bch_series", 2), ("integer_partitions", 0), ("integer_partitions", 1)}


def one_type(w, wt, ci, pos, wi, kw):
    nm, f, args = calls(w, wt.p)[ci]
    vals = wrong(w, wt.p)[wi]
    for v in [vals[1]]:
        if (nm, pos) in SIZES and isinstance(v, int) and v > 1000:
            continue
        a = list(args)
        if pos < len(a):
            a[pos] = v
        elif pos == len(a):
            a.append(v)
        else:
            a = a[:-1]
        try:
            with w_quiet():
                r = f(*a) if not kw else f(*a[:-1], **{"foo": a[-1] if a else 1})
                observe_any(w, r)
        except MemoryError:
            return "%s with %s as argument %d: MemoryError" % (nm, vals[0], pos)
        except Exception:
            pass
        m = wt.light()
        if m:
            return "after %s with %s as argument %d: %s" % (nm, vals[0], pos, m)
    return None


def observe_any(w, r):
    try:
        str(r)
        if hasattr(r, "latex"):
            r.latex()
    except Exception:
        pass


class w_quiet:
    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


def kinds_of(x):
    return type(x).__name__


def need(p, k):
    if k not in p:
        raise AttributeError(k)
    return p[k]


STALE_OBS = [
    ("str", lambda w, o, p: observe(w, o)), ("latex", lambda w, o, p: o.latex()), ("canonicalize", lambda w, o, p: (o.canonicalize(), observe(w, o))[1]), ("adjoint", lambda w, o, p: observe(w, o.adjoint())),
    ("compile", lambda w, o, p: o.compile("einsum")), ("compile ambit", lambda w, o, p: o.compile("ambit")), ("compile()", lambda w, o, p: o.compile()), ("compile_einsum", lambda w, o, p: w.compile_einsum(o)), ("vno", lambda w, o, p: observe(w, o.vacuum_normal_ordered())),
    ("vno same", lambda w, o, p: observe(w, o.vacuum_normal_ordered(True))),
    ("manybody", lambda w, o, p: observe(w, o.to_manybody_equation("R"))), ("add", lambda w, o, p: observe(w, o + o)), ("sub", lambda w, o, p: observe(w, o - o)), ("matmul", lambda w, o, p: observe(w, o @ o)),
    ("neg", lambda w, o, p: observe(w, -o)), ("norm", lambda w, o, p: observe(w, o.norm())), ("dot", lambda w, o, p: observe(w, o.dot(o))), ("eq", lambda w, o, p: o == o), ("lt", lambda w, o, p: o < o),
    ("contract", lambda w, o, p: observe(w, p["engine"].contract(w.rational(1), o, 0, 6))), ("contract all", lambda w, o, p: observe(w, p["engine"].contract(w.rational(1), o @ o, 0, 8))),
    ("contract multi", lambda w, o, p: observe(w, w.WickTheorem().contract(w.rational(1), o @ o, 0, 8))),
    ("contract mixed", lambda w, o, p: observe(w, p["engine"].contract(w.rational(1), o @ need(p, "op2"), 0, 8))), ("commutator", lambda w, o, p: observe(w, w.commutator(o, need(p, "op")))),
    ("bch", lambda w, o, p: observe(w, w.bch_series(o, o, 2))),
    ("field_type", lambda w, o, p: observe(w, o.field_type())), ("normal_ordered_less", lambda w, o, p: observe(w, o.normal_ordered_less(o))), ("tensors", lambda w, o, p: observe(w, o.tensors())), ("ops", lambda w, o, p: observe(w, o.ops())),
    ("lhs", lambda w, o, p: observe(w, [o.lhs(), o.rhs(), o.rhs_expression(), o.rhs_factor()])), ("terms", lambda w, o, p: observe(w, [(t, c) for t, c in o])), ("is_vno", lambda w, o, p: o.is_vacuum_normal_ordered()),
    ("sort", lambda w, o, p: observe(w, w.canonicalize_indices([o, o], False))),
]


def build_objs(w, cfg):
    """the pool of a configuration, each object as (object, spaces it refers to)"""
    p = pool(w, cfg)
    n = len(CFGS[cfg])
    flat = []
    for k, v in p.items():
        if k == "engine":
            continue
        for i, x in enumerate(v if isinstance(v, list) else [v]):
            flat.append(("%s%d" % (k, i), x))
    return p, flat


def spaces_of(w, cfg, text):
    """space numbers mentioned in the printed form of an object of configuration cfg"""
    import re
    labels = "".join(x[0] for x in CFGS[cfg])
    r = set()
    for m in re.finditer(r"([A-Za-z])(\d+)", text):
        # tensor labels of the pool have no digits except generated densities, which are followed by ^
        e = m.end()
        if text[e:e + 1] == "^":
            continue
        if m.group(1) in labels:
            r.add(labels.index(m.group(1)))
    for m in re.finditer(r"\{ ([^}]*)\}", text):
        if "(" in m.group(1):
            continue
        for t in m.group(1).split():
            if t[0] in labels:
                r.add(labels.index(t[0]))
    return r


def stale(w, X, Y, acc, fails):
    """every object made under X, used under Y; objects that refer to existing spaces must equal the one with renamed labels"""
    enter(X)
    p, objs = build_objs(w, X)
    recs = []
    for k, o in objs:
        t = observe(w, o)
        recs.append((k, o, t, spaces_of(w, X, t)))
    lx = "".join(x[0] for x in CFGS[X])
    enter(Y)
    q = pool(w, Y)
    ny = len(CFGS[Y])
    base = snapshot(w, q)
    reg = registry(w)
    for k, o, t, sp in recs:
        out = [s for s in sp if s >= ny]
        for nm, f in STALE_OBS:
            vc.crumb(json.dumps(["stale", X, Y, k, nm]))
            acc.transitions += 1
            if k.startswith(("prod", "op2")) and nm in ("contract all", "contract multi", "contract mixed", "bch") and "g" in (X, Y):
                continue
            if nm == "canonicalize":
                if not hasattr(o, "canonicalize"):
                    continue
                # on a copy, so that the object stays for the other observations
                c = copy_of(w, o)
                if c is None:
                    continue
                try:
                    r = f(w, c, q)
                except Exception as x:
                    r = x
                    if not (c == o):
                        fails((["stale", X, Y, k, nm]), "canonicalizing %s of configuration %s under %s raised an error and changed it" % (t, X, Y))
            else:
                try:
                    r = f(w, o, q)
                except (AttributeError, TypeError) as x:
                    continue
                except Exception as x:
                    r = x
            acc.validated += 1
            if isinstance(r, (AssertionError, MemoryError)):
                fails(["stale", X, Y, k, nm], "%s of %s: %r" % (nm, t, r))
            if out and nm in MUST and not isinstance(r, Exception):
                fails(["stale", X, Y, k, nm], "%s of %s, which refers to removed spaces, returns %r" % (nm, t, r))
        if not sp and observe(w, o) != t:
            fails(["stale", X, Y, k, "str"], "%s became %s" % (t, observe(w, o)))
    if registry(w) != reg or snapshot(w, q) != base:
        fails(["stale", X, Y, "", ""], "objects or the registry of configuration %s changed" % Y)
    # back in the first configuration the objects are what they were
    enter(X)
    for k, o, t, sp in recs:
        if observe(w, o) != t:
            fails(["stale", X, Y, k, "back"], "%s made under %s is %s after use under %s" % (t, X, observe(w, o), Y))


def copy_of(w, o):
    n = kinds_of(o)
    if n == "Expression":
        c = w.Expression()
        c += o
        return c
    if n == "OperatorExpression":
        return w.OperatorExpression(o)
    return None


def renumber(w, X, Y, acc, fails):
    """objects made under X equal, under Y, the objects of the same space numbers made under Y (configurations with as many spaces of the same fields)"""
    enter(X)
    p, objs = build_objs(w, X)
    enter(Y)
    q, fresh = build_objs(w, Y)
    fr_ = dict(fresh)
    for k, o in objs:
        if k.startswith(("res", "mbeqs")):
            continue
        f = fr_.get(k)
        if f is None:
            continue
        for nm, g in STALE_OBS:
            vc.crumb(json.dumps(["renumber", X, Y, k, nm]))
            acc.transitions += 1
            a = b = None
            if nm == "canonicalize":
                o1, f1 = copy_of(w, o), copy_of(w, f)
                if o1 is None:
                    continue
            else:
                o1, f1 = o, f
            try:
                a = g(w, o1, q)
            except (AttributeError, TypeError):
                continue
            except Exception as x:
                a = "raises " + type(x).__name__
            try:
                b = g(w, f1, q)
            except Exception as x:
                b = "raises " + type(x).__name__
            acc.validated += 1
            if a != b:
                fails(["renumber", X, Y, k, nm], "%s of the object %s made under %s gives %s under %s, the same object made under %s gives %s" % (nm, k, X, a, Y, Y, b))


# observations of an object that refers to removed spaces that cannot be meaningful
MUST = ("str", "latex", "compile()", "adjoint", "add", "neg", "manybody", "field_type", "contract", "contract all", "contract multi", "contract mixed")
SAME = [("ov", "vo"), ("vo", "ov"), ("ov", "ov")]


def big_cases(w, level):
    """products near the limits: (name, thunk)"""
    out = []

    def prod(cfg, ops, mn, mx, canon):
        def f():
            setcfg(w, cfg)
            r = None
            for l, c in ops:
                o = w.op(l, [c])
                r = o if r is None else r @ o
            e = w.WickTheorem()
            e.set_single_threaded(canon)
            e.do_canonicalize_graph(canon)
            return len(e.contract(w.rational(1), r, mn, mx))
        return f
    for canon in (True, False):
        for n in range(1, 9 if level < 2 else 6):
            L = [x[0] for x in CFGS["mix8"]]
            cs = " ".join(l + "+" for l in L[:n]) + " " + " ".join(reversed(L[:n]))
            out.append(("8 spaces, %d lines, %s" % (n, canon), prod("mix8", [("A", cs), ("B", "o+ p")], 0, 2 * n + 2, canon)))
        for n in range(2, 11 if level < 2 else 8):
            out.append(("%d factors %s" % (n, canon), prod("ov", [("A", "o+ v")] + [("B", "v+ o")] * (n - 1), 0, 4, canon)))
        for n in range(1, 7):
            out.append(("%d equal general legs %s" % (n, canon), prod("g", [("A", " ".join(["g+"] * n)), ("B", " ".join(["g"] * n))], 0, 2, canon)))
        for n in (2, 3, 4, 5):
            out.append(("%d one-leg general factors %s" % (n, canon), prod("g", [("A", "g+ g")] * n, 0, 2, canon) if n < 5 else prod("g", [("A", "g+ g")] * 3 + [("B", "g+")], 0, 3, canon)))
        out.append(("four spaces %s" % canon, prod("cav", [("A", "c+ c+ a a"), ("B", "a+ a+ v v"), ("C", "v+ v+ c c")], 0, 2, canon)))
        out.append(("many lines %s" % canon, prod("ov", [("A", "o+ " * 25 + "v " * 25), ("B", "v+ " * 25 + "o " * 25)], 0, 8, canon)))
    return out


def run_local(job, acc):
    part = job["part"]
    w = w_()
    if part == "text":
        cfg = job["cfg"]
        enter(cfg)
        wt = Watch(w, cfg)
        k = 0
        for s in texts(job["kind"], job["level"], job["i"], job["n"]):
            if "\ud800" in s:
                continue
            vc.crumb(json.dumps(["text", cfg, job["kind"], s]))
            r, m = one_text(w, wt, cfg, job["kind"], s)
            acc.states += 1
            acc.transitions += 1
            acc.validated += 1
            acc.count("texts read" if r == "ok" else "texts rejected")
            if m:
                acc.bad(["text", cfg, job["kind"], s], m)
            k += 1
            if k % 500 == 0:
                m = wt.full()
                if m:
                    acc.bad(["job"], "after %d texts of kind %s: %s" % (k, job["kind"], m))
                    return
        m = wt.full()
        if m:
            acc.bad(["job"], "after %d texts of kind %s: %s" % (k, job["kind"], m))
    elif part == "long":
        enter(job["cfg"])
        known = False
        for n in NLONG + (HUGE,):
            for fam in range(len(LONGTEXT[job["kind"]] + ANYKIND)):
                if n == HUGE and job["kind"] == "lines" and fam == 0:
                    continue   # many short lines
                case = ["long", job["cfg"], job["kind"], fam, n]
                vc.crumb(json.dumps(case))
                m = one_long(w, case)
                acc.states += 1
                acc.transitions += 1
                acc.validated += 1
                acc.count("long texts")
                if m and not (len(case) > 5 and known):
                    acc.bad(case, m)
                    known = len(case) > 5
    elif part == "num":
        cfg = job["cfg"]
        enter(cfg)
        wt = Watch(w, cfg)
        items = num_grid(w, None)
        for k, it in enumerate(items):
            if k % job["n"] != job["i"]:
                continue
            vc.crumb(json.dumps(["num", cfg, k]))
            m = one_grid(w, wt, it)
            acc.states += 1
            acc.transitions += 1
            acc.validated += 1
            if m:
                acc.bad(["num", cfg, k], m)
            if k % 997 == 0:
                m = wt.full()
                if m:
                    acc.bad(["job"], "after %s: %s" % (it[0], m))
                    return
        m = wt.full()
        if m:
            acc.bad(["job"], "after the calls with numbers: " + m)
    elif part == "space":
        for k, (c, want) in enumerate(space_grid()):
            if k % job["n"] == job["i"]:
                vc.crumb(json.dumps(["space", k]))
                m = one_space(w, c, want)
                acc.states += 1
                acc.transitions += 1
                acc.validated += 1
                if m:
                    acc.bad(["space", k], m)
    elif part == "type":
        cfg = job["cfg"]
        enter(cfg)
        wt = Watch(w, cfg)
        nw = len(wrong(w, wt.p))
        k = 0
        for ci, (nm, f, args) in enumerate(calls(w, wt.p)):
            for pos in range(len(args) + 2):
                for wi in range(nw if pos <= len(args) else 1):
                    k += 1
                    if k % job["n"] != job["i"]:
                        continue
                    vc.crumb(json.dumps(["type", cfg, ci, pos, wi]))
                    m = one_type(w, wt, ci, pos, wi, False)
                    acc.states += 1
                    acc.transitions += 1
                    acc.validated += 1
                    if m:
                        acc.bad(["type", cfg, ci, pos, wi], m)
            m = wt.full()
            if m:
                acc.bad(["job"], "after wrong arguments of %s: %s" % (nm, m))
                return
    elif part == "stale":
        for X, Y in job["pairs"]:
            acc.states += 1
            stale(w, X, Y, acc, lambda c, m: acc.bad(c, m))
            if (X, Y) in SAME:
                renumber(w, X, Y, acc, lambda c, m: acc.bad(c, m))
    elif part == "seq":
        cfg = job["cfg"]
        enter(cfg)
        wt = Watch(w, cfg)
        fl = faulty(w, wt.p)
        bad0 = str(G["bad"])
        for s in itertools.product(range(len(fl)), repeat=job["depth"]):
            if s[0] % job["n"] != job["i"]:
                continue
            vc.crumb(json.dumps(["seq", cfg, s]))
            m = one_seq(w, wt, fl, s, bad0, job["depth"] < 3 or s[-1] % 8 == s[0] % 8)
            acc.states += 1
            acc.transitions += len(s)
            acc.validated += 1
            if m:
                acc.bad(["seq", cfg, s], m)
                enter(cfg)
                wt = Watch(w, cfg)
                fl = faulty(w, wt.p)
    elif part == "big":
        for k, (nm, f) in enumerate(big_cases(w, job["level"])):
            if k % job["n"] == job["i"]:
                vc.crumb(json.dumps(["big", job["level"], k]))
                acc.states += 1
                acc.transitions += 1
                m = one_big(nm, f)
                if m:
                    acc.bad(["big", job["level"], k], m)


def one_big(nm, f):
    try:
        f()
    except MemoryError:
        return nm + ": MemoryError"
    except (RuntimeError, ValueError, OverflowError):
        pass
    return None


def one_seq(w, wt, fl, s, bad0, full):
    for k in s:
        try:
            r = fl[k][1]()
            return "%s returns %r instead of raising an error" % (fl[k][0], r)
        except MemoryError:
            return "%s: MemoryError" % fl[k][0]
        except Exception:
            pass
    m = wt.full() if full else wt.light()
    if not m and str(G["bad"]) != bad0:
        m = "the expression %s became %s" % (bad0, G["bad"])
    return m and "after the faulty calls %s: %s" % ([fl[k][0] for k in s], m)


# ---------------------------------------------------------------- long texts
ANYKIND = [("", "x", ""), ("", "0", ""), ("", " ", ""), ("", ",", ""), ("", "{", ""), ("", "^", "")]
LONGTEXT = {
    "index": [("v", "0", ""), ("v", "1", ""), ("v", "_", "0"), ("v0", " ", "")], "cre": [("v", "0", "")], "ann": [("v", "0", "")], "tlist": [("v", "0", "")],
    "indices": [("v0,", "o1,", "v0"), ("v", "0", ""), ("v0,", " ", "o1"), ("v0", ",", "o1")],
    "tensor": [("T^{", "v0,", "v0}_{o0}"), ("T^{v0}_{", "o1,", "o0}"), ("T^{v0}_{", "o1, ", "o0}"), ("", "T", "^{v0}_{o0}"), ("T^{v", "0", "}_{o0}"), ("T^{", " ", "}_{}")],
    "rational": [("", "1", ""), ("0", "0", "1"), ("1/", "0", "1"), ("", " ", "1"), ("1", " ", ""), ("1/", "1", ""), ("-", "7", "/3")],
    "expression": [("", "T^{v0}_{o0} ", "T^{v0}_{o0}"), ("T^{", "v0,", "v0}_{o0}"), ("", "T", "^{v0}_{o0}"), ("{ ", "a+(v0) ", "}"), ("", "a+(v1) ", "a+(v1)"), ("T^{v0}_{o0} ", " ", "T^{v0}_{o0}"),
                   ("2 ", " ", "T^{v0}_{o0}"), ("", "1", " T^{v0}_{o0}"), ("a+(v", "0", ")"), ("T^{v0}_{o", "0", "}"), ("", "+", ""), ("1/", "3", " T^{v0}_{o0}")],
    "lines": [("", "T^{v0}_{o0}\n", "T^{v0}_{o0}"), ("", "\n", "T^{v0}_{o0}"), ("{ ", "a+(v0) ", "}")], "op": [("", "v+ ", "v+"), ("v+", " ", "o"), ("", " ", "v+")], "opexpr": [("", "v+ ", "v+")],
}
NLONG = (100, 1000, 4000)
HUGE = 150000


def long_text(kind, fam, n):
    a, u, b = (LONGTEXT[kind] + ANYKIND)[fam]
    return a + u * (n // len(u)) + b


def one_long(w, case):
    """in a child with the usual stack: the parsers may use a stack that grows with the text"""
    _, cfg, kind, fam, n = case[:5]
    s = long_text(kind, fam, n)
    r, q = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            hard = resource.getrlimit(resource.RLIMIT_STACK)[1]
            lim = 8 << 20
            resource.setrlimit(resource.RLIMIT_STACK, (lim if hard == resource.RLIM_INFINITY else min(lim, hard), hard))
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            if n < (500 if (kind, fam) == ("op", 0) else HUGE):   # the factor 1/n! of an operator with many indices cannot be represented
                m = one_text(w, Watch(w, cfg), cfg, kind, s)[1]
            else:
                m = None
                try:
                    READ[kind](w, s)
                except AssertionError as x:
                    m = "%s: %s" % (kind, x)
                except Exception:
                    m = Watch(w, cfg).light()
            os.write(q, (m or "").encode(errors="replace")[:3000])
            code = 0
        finally:
            os._exit(code)
    os.close(q)
    m = b""
    while True:
        x = os.read(r, 4096)
        if not x:
            break
        m += x
    os.close(r)
    st = os.waitpid(pid, 0)[1]
    if st:
        if n >= HUGE and os.WIFSIGNALED(st) and os.WTERMSIG(st) == signal.SIGSEGV:
            case[5:] = ["stack overflow"]
        return "%s(%r repeated to %d characters) ends the process with status %d" % (kind, (LONGTEXT[kind] + ANYKIND)[fam], len(s), st)
    return m.decode(errors="replace") or None


def KEY(case):
    """recorded finding: texts of hundreds of thousands of characters exhaust the stack of the regular expressions"""
    if isinstance(case, dict):
        case = case.get("case")
    if isinstance(case, list) and len(case) > 5 and case[0] == "long" and case[4] >= HUGE:
        return "long-text-%s" % case[2]
    return None


def replay_local(case):
    w = w_()
    if case[0] == "long":
        enter(case[1])
        return one_long(w, case)
    k = case[0]
    if k == "text":
        enter(case[1])
        return one_text(w, Watch(w, case[1]), case[1], case[2], case[3])[1]
    if k == "num":
        enter(case[1])
        wt = Watch(w, case[1])
        return one_grid(w, wt, num_grid(w, None)[case[2]])
    if k == "space":
        c, want = list(space_grid())[case[1]]
        return one_space(w, c, want)
    if k == "type":
        enter(case[1])
        return one_type(w, Watch(w, case[1]), *case[2:], False)
    if k in ("stale", "renumber"):
        a = vc.Acc()
        a.bad = lambda c, m: a.viol.append((c, m))
        (stale if k == "stale" else renumber)(w, case[1], case[2], a, a.bad)
        v = [m for c, m in a.viol if c == case]
        return (v or [m for c, m in a.viol] or [None])[0]
    if k == "seq":
        enter(case[1])
        wt = Watch(w, case[1])
        fl = faulty(w, wt.p)
        return one_seq(w, wt, fl, case[2], str(G["bad"]), True)
    if k == "big":
        return one_big(*big_cases(w, case[1])[case[2]])
    return None


# ---------------------------------------------------------------- jobs
def jobs(tier):
    th = tier == "thorough"
    lv = 1 if th else 0
    out = []
    for kind in KINDS:
        al, dep = ALPHA[kind]
        n = max(1, len(al) ** dep[lv] // (60000 if th else 15000))
        if kind in ("op", "opexpr", "expression", "lines"):
            n = max(n, 6)
        out += [dict(part="text", cfg="ovb", kind=kind, level=lv, i=i, n=n) for i in range(n)]
        if th:
            out += [dict(part="text", cfg=c, kind=kind, level=0, i=i, n=4) for c in ("cav", "vo") for i in range(4) if kind not in ("tlist",)]
    for cfg in ("ov", "", "ovb", "cav", "mix8", "nine", "b", "g"):
        out += [dict(part="num", cfg=cfg, i=i, n=4) for i in range(4)]
    out += [dict(part="space", i=i, n=4) for i in range(4)]
    out += [dict(part="type", cfg=c, i=i, n=4) for c in ("ov", "ovb") for i in range(4)]
    pairs = list(itertools.product(CFGS, repeat=2))
    out += [dict(part="stale", pairs=pairs[i::9]) for i in range(9)]
    out += [dict(part="seq", cfg=c, depth=2, i=i, n=8) for c in ("ovb", "ov") for i in range(8)]
    if th:
        out += [dict(part="seq", cfg="ov", depth=3, i=i, n=32) for i in range(32)]
    out += [dict(part="big", level=0, i=i, n=4) for i in range(4)]
    out += [dict(part="long", cfg="ovb", kind=k) for k in KINDS]
    for j in out:
        j["fl"] = "std"
    san = []
    for kind in KINDS:
        n = 4 if kind in ("rational", "expression", "tensor", "indices") else 2
        san += [dict(part="text", cfg="ovb", kind=kind, level=2 if not th else 0, i=i, n=n if not th else 24) for i in range(n if not th else 24)]
    for cfg in ("ov", "", "ovb", "mix8", "nine"):
        # every third argument in the quick tier
        m = 3 if not th else 8
        san += [dict(part="num", cfg=cfg, i=i, n=(4 if cfg != "nine" else 6) if not th else 8) for i in range(m)]
    san += [dict(part="space", i=i, n=8) for i in range(2 if not th else 8)]
    san += [dict(part="type", cfg="ov", i=i, n=6) for i in range(6)]
    san += [dict(part="stale", pairs=pairs[i::16]) for i in range(16)]
    san += [dict(part="seq", cfg="ovb", depth=1 if not th else 2, i=i, n=2 if not th else 16) for i in range(2 if not th else 16)]
    san += [dict(part="big", level=2, i=i, n=8) for i in range(8)]
    for j in san:
        j["fl"] = "asan"
    return san + out


def asan_env():
    lib = lambda n: subprocess.check_output(["gcc", "-print-file-name=" + n], text=True).strip()
    return dict(os.environ, LD_PRELOAD=lib("libasan.so") + ":" + lib("libubsan.so"), ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:allocator_may_return_null=1:max_allocation_size_mb=8192",
                UBSAN_OPTIONS="print_stacktrace=1:halt_on_error=1", PYTHONMALLOC="malloc")


def asan(mode, payload, timeout):
    with tempfile.TemporaryDirectory() as d:
        f = os.path.join(d, "crumb")
        with open(f, "wb") as g:
            g.write(b"\0" * (65536 + 16))
        q = os.path.join(d, "in.json")
        json.dump(payload, open(q, "w"))
        o = os.path.join(d, "out.json")
        try:
            p = subprocess.run([build.PY, os.path.abspath(__file__), mode, G["asan"], q, f, o], env=asan_env(), capture_output=True, text=True, errors="replace", timeout=timeout)
            err = p.stderr
            code = p.returncode
        except subprocess.TimeoutExpired:
            err, code = "no result within %d s" % timeout, "hang"
        b = open(f, "rb").read()
        n = int.from_bytes(b[:4], "little")
        cr = b[4:4 + n].decode(errors="replace")
        if code == 0 and os.path.exists(o):
            return json.load(open(o)), None, cr
        return None, "the sanitizer build ended with status %s:\n%s" % (code, err[:2500]), cr


def run(job, acc):
    if job["fl"] == "asan":
        r, err, cr = asan("run", job, 380)
        if err:
            acc.bad(dict(fl="asan", job=job, case=json.loads(cr) if cr else None), err + "\nlast case: " + cr)
            acc.states += 1
            return
        acc.states += r["states"]
        acc.transitions += r["transitions"]
        acc.validated += r["validated"]
        for k, v in r["extra"].items():
            acc.count(k, v)
        acc.count("cases under the sanitizers", r["transitions"])
        for c, m in r["viol"]:
            acc.bad(dict(fl="asan", job=job, case=c), m)
        return
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    a = vc.Acc()
    run_local(job, a)
    acc.states += a.states
    acc.transitions += a.transitions
    acc.validated += a.validated
    for k, v in a.extra.items():
        acc.count(k, v)
    acc.count("cases of part " + job["part"], a.states)
    acc.sample(json.dumps({k: v for k, v in job.items() if k != "pairs"}))
    for c, m in a.viol:
        acc.bad(dict(fl="std", job=job, case=c), m)


def replay(case):
    c = case if isinstance(case, dict) else dict(fl="std", job=None, case=case)
    if c["fl"] == "asan":
        if c["case"] and c["case"][0] != "job":
            r, err, cr = asan("replay", c["case"], 300)
            if err or r.get("msg"):
                return err or r["msg"]
        r, err, cr = asan("run", c["job"], 380)
        return err or (r["viol"][0][1] if r["viol"] else None)
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    if c["case"][0] == "job":
        a = vc.Acc()
        run_local(c["job"], a)
        return a.viol[0][1] if a.viol else None
    return replay_local(c["case"])


def main():
    mode, root, q, f, o = sys.argv[1:]
    sys.path.insert(0, root)
    fd = os.open(f, os.O_RDWR)
    vc._crumb = mmap.mmap(fd, 0)
    sys.setrecursionlimit(20000)
    import wicked
    assert os.path.abspath(wicked.__file__).startswith(root)
    job = json.load(open(q))
    if mode == "replay":
        json.dump(dict(msg=replay_local(job)), open(o, "w"))
        return
    a = vc.Acc()
    if job["part"] == "stale":
        job["pairs"] = [tuple(x) for x in job["pairs"]]
    run_local(job, a)
    json.dump(dict(states=a.states, transitions=a.transitions, validated=a.validated, extra=a.extra, viol=a.viol), open(o, "w"))


if __name__ == "__main__":
    main()
