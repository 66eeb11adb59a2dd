"""Exact model of the two algebras of the Python interface: finite maps from keys to fractions, keys being
(tensors, operators, flag) for Expression and words of operators for OperatorExpression."""
import re
from fractions import Fraction as F


def add(d, k, c):
    x = d.get(k, 0) + c
    if x:
        d[k] = x
    else:
        d.pop(k, None)


def lin(*pairs):
    r = {}
    for c, d in pairs:
        for k, v in d.items():
            add(r, k, c * v)
    return r


def emul(a, b):
    """product of expressions, None when a factor with operators is labelled normal ordered"""
    r = {}
    for (t, o, f), v in a.items():
        for (t2, o2, f2), v2 in b.items():
            if f or f2:
                return None
            add(r, (t + t2, o + o2, False), v * v2)
    return r


def omul(a, b):
    r = {}
    for k, v in a.items():
        for k2, v2 in b.items():
            add(r, k + k2, v * v2)
    return r


COEF = re.compile(r"^([+-]?)(\d+(?:/\d+)?)?(?: |$)?")
TOK = re.compile(r"[A-Za-z][A-Za-z0-9_]*\^\{[^}]*\}_\{[^}]*\}|[ab][+-]\([^)]*\)|\{|\}|\S+")


def parse_e(text):
    """printed Expression -> model; terms that print alike are an error"""
    r = {}
    for line in str(text).split("\n"):
        if not line:
            continue
        m = re.match(r"^([+-]?)(\d+(?:/\d+)?)?(?:\s+|$|(?=[A-Za-z{]))", line)
        if not m:
            raise ValueError("cannot read the term %r" % line)
        c = F(m.group(2) or 1) * (-1 if m.group(1) == "-" else 1)
        t, o, f = [], [], False
        for x in TOK.findall(line[m.end():]):
            if x == "{":
                f = True
            elif x == "}":
                pass
            elif "^{" in x:
                t.append(x)
            elif re.match(r"[ab][+-]\(", x):
                o.append(x)
            else:
                raise ValueError("cannot read %r in the term %r" % (x, line))
        k = (tuple(t), tuple(o), f)
        if k in r:
            raise ValueError("two terms print alike: %r" % line)
        if c == 0:
            raise ValueError("a term with coefficient zero is printed: %r" % line)
        r[k] = c
    return r


OPR = re.compile(r"(\d+(?:/\d+)? )?([A-Za-z]\S*) \{ ([^}]*)\}")


def parse_o(text):
    r = {}
    for line in str(text).split("\n"):
        if not line:
            continue
        m = re.match(r"^\s*([+-]?)(\d+(?:/\d+)?)?\s*", line)
        c = F(m.group(2) or 1) * (-1 if m.group(1) == "-" else 1)
        rest = line[m.end():]
        ops = [x[1:] for x in OPR.findall(rest)]
        if OPR.sub("", rest).strip():
            raise ValueError("cannot read the term %r" % line)
        k = tuple((l, tuple(s.split())) for l, s in ops)
        if k in r:
            raise ValueError("two terms print alike: %r" % line)
        if c == 0:
            raise ValueError("a term with coefficient zero is printed: %r" % line)
        r[k] = c
    return r


def flip(x):
    """adjoint of a printed second-quantized operator"""
    return x[0] + {"+": "-", "-": "+"}[x[1]] + x[2:]


def eadj(a):
    return {(t, tuple(flip(x) for x in reversed(o)), f): v for (t, o, f), v in a.items()}
