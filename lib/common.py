"""Shared drivers for the Python interface of the code under test."""
import itertools, json
from fractions import Fraction as F

# orbital-space configurations: (label, field, kind, [index names])
CFG = {
    "ov": [("o", "fermion", "occupied", list("ijklmn")), ("v", "fermion", "unoccupied", list("abcdef"))],
    "vo": [("v", "fermion", "unoccupied", list("abcdef")), ("o", "fermion", "occupied", list("ijklmn"))],
    "g": [("g", "fermion", "general", list("pqrstu"))],
    "cav": [("c", "fermion", "occupied", list("ijklmn")), ("a", "fermion", "general", list("uvwxyz")), ("v", "fermion", "unoccupied", list("abcdef"))],
    "gv": [("g", "fermion", "general", list("pqrs")), ("v", "fermion", "unoccupied", list("abcd"))],
    "go": [("g", "fermion", "general", list("pqrs")), ("o", "fermion", "occupied", list("ijkl"))],
    "hg": [("h", "fermion", "general", list("pqrs")), ("g", "fermion", "general", list("tuvw"))],
    "ovx": [("o", "fermion", "occupied", list("ijkl")), ("v", "fermion", "unoccupied", list("abcd")), ("x", "fermion", "occupied", list("mnpq"))],
    "uov": [("u", "fermion", "unoccupied", list("efgh")), ("o", "fermion", "occupied", list("ijkl")), ("v", "fermion", "unoccupied", list("abcd"))],
    "og": [("o", "fermion", "occupied", list("ijkl")), ("g", "fermion", "general", list("pqrs"))],
    "vg": [("v", "fermion", "unoccupied", list("abcd")), ("g", "fermion", "general", list("pqrs"))],
    "ovb": [("o", "fermion", "occupied", list("ijkl")), ("v", "fermion", "unoccupied", list("abcd")), ("B", "boson", "unoccupied", list("pqrs"))],
    "b": [("B", "boson", "unoccupied", list("pqrs"))],
    "f": [("f", "fermion", "general", list("pqrs"))],
    "fb": [("f", "fermion", "general", list("pqrs")), ("b", "boson", "unoccupied", list("tuvw"))],
}
# as many spaces as the library supports
CFG["ou8"] = [(l, "fermion", k, [l + "0", l + "1", l + "2", l + "3"]) for l, k in zip("oupqmewn", ("occupied", "unoccupied", "unoccupied", "occupied", "occupied", "unoccupied", "unoccupied", "occupied"))]
CFG["mix8"] = [(l, "fermion", k, [l + "0", l + "1", l + "2", l + "3"]) for l, k in zip("oupgqhwk", ("occupied", "unoccupied", "occupied", "general", "unoccupied", "general", "unoccupied", "general"))]
CFG["gg4"] = [("e", "fermion", "general", list("ijkl")), ("f", "fermion", "general", list("mnpq")), ("g", "fermion", "general", list("rstu")), ("h", "fermion", "general", list("vwxy"))]
TY = {"occupied": "o", "unoccupied": "u", "general": "g"}


def spaces(w, name):
    w.reset_space()
    for lab, field, kind, idx in CFG[name]:
        w.add_space(lab, field, kind, idx)


def labels(name):
    return "".join(x[0] for x in CFG[name])


def types(name):
    return "".join(TY[x[2]] for x in CFG[name])


def comp_str(labs, cre, ann):
    """component string: creation operators in order, annihilation operators in reverse order of spaces"""
    s = []
    for l, n in zip(labs, cre):
        s += [l + "+"] * n
    for l, n in reversed(list(zip(labs, ann))):
        s += [l] * n
    return " ".join(s)


def all_comps(ns, lines):
    """all (cre, ann) with exactly `lines` operators over ns spaces, in lexicographic order"""
    def rec(n, left):
        if n == 1:
            yield (left,)
            return
        for k in range(left + 1):
            for r in rec(n - 1, left - k):
                yield (k,) + r
    return [(c[:ns], c[ns:]) for c in rec(2 * ns, lines)] if ns else ([((), ())] if lines == 0 else [])


def comps_upto(ns, n):
    return [c for k in range(n + 1) for c in all_comps(ns, k)]


def embed(c, ns, pos):
    """component over len(pos) spaces -> component over ns spaces, space k going to pos[k]"""
    r = ([0] * ns, [0] * ns)
    for side in (0, 1):
        for k, p in enumerate(pos):
            r[side][p] += c[side][k]
    return tuple(r[0]), tuple(r[1])


def nlines(c):
    return sum(c[0]) + sum(c[1])


def make_product(w, labs, ops):
    """ops: [(label, cre, ann)] -> OperatorExpression with a single product"""
    r = None
    for lab, cre, ann in ops:
        o = w.op(lab, [comp_str(labs, cre, ann)])
        r = o if r is None else r @ o
    return r


def spec(name, ops, minr, maxr, maxcum=99, fac="1/1"):
    s = "%s %s %d %d %d %s" % (labels(name), types(name), minr, maxr, maxcum, fac)
    for lab, cre, ann in ops:
        s += ";%s %s %s" % (lab, "".join(map(str, cre)), "".join(map(str, ann)))
    return s


def chunks(lst, n):
    """split into n strided jobs (balanced cost)"""
    return [lst[i::n] for i in range(n) if lst[i::n]]


def set_partitions(n):
    """label patterns: restricted growth strings"""
    def rec(p, m):
        if len(p) == n:
            yield tuple(p)
            return
        for k in range(m + 1):
            yield from rec(p + [k], max(m, k + 1))
    return list(rec([], 0))


def engine(w, canon=True, single=True, maxcum=None):
    e = w.WickTheorem()
    e.set_single_threaded(single)
    e.do_canonicalize_graph(canon)
    if maxcum is not None:
        e.set_max_cumulant(maxcum)
    return e
