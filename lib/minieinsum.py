"""Exact execution of generated tensor code: arrays over fractions and a stand-in for numpy.einsum."""
import itertools, random, re
from fractions import Fraction as F


class CodeError(Exception):
    pass


class Arr:
    def __init__(self, shape, data=None):
        self.shape = tuple(shape)
        self.data = data if data is not None else {}

    def __getitem__(self, k):
        return self.data.get(k, F(0))

    def __rmul__(self, c):
        return Arr(self.shape, {k: exact(c) * v for k, v in self.data.items()})

    __mul__ = __rmul__

    def __iadd__(self, o):
        if not isinstance(o, Arr) or o.shape != self.shape:
            raise CodeError("shapes %s and %s do not match" % (self.shape, getattr(o, "shape", None)))
        for k, v in o.data.items():
            self.data[k] = self.data.get(k, F(0)) + v
        return self


def exact(c):
    return F(str(c)) if isinstance(c, float) else F(c)


def einsum(sub, *arrs, optimize=None):
    """the rules of numpy.einsum for subscripts with an explicit output"""
    m = re.match(r"^([A-Za-z,]*)->([A-Za-z]*)$", sub)
    if not m:
        raise CodeError("invalid subscripts %r" % sub)
    ins, out = m.group(1).split(","), m.group(2)
    if len(ins) != len(arrs):
        raise CodeError("%d subscripts for %d operands" % (len(ins), len(arrs)))
    dim = {}
    for s, a in zip(ins, arrs):
        if not isinstance(a, Arr) or len(s) != len(a.shape):
            raise CodeError("operand with %s axes has subscripts %r" % (getattr(a, "shape", a), s))
        for c, n in zip(s, a.shape):
            if dim.setdefault(c, n) != n:
                raise CodeError("index %s runs over %d and %d values" % (c, dim[c], n))
    if len(set(out)) != len(out):
        raise CodeError("output index repeated in %r" % sub)
    for c in out:
        if c not in dim:
            raise CodeError("output index %s of %r does not appear in the input" % (c, sub))
    r = Arr([dim[c] for c in out])
    r.data = contract([(list(s), a) for s, a in zip(ins, arrs)], list(out), dim)
    return r


def contract(factors, out, dim):
    """sum over all indices not in out of the product of the factors"""
    idx = []
    for s, _ in factors:
        for c in s:
            if c not in idx:
                idx.append(c)
    res = {}
    val = {}

    def rec(k, prod):
        if prod == 0:
            return
        if k == len(factors):
            key = tuple(val[c] for c in out)
            res[key] = res.get(key, F(0)) + prod
            return
        s, a = factors[k]
        new = [c for c in dict.fromkeys(s) if c not in val]
        for t in itertools.product(*[range(dim[c]) for c in new]):
            val.update(zip(new, t))
            rec(k + 1, prod * a[tuple(val[c] for c in s)])
        for c in new:
            val.pop(c, None)
    rec(0, F(1))
    return {k: v for k, v in res.items() if v}


class Np:
    einsum = staticmethod(einsum)


class Block(dict):
    """tensor blocks by space labels, filled on demand with fixed integers"""

    def __init__(self, label, dims):
        self.label, self.dims = label, dims

    def __missing__(self, key):
        a = random_array(self.label + ":" + key, [self.dims[c] for c in key])
        self[key] = a
        return a


def random_array(seed, shape):
    r = random.Random(seed)
    a = Arr(shape)
    for t in itertools.product(*[range(n) for n in shape]):
        a.data[t] = F(r.choice((-3, -2, -1, 1, 2, 3, 5, 7)))
    return a


def run_python(code, env):
    try:
        exec(compile(code, "<generated>", "exec"), {"np": Np, "__builtins__": {}}, env)
    except CodeError:
        raise
    except Exception as e:
        raise CodeError("%s: %s" % (type(e).__name__, e))
