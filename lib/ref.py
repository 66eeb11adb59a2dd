"""ctypes access to the reference models in ref/wickref.cc."""
import ctypes, os

_lib = _big = None


def _open(path):
    lib = ctypes.CDLL(path)
    for n, a in dict(wr_graph=[ctypes.c_char_p], wr_brute=[ctypes.c_char_p, ctypes.c_char_p, ctypes.c_int],
                     wr_contract=[ctypes.c_char_p, ctypes.POINTER(ctypes.c_longlong)],
                     wr_check=[ctypes.c_char_p, ctypes.c_char_p, ctypes.POINTER(ctypes.c_longlong), ctypes.POINTER(ctypes.c_longlong)],
                     wr_diff=[ctypes.c_char_p, ctypes.c_char_p],
                     wr_bdiff=[ctypes.c_char_p, ctypes.c_char_p, ctypes.c_char_p, ctypes.c_int]).items():
        f = getattr(lib, n)
        f.argtypes = a
        f.restype = ctypes.c_void_p
    lib.wr_free.argtypes = [ctypes.c_void_p]
    return lib


def load(path):
    global _lib
    _lib = _open(path)


def _call(name, *args):
    global _big
    s = _take(_lib, getattr(_lib, name)(*args))
    if "REF: overflow" in s:
        # 128-bit integers do not suffice: the same model with unbounded ones
        if _big is None:
            import build
            _big = _open(build.build_ref(True))
        s = _take(_big, getattr(_big, name)(*args))
    return s


def _take(lib, p):
    s = ctypes.string_at(p).decode()
    lib.wr_free(p)
    return s


class RefError(Exception):
    pass


def graph(text):
    s = _call("wr_graph", str(text).encode())
    if s.startswith("!"):
        raise RefError(s[1:] + "\n" + str(text))
    return s


def brute(text, sym="", mode=3):
    s = _call("wr_brute", str(text).encode(), sym.encode(), mode)
    if s.startswith("!"):
        raise RefError(s[1:] + "\n" + str(text))
    return s


def contract(spec):
    n = ctypes.c_longlong(0)
    s = _call("wr_contract", spec.encode(), ctypes.byref(n))
    if s.startswith("!"):
        raise RefError(s[1:])
    return s, n.value


def check(spec, text):
    """-> (diff or '', raw contraction sets enumerated, distinct terms)"""
    n, m = ctypes.c_longlong(0), ctypes.c_longlong(0)
    s = _call("wr_check", spec.encode(), str(text).encode(), ctypes.byref(n), ctypes.byref(m))
    if s.startswith("!REF"):
        raise RefError(s[1:])
    return s, n.value, m.value


def diff(a, b):
    return _call("wr_diff", str(a).encode(), str(b).encode())


def bdiff(a, b, sym="", mode=3):
    return _call("wr_bdiff", str(a).encode(), str(b).encode(), sym.encode(), mode)
