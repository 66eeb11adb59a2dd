"""C21: combinatorial enumeration and permutation signs."""
import itertools, json
import vc

ID = "C21"
LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of all arguments up to the bound on the real functions against independent recursive definitions"
RULE = ("integer_partitions(n, m) for all n up to the bound and all m from -2 to n+3 is compared with a recursive definition, and all n up to 13 with m up to 39 and a list of larger ones after each other in one process in four orders; canonicalize_indices on all lists up to the length bound over several alphabets (with repetitions, several spaces), "
        "all permutations of up to 7 distinct indices, and all rotations, transpositions, reversals and block exchanges of lists of 9 to 132 indices is compared with the sorted list and the parity counted by cycles")
ASSUME = ["for lists with repeated indices the sign may be either, since the sorting permutation is not unique"]
W = [("o", "fermion", "occupied", list("ijkl")), ("v", "fermion", "unoccupied", list("abcd")), ("g", "fermion", "general", [])]


def partitions(n, m, top=None):
    """partitions of n into at most m parts, each at most top, parts non-increasing"""
    if n == 0:
        yield ()
        return
    if m <= 0 or n < 0:
        return
    for k in range(min(n, top if top is not None else n), 0, -1):
        for r in partitions(n - k, m - 1, k):
            yield (k,) + r


def check_part(w, n, m):
    got = [tuple(x) for x in w.integer_partitions(n, m)]
    want = sorted(partitions(n, m)) if n >= 0 and m >= 0 else []
    if m < 0 and n == 0:
        want = None                     # no number of parts is allowed: either answer would do
    for g in got:
        if list(g) != sorted(g, reverse=True):
            return "integer_partitions(%d,%d) contains %s, not in non-increasing order" % (n, m, list(g)), len(got)
    if want is not None and sorted(got) != want:
        s = set(want)
        return "integer_partitions(%d,%d): missing %s, extra %s, repeated %s" % (
            n, m, sorted(s - set(got))[:3], sorted(set(got) - s)[:3], [g for g in set(got) if got.count(g) > 1][:3]), len(got)
    return None, len(got)


def parity(keys):
    """sign of the permutation that sorts distinct keys, by cycles"""
    pos = {k: i for i, k in enumerate(sorted(keys))}
    perm = [pos[k] for k in keys]
    seen, sign = set(), 1
    for i in range(len(perm)):
        n = 0
        while i not in seen:
            seen.add(i)
            i = perm[i]
            n += 1
        if n and n % 2 == 0:
            sign = -sign
    return sign


def check_sort(w, lst, reverse):
    sign, out = w.canonicalize_indices([w.Index(s, p) for s, p in lst], reverse)
    out = [(i.space(), i.pos()) for i in out]
    want = sorted(lst, reverse=reverse)
    if out != want:
        return "canonicalize_indices(%s, %s) returns %s" % (lst, reverse, out)
    keys = [(-s, -p) if reverse else (s, p) for s, p in lst]
    ok = (1, -1) if len(set(lst)) < len(lst) else (parity(keys),)
    v = (sign.numerator(), sign.denominator())
    if v[1] != 1 or v[0] not in ok:
        return "canonicalize_indices(%s, %s) returns the sign %s" % (lst, reverse, sign)
    return None


def long_lists(n):
    base = [(k % 3, k // 3) for k in range(n)]
    base.sort()
    yield base
    yield base[::-1]
    for r in range(1, n):
        yield base[r:] + base[:r]
        yield (base[r:] + base[:r])[::-1]
    for i in range(n):
        for j in range(i + 1, n):
            x = list(base)
            x[i], x[j] = x[j], x[i]
            yield x
    for a in range(1, n - 1, 3):
        for b in range(a + 1, n, 3):
            yield base[b:] + base[a:b] + base[:a]
            yield base[:a] + base[b:] + base[a:b]
    yield base[::2] + base[1::2]
    yield base[1::2][::-1] + base[::2]


ALPHA = [[(0, 0), (0, 1)], [(0, 0), (1, 0), (0, 1)], [(2, 0), (0, 5), (1, 2), (0, 10)], [(0, 9), (0, 10), (0, 11), (1, 0), (1, 300)]]
POOL = [[(0, k) for k in range(8)], [(k % 2, k // 2) for k in range(8)], [(2, 0), (1, 7), (1, 11), (0, 2), (0, 100), (0, 99), (2, 12), (1, 1000000)]]


def lists(job):
    k = job[0]
    if k == "words":
        al = ALPHA[job[1]]
        for x in itertools.product(al, repeat=job[2]):
            yield list(x)
    elif k == "perms":
        for n, x in enumerate(itertools.permutations(POOL[job[1]][:job[2]])):
            if n % 4 == job[3]:
                yield list(x)
    else:
        yield from long_lists(job[1])


def jobs(tier):
    t = tier == "thorough"
    top = 52 if t else 34
    out = [["part", n] for n in range(top, -4, -1)]
    for a, al in enumerate(ALPHA):
        n = 0
        while len(al) ** n <= (300000 if t else 20000):
            out.append(["words", a, n])
            n += 1
    out += [["perms", p, n, i] for p in range(len(POOL)) for n in range(9 if t else 8) for i in range(4)]
    out += [["all", k, 18 if t else 14] for k in range(4)]
    out += [["long", n] for n in ([9, 12, 15, 16, 17, 18, 20, 24, 31, 32, 33, 40, 48, 64, 65, 66, 70, 100, 127, 128, 129, 130, 132] if t else [9, 15, 16, 17, 18, 33, 65, 66, 70, 100])]
    return out


def order(k, top):
    """all arguments, maximum lengths far beyond the number included, in one of four orders"""
    ms = list(range(-2, 40)) + [47, 48, 49, 63, 64, 65, 96, 97, 99, 100, 101, 127, 128, 129, 160, 200, 255, 256, 257, 500, 512, 1000, 1001, 1024, 4096, 10000]
    if k == 0:
        return [(n, m) for n in range(-3, top) for m in ms]
    if k == 1:
        return [(n, m) for n in range(top - 1, -4, -1) for m in reversed(ms)]
    if k == 2:
        return [(n, m) for m in ms for n in range(-3, top)]
    return [(n, m) for m in reversed(ms) for n in range(top - 1, -4, -1)]


def run(job, a):
    import wicked as w
    w.reset_space()
    for s in W:
        w.add_space(*s)
    if job[0] == "part":
        n = job[1]
        ms = list(range(-2, n + 4)) if n <= 34 else [0, 1, 2, 3, 5, n // 3, n - 2, n - 1, n, n + 1]
        for m in ms:
            vc.crumb(json.dumps(["p", n, m]))
            msg, k = check_part(w, n, m)
            a.states += k + 1
            a.transitions += 1
            a.validated += 1
            if msg:
                a.bad(["p", n, m], msg)
        a.sample("integer_partitions(%d, m), m from %d to %d" % (n, ms[0], ms[-1]))
        return
    if job[0] == "all":
        # many arguments in one process, in different orders: nothing may be remembered under too small a key
        for n, m in order(job[1], job[2]):
            msg, k = check_part(w, n, m)
            a.states += 1
            a.transitions += 1
            a.validated += 1
            a.count("arguments after each other")
            if msg:
                a.bad(["all", job[1], job[2], n, m], msg + " (after other arguments)")
        return
    for lst in lists(job):
        for r in (False, True):
            case = ["s", lst, r]
            vc.crumb(json.dumps(case))
            m = check_sort(w, lst, r)
            a.states += 1
            a.transitions += 1
            a.validated += 1
            if m:
                a.bad(case, m)
    a.sample("index lists %s" % job)


def replay(case):
    import wicked as w
    w.reset_space()
    for s in W:
        w.add_space(*s)
    if case[0] == "p":
        return check_part(w, case[1], case[2])[0]
    if case[0] == "all":
        for n, m in order(case[1], case[2]):
            msg = check_part(w, n, m)[0]
            if msg:
                return msg
        return None
    return check_sort(w, [tuple(x) for x in case[1]], case[2])
