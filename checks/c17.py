"""C17: the orbital-space registry is consistent and rejects bad definitions atomically."""
import itertools, json
import vc

ID = "C17"
LEVEL = "model_checking"
TECHNIQUE = "explicit-state exploration of every sequence of registry operations on the real registry against a list model"
RULE = ("every sequence of registry operations (reset, accepted and rejected definitions of every kind) up to the depth bound is executed on the real registry; after every step the "
        "complete observable registry (number, labels, index names, dictionary, text, lookups in both directions, field and kind of each space, fallback index names, errors outside the range) "
        "is compared with a model that keeps the list of accepted definitions")
ASSUME = ["operation alphabet and depth as listed in the evidence", "space labels are ASCII characters"]

F, B = "fermion", "boson"
O, U, G = "occupied", "unoccupied", "general"
# (label, field, kind, index names, elementary spaces)
ACT = [
    ("reset",),
    ("o", F, O, ["i", "j", "k"], []),
    ("v", F, U, ["a", "b"], []),
    ("a", F, G, ["u", "v"], []),
    ("B", B, U, ["p"], []),
    ("o", F, G, ["x"], []),                     # label may be taken
    ("x", F, O, ["x", "i"], []),                # index name i may be taken
    ("x", F, U, ["y", "z", "y"], []),           # name repeated in the list: always rejected
    ("y", F, O, [], ["o", "v"]),                # composite: rejected unless o and v exist
    ("z", "Fermion", O, ["q"], []),             # unknown field
    ("z", F, "virtual", ["q"], []),             # unknown kind
    ("z", F, G, ["q"], ["w"]),                  # unknown elementary space
    ("w", B, G, ["q", "r", "s", "t"], ["o"]),
    ("i", F, G, ["o", "B", "i'"], []),
]
QUICK5 = [0, 1, 2, 4, 5, 6, 8]
QUICK = [0, 1, 2, 4, 5, 6, 7, 8, 10, 12]


def accepts(m, d):
    lab, f, k, idx, el = d
    used = {i for s in m for i in s[3]}
    labs = {s[0] for s in m}
    return lab not in labs and f in (F, B) and k in (O, U, G) and len(set(idx)) == len(idx) and not used & set(idx) and all(e in labs for e in el)


def observe(w, m):
    n = len(m)
    osi = w.osi()
    if w.num_spaces() != n or osi.num_spaces() != n:
        return "%d spaces are reported instead of %d" % (w.num_spaces(), n)
    if [osi.label(i) for i in range(n)] != [s[0] for s in m]:
        return "the labels are %s" % [osi.label(i) for i in range(n)]
    if [osi.indices(i) for i in range(n)] != [s[3] for s in m]:
        return "the index names are %s" % [osi.indices(i) for i in range(n)]
    if osi.to_dict() != {s[0]: s[3] for s in m}:
        return "the dictionary is %s" % osi.to_dict()
    text = "\n\n".join("space label: %s\nfield type: %s\nspace type: %s\nindices: [%s]" % (s[0], s[1], s[2], ",".join(s[3])) for s in m)
    if str(osi) != text:
        return "the text is %r" % str(osi)
    for i in (-1, n, n + 1, 2 ** 31 - 1, -2 ** 31):
        for f in (osi.label, osi.indices):
            try:
                r = f(i)
            except Exception:
                continue
            return "space %d does not exist but %s gives %r" % (i, f.__name__, r)
    labs = {s[0] for s in m}
    for c in "ovaBxyzwi":
        try:
            i = w.index(c + "7")
        except Exception:
            if c in labs:
                return "the label %s cannot be looked up" % c
            continue
        if c not in labs:
            return "the label %s is found but not registered" % c
        if (i.space(), i.pos()) != ([s[0] for s in m].index(c), 7):
            return "the label %s is found as space %d" % (c, i.space())
    for k, s in enumerate(m):
        if s[0] not in "ovaBxyzwi":
            continue
        q = [w.Index(k, i) for i in range(len(s[3]) + 2)]
        if [i.latex() for i in q] != s[3] + ["%s_{%d}" % (s[0], len(s[3]) + j) for j in range(2)]:
            return "the indices of space %d are named %s" % (k, [i.latex() for i in q])
        if str(q[0]) != s[0] + "0":
            return "an index of space %s prints as %s" % (s[0], q[0])
        c, a = w.SQOperator(w.type.cre, q[0]), w.SQOperator(w.type.ann, q[0])
        if c.field_type() != (w.stat.fermion if s[1] == F else w.stat.boson) or str(c)[0] != ("a" if s[1] == F else "b"):
            return "space %s has the field %s" % (s[0], c.field_type())
        # occupied: annihilation operators are quasi-particle creation operators
        if c.normal_ordered_less(a) != (s[2] != O) or a.normal_ordered_less(c) != (s[2] == O):
            return "space %s has the wrong kind" % s[0]
    # the kind of the general spaces is seen in contractions: density matrices versus deltas
    return None


def contract_kinds(w, m):
    """kind of every fermionic space as seen by Wick's theorem"""
    for k, s in enumerate(m):
        if s[1] != F or len(m) > 6:
            continue
        l = s[0]
        r = w.WickTheorem().contract(w.op("A", [l]) @ w.op("C", [l + "+"]), 0, 0)
        t = str(r)
        if (s[2] == O) != (t == "") or (s[2] == G) != ("eta1" in t):
            return "space %s of kind %s: <a a+> contracts to %r" % (l, s[2], t)
        r = str(w.WickTheorem().contract(w.op("C", [l + "+"]) @ w.op("A", [l]), 0, 0))
        if (s[2] == U) != (r == "") or (s[2] == G) != ("gamma1" in r):
            return "space %s of kind %s: <a+ a> contracts to %r" % (l, s[2], r)
    return None


def step(w, m, d):
    """-> (new model, message)"""
    if d[0] == "reset" and len(d) == 1:
        w.reset_space()
        return [], None
    ok = accepts(m, d)
    try:
        w.add_space(d[0], d[1], d[2], list(d[3]), list(d[4])) if d[4] else w.add_space(d[0], d[1], d[2], list(d[3]))
    except Exception as e:
        return m, "the definition %s is rejected: %s" % (list(d), e) if ok else None
    if not ok:
        return m, "the definition %s is accepted" % list(d)
    return m + [d], None


def run_seq(w, seq, checks):
    w.reset_space()
    m, n = [], 0
    for k, i in enumerate(seq):
        m, msg = step(w, m, ACT[i])
        n += 1
        if not msg and k >= len(seq) - checks:
            msg = observe(w, m)
        if msg:
            return "after %s: %s" % ([list(ACT[j]) for j in seq[:k + 1]], msg), n
    msg = contract_kinds(w, m) if checks else None
    return (msg and "after %s: %s" % ([list(ACT[j]) for j in seq], msg)), n


def run_many(w, n):
    """many spaces: the registry has no bound of its own"""
    w.reset_space()
    labs = [c for c in "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"][:n]
    m = []
    for k, c in enumerate(labs):
        d = (c, (F, B)[k % 5 == 4], (O, U, G)[k % 3], ["%s%d" % (c, j) for j in range(k % 4)], [])
        m, msg = step(w, m, d)
        if msg:
            return msg
    for d in [(labs[0], F, O, ["new"], []), ("1", F, O, ["b0"], []), ("2", F, O, ["new", "new"], [])]:
        m2, msg = step(w, m, d)
        if msg or m2 is not m:
            return msg
    return observe(w, m)


def jobs(tier):
    th = tier == "thorough"
    n = len(ACT)
    out = [["len", 3]]
    A = list(range(n))
    out += [["pre", list(p), A, 2] for p in itertools.product(A, repeat=2)]
    Q = QUICK5
    out += [["pre", list(p), A if th else Q, 3] for p in itertools.product(A if th else Q, repeat=2)]
    if th:
        out += [["pre", list(p), QUICK, 3] for p in itertools.product(QUICK, repeat=3)]
    out += [["many"]]
    return out


def seqs(job):
    if job[0] == "len":
        for k in range(job[1]):
            yield from itertools.product(range(len(ACT)), repeat=k)
    else:
        for t in itertools.product(job[2], repeat=job[3]):
            yield tuple(job[1]) + t


def run(job, a):
    import wicked as w
    if job[0] == "many":
        for n in range(1, 53):
            m = run_many(w, n)
            a.states += 1
            a.transitions += n
            a.validated += 1
            if m:
                a.bad(["many", n], m)
        return
    for seq in seqs(job):
        case = list(seq)
        vc.crumb(json.dumps(case))
        # prefixes are checked as sequences of their own: only the last two steps are observed
        m, n = run_seq(w, seq, 2)
        a.states += 1
        a.transitions += n
        a.validated += 2
        if len(seq) > 3:
            a.sample(" ; ".join(str(ACT[i][0]) for i in seq))
        if m:
            a.bad(case, m)


def replay(case):
    import wicked as w
    if case and case[0] == "many":
        return run_many(w, case[1])
    return run_seq(w, case, len(case))[0]
