"""Runs one scenario under the controlled scheduler (this interpreter has libsched preloaded).
argv: module root, JSON request; prints one JSON line on the original stdout."""
import ctypes, json, os, sys
root, req = sys.argv[1], json.loads(sys.argv[2])
sys.dont_write_bytecode = True
sys.path[:0] = [root, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib")]
out = os.dup(1)
dn = os.open(os.devnull, os.O_WRONLY)
os.dup2(dn, 1)
import wicked as w
import common as C
L = ctypes.PyDLL(os.environ["LD_PRELOAD"], mode=ctypes.RTLD_GLOBAL)
L.sc_error.restype = ctypes.c_char_p
L.sc_begin.argtypes = [ctypes.c_uint64]
L.sc_total_steps.restype = L.sc_total_acc.restype = L.sc_max_threads.restype = ctypes.c_uint64
L.sc_init(out)


def emit(d):
    os.write(out, (json.dumps(d) + "\n").encode())


C.spaces(w, req["cfg"])
labs = C.labels(req["cfg"])
ops = [(o[0], tuple(o[1]), tuple(o[2])) for o in req["ops"]]
n = sum(C.nlines(o[1:]) for o in ops)
lo, hi = req.get("win") or (0, n)
canon = req.get("canon", True)
P = C.make_product(w, labs, ops)
Q = w.op("Z", [labs[0] + "+ " + labs[-1]]) @ w.op("Y", [labs[-1] + "+ " + labs[0]])
want = wantQ = None
nrep = req.get("rep", 1)
fault = req.get("fault", 0)
stats = dict(schedules=0, redundant=0, deadline=False, creates=0)


def once(prefix=None, mode=0):
    global want, wantQ
    e = C.engine(w, canon, False)
    if prefix is not None:
        L.sc_set_prefix((ctypes.c_int * len(prefix))(*prefix), len(prefix))
    res, exc = [], None
    L.sc_begin(fault)
    try:
        for _ in range(nrep):
            r = e.contract(P, lo, hi)
            res.append(r)
    except Exception as x:
        exc = x
    bad = L.sc_end()
    stats["creates"] = max(stats["creates"], L.sc_creates())
    stats["schedules"] += 1
    stats["redundant"] += L.sc_redundant()
    if bad:
        return L.sc_error().decode()
    if exc is not None:
        if not L.sc_failed_create():
            return "the call raised %s: %s" % (type(exc).__name__, exc)
        stats["reported"] = stats.get("reported", 0) + 1
    if want is None:
        # first run in this process: nothing has been initialised by an earlier contraction
        want = str(C.engine(w, canon, True).contract(P, lo, hi))
        wantQ = str(C.engine(w, canon, True).contract(Q, 0, 4))
    for r in res:
        if str(r) != want:
            return "result differs from the single-threaded one:\n%s\ninstead of\n%s" % (r, want)
    if exc is None and L.sc_failed_create():
        stats["survived"] = stats.get("survived", 0) + 1
    if req.get("after"):
        # later contractions with the same engine are unaffected
        e.set_single_threaded(True)
        if str(e.contract(P, lo, hi)) != want or str(e.contract(Q, 0, 4)) != wantQ:
            return "a later contraction with the same engine gives a different result"
    return None


def trace():
    m = L.sc_nsteps()
    a = (ctypes.c_int * m)()
    L.sc_trace(a, m)
    return list(a)


def desc():
    b = ctypes.create_string_buffer(20000)
    L.sc_describe(b, 20000)
    return b.value.decode()


def fail(msg):
    emit(dict(violation=msg, schedule=trace(), steps=desc()[:6000], **stats))
    os._exit(0)


L.sc_reset(1)
for i in range(2):  # the second run starts from the state every later run starts from
    m = once([] if i or "schedule" not in req else req["schedule"])
    if m and not m.startswith("TOOL"):
        fail(m)
if "schedule" in req:
    L.sc_reset(1)
    m = once(req["schedule"])
    if m:
        fail(m)
    emit(dict(ok=True, **stats))
    os._exit(0)

if req["mode"] == "dpor":
    L.sc_reset(0)
    cap = req.get("cap", 10 ** 9)
    while True:
        m = once()
        if m:
            fail(m)
        if stats["schedules"] >= cap:
            stats["deadline"] = True
            break
        if not L.sc_next():
            break
else:
    L.sc_reset(1)
    # all schedules with at most `delays` deviations from the default scheduler; the first deviation point may be restricted to a residue class
    k0, nk = req.get("part", [0, 1])
    cap = req.get("cap", 10 ** 9)
    stack = [([], req["delays"], True)]
    while stack:
        pre, left, top = stack.pop()
        m = once(pre)
        if m:
            fail(m)
        if stats["schedules"] >= cap:
            stats["deadline"] = True
            break
        if left:
            t = trace()
            for d in range(len(pre), len(t)):
                if top and d % nk != k0:
                    continue
                en = L.sc_enabled(d)
                for q in range(32):
                    if en >> q & 1 and q != t[d]:
                        stack.append((t[:d] + [q], left - 1, False))
emit(dict(ok=True, steps_total=L.sc_total_steps(), accesses=L.sc_total_acc(), max_threads=L.sc_max_threads(), sample=desc()[:600], **stats))
os._exit(0)
