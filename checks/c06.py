"""C06: all interleavings of the worker threads of a multi-threaded contraction, on the real code under a controlled scheduler."""
import itertools, json, os, subprocess, sys
import build, vc
import common as C

ID = "C06"
LEVEL = "model_checking"
TECHNIQUE = ("stateless model checking of the real code: dynamic partial-order reduction with sleep sets under a controlled scheduler with a "
             "happens-before race detector, deviation-bounded exhaustive schedules for many threads, exhaustive refusal of thread creations")
RULE = ("the real library, instrumented at every memory access, runs under a scheduler that serialises threads and takes every scheduling decision at "
        "synchronisation operations (thread start/create/join, mutex, rwlock, condition variable, atomic, futex, once); for every scenario with few "
        "workers all schedules up to equivalence are executed (DPOR + sleep sets), for more workers all schedules with a bounded number of deviations from "
        "the default order; for every set of refused thread creations of the form {i} or {i, i+1, ...} the same again; every run is checked for conflicting accesses "
        "not ordered by happens-before, deadlock, crash, a result different from the single-threaded one, and later contractions with the same engine")
ASSUME = ["weak-memory effects of relaxed atomics are not modelled (the code has no atomics of its own); accesses inside the C++ runtime library are seen only "
          "where templates are instantiated in the library's own objects", "thread counts and deviation bounds as listed in the evidence"]
NEED_MODULE = False
JOB_TIMEOUT = 700
BUDGET_QUICK = 500
FLAGS = ("-O1", "-fsanitize=thread", "-D_GLIBCXX_EXTERN_TEMPLATE=0")
LINK = ("-Wl,-Bsymbolic-functions",) + tuple("-Wl,--wrap=" + f for f in ("memcpy", "memmove", "memset", "memcmp", "strlen"))
G = {}


def prepare(tier):
    G["root"] = build.build_module(FLAGS, "conc", False, LINK)
    G["so"] = build.build_sched()


def drive(req, timeout=600):
    p = subprocess.run([build.PY, os.path.join(build.VERIF, "conc", "driver.py"), G["root"], json.dumps(req)],
                       env=dict(os.environ, LD_PRELOAD=G["so"]), capture_output=True, text=True, timeout=timeout)
    lines = p.stdout.strip().splitlines()
    if p.returncode == 0 and lines and lines[-1].startswith("{"):
        return json.loads(lines[-1])
    msg = "\n".join(l for l in lines if l.startswith("FATAL"))
    sch = [l[9:] for l in lines if l.startswith("SCHEDULE")]
    if not msg:
        msg = "the process ended with status %d: %s %s" % (p.returncode, p.stdout[-800:], p.stderr[-800:])
    try:
        s = [int(x) for x in sch[-1].split()] if sch else []
    except ValueError:
        s = []
    return dict(violation=msg, schedule=s, schedules=1)


def scenarios(tier):
    th = tier == "thorough"
    out = []
    for cfg, mx, tot in (("ov", 4, 8 if th else 6), ("g", 3, 6), ("og", 2, 5 if th else 4), ("cav", 2, 4)):
        U = C.comps_upto(len(C.CFG[cfg]), mx)
        for k, (a, b) in enumerate(itertools.product(U, repeat=2)):
            n = C.nlines(a) + C.nlines(b)
            if 2 <= n <= tot and (th or n <= (4 if cfg == "ov" else 3) or (a[0] == b[1] and a[1] == b[0])):
                out.append(dict(cfg=cfg, ops=[("AB"[0],) + a, ("AAB"[k % 3],) + b]))
    X = lambda *q: tuple(q)
    H2, T1, T2, L1, L2, F1 = ((1, 1), (1, 1)), ((0, 1), (1, 0)), ((0, 2), (2, 0)), ((1, 0), (0, 1)), ((2, 0), (0, 2)), ((1, 1), (1, 1))
    for ops in ([("L",) + L1, ("T",) + T1], [("L",) + L2, ("T",) + T2], [("L",) + L1, ("F", (1, 0), (1, 0)), ("T",) + T1], [("L",) + L1, ("F", (0, 1), (0, 1)), ("T",) + T1],
                [("H",) + L2, ("T",) + T1, ("T",) + T1], [("H",) + L2, ("T",) + T2], [("L",) + L1, ("H",) + H2, ("T",) + T1],
                [("H",) + H2, ("T",) + T1], [("H",) + H2, ("T",) + T2], [("H",) + L2, ("T",) + T1, ("T",) + T2]):
        for w in (None, (0, 0), (2, 2), (0, 4)):
            out.append(dict(cfg="ov", ops=ops, win=w))
    g1, g2 = ((1,), (1,)), ((2,), (2,))
    for ops in ([("A",) + g1, ("B",) + g1], [("A",) + g1, ("A",) + g2], [("A",) + g2, ("B",) + g2], [("A",) + g1, ("B",) + g1, ("C",) + g1]):
        for w in (None, (0, 0), (2, 4)):
            out.append(dict(cfg="g", ops=ops, win=w))
    k = 0
    for s in out:
        k += 1
        s["canon"] = k % 2 == 0
        s["rep"] = 1
        s["after"] = True
    # two contractions in a row with the same engine
    out += [dict(s, rep=2) for s in out[::9 if not th else 3]]
    return out


def jobs(tier):
    sc = scenarios(tier)
    n = 160 if tier == "quick" else 400
    return [[tier, sc[i::n]] for i in range(n) if sc[i::n]]


def run(job, acc):
    tier, scs = job
    th = tier == "thorough"
    full, cap = (6, 20000) if th else (5, 1200)
    for s in scs:
        vc.crumb(json.dumps(s))

        def go(**kw):
            r = dict(s, **kw)
            d = drive(r)
            acc.states += d.get("schedules", 0)
            acc.transitions += d.get("steps_total", 0)
            acc.validated += d.get("schedules", 0) - d.get("redundant", 0)
            for k in ("redundant", "accesses", "reported", "survived"):
                acc.count("runs_" + k if k in ("redundant", "reported", "survived") else k, d.get(k, 0))
            if d.get("deadline"):
                acc.count("scenarios_capped")
            if "violation" in d and d["violation"].startswith(("TOOL", "FATAL TOOL")):
                if "too many threads" in d["violation"]:
                    acc.count("scenarios_with_more_threads_than_the_bound")
                    return None
                # the scheduler could not reproduce a schedule prefix: nothing is concluded from the rest of this scenario
                acc.count("scenarios_not_replayable")
                acc.count("unfinished")
                return None
            if "violation" in d:
                acc.bad(dict(r, schedule=d["schedule"]), d["violation"] + ("\nschedule: " + d["steps"] if d.get("steps") else ""))
                return None
            return d

        d = go(mode="delay", delays=0)
        if d is None:
            continue
        nw = d["creates"]
        acc.count("scenarios_with_%s_workers" % (nw if nw < 8 else "8_or_more"))
        if nw < 2:
            if nw == 1:
                go(mode="delay", delays=0, fault=1)
            continue
        big = s["rep"] > 1
        if nw <= (full if not big else full // 2):
            d2 = go(mode="dpor", cap=cap)
            if d2 and d2.get("deadline"):
                go(mode="delay", delays=1, cap=cap)
        elif nw <= (18 if th else 9):
            go(mode="delay", delays=2 if th and nw <= 8 else 1, cap=cap)
        if d and nw <= (18 if th else 9) and not big:
            for i in range(nw):
                for mask in {1 << i, ((1 << nw) - 1) & ~((1 << i) - 1)}:
                    if nw <= 4:
                        go(mode="dpor", cap=cap // 4, fault=mask)
                    else:
                        go(mode="delay", delays=1 if nw <= 6 or th else 0, cap=cap // 4, fault=mask)
                    acc.count("fault_sets")
        acc.sample(dict(s, workers=nw, schedule=(d2 if nw <= full and not big and d2 else d).get("sample", "")[:300]))


def replay(case):
    d = drive(case)
    if d.get("violation", "TOOL").startswith(("TOOL", "FATAL TOOL")):
        return None
    return d.get("violation") and d["violation"] + ("\nschedule: " + d["steps"] if d.get("steps") else "")
