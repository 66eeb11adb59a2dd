"""Exhaustive-exploration harness: job scheduling over forked processes, crash and hang
attribution, replay before report, known findings, evidence."""
import json, mmap, os, pickle, resource, select, signal, struct, sys, time, traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
_crumb = None


def crumb(s):
    """Record the case being executed, so that a crash or hang can be attributed to it."""
    if _crumb is not None:
        b = s.encode()[:65000]
        _crumb.seek(0)
        _crumb.write(struct.pack("I", len(b)) + b)


class Acc:
    """What one job covered."""

    def __init__(self):
        self.states = 0        # distinct configurations / model states visited
        self.transitions = 0   # operations executed on the implementation
        self.validated = 0     # results of the implementation compared with the model
        self.samples = []
        self.viol = []         # (case, message)
        self.extra = {}

    def sample(self, s, cap=2):
        if len(self.samples) < cap:
            self.samples.append(s)

    def bad(self, case, msg, cap=8):
        if len(self.viol) < cap:
            self.viol.append((case, str(msg)[:4000]))

    def count(self, k, n=1):
        self.extra[k] = self.extra.get(k, 0) + n


def _child(fn, arg, memlimit, buf):
    """Run fn(arg) in a forked child; returns (pid, readfd)."""
    r, w = os.pipe()
    sys.stdout.flush(); sys.stderr.flush()
    pid = os.fork()
    if pid:
        os.close(w)
        return pid, r
    code = 0
    try:
        os.close(r)
        global _crumb
        _crumb = buf
        devnull = os.open(os.devnull, os.O_WRONLY)
        os.dup2(devnull, 1)
        os.setpgid(0, 0)
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        if memlimit:
            resource.setrlimit(resource.RLIMIT_AS, (memlimit, memlimit))
        sys.setrecursionlimit(20000)
        try:
            out = ("ok", fn(arg))
        except MemoryError:
            out = ("exc", "MemoryError\n" + traceback.format_exc())
        except BaseException:
            out = ("exc", traceback.format_exc())
        data = pickle.dumps(out)
        with os.fdopen(w, "wb") as f:
            f.write(data)
    except BaseException:
        code = 97
    os._exit(code)


def _newbuf():
    return mmap.mmap(-1, 65536 + 16)


def _readbuf(b):
    b.seek(0)
    n = struct.unpack("I", b.read(4))[0]
    return b.read(n).decode(errors="replace") if n else ""


def run_isolated(fn, arg, timeout, memlimit=6 << 30):
    """-> (kind, value, crumb): kind in ok / exc / died / hang"""
    buf = _newbuf()
    pid, fd = _child(fn, arg, memlimit, buf)
    data, t0, hang = b"", time.time(), False
    while True:
        left = timeout - (time.time() - t0)
        if left <= 0:
            hang = True
            break
        r, _, _ = select.select([fd], [], [], min(left, 5))
        if r:
            d = os.read(fd, 1 << 20)
            if not d:
                break
            data += d
    if hang:
        os.kill(pid, signal.SIGKILL)
    os.close(fd)
    _, st = os.waitpid(pid, 0)
    c = _readbuf(buf)
    buf.close()
    if hang:
        return "hang", "no result within %d s" % timeout, c
    if st != 0 or not data:
        how = ("killed by signal %d" % os.WTERMSIG(st)) if os.WIFSIGNALED(st) else ("exit status %d" % os.WEXITSTATUS(st))
        return "died", how, c
    k, v = pickle.loads(data)
    return k, v, c


def pool(fn, jobs, nproc, timeout, deadline=None, memlimit=6 << 30, on_result=None, stop=None):
    """Fork one child per job, nproc at a time. Yields (job, kind, value, crumb). Jobs not started
    before the deadline are returned as unfinished."""
    pend = list(jobs)
    pend.reverse()
    live = {}
    unfinished = 0
    while pend or live:
        if deadline and time.time() > deadline and pend:
            unfinished += len(pend)
            pend = []
        if stop and stop():
            pend = []
        while pend and len(live) < nproc:
            j = pend.pop()
            b = _newbuf()
            pid, fd = _child(fn, j, memlimit, b)
            live[fd] = [j, pid, b, time.time(), bytearray()]
        if not live:
            break
        r, _, _ = select.select(list(live), [], [], 1.0)
        now = time.time()
        for fd in list(live):
            j, pid, b, t0, data = live[fd]
            done = hang = False
            if fd in r:
                d = os.read(fd, 1 << 20)
                if d:
                    data += d
                else:
                    done = True
            if not done and now - t0 > timeout:
                os.kill(pid, signal.SIGKILL)
                hang = done = True
            if done:
                os.close(fd)
                _, st = os.waitpid(pid, 0)
                c = _readbuf(b)
                b.close()
                del live[fd]
                if hang:
                    on_result(j, "hang", "no result within %d s" % timeout, c)
                elif st != 0 or not data:
                    how = ("killed by signal %d" % os.WTERMSIG(st)) if os.WIFSIGNALED(st) else ("exit status %d" % os.WEXITSTATUS(st))
                    on_result(j, "died", how, c)
                else:
                    k, v = pickle.loads(bytes(data))
                    on_result(j, k, v, c)
    return unfinished


def known_findings(pid):
    out = {}
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("finding:"):
                d = dict(x.split("=", 1) for x in line[8:].split()[:2])
                if d.get("property") == pid:
                    out[d["key"]] = " ".join(line[8:].split()[2:])
    return out


class Runner:
    """check: module with ID, LEVEL, jobs(tier), run(job, acc), replay(case) -> msg or None,
    optional KEY(case) -> known-finding key, ASSUME, RULE, finish(totals)."""

    def __init__(self, mod, tier, seed):
        self.m, self.tier, self.seed = mod, tier, seed
        self.t0 = time.time()

    def write_evidence(self, tot, nviol, unfinished, samples):
        m = self.m
        cov = dict(states=tot["states"], transitions=tot["transitions"],
                   traces_validated_against_impl=tot["validated"], samples=samples[:6] or ["(none)"],
                   rule=m.RULE, exhaustive=(unfinished == 0 and nviol == 0), jobs_not_run=unfinished)
        if m.LEVEL in ("exploration", "fault_enumeration"):
            cov["evaluations"] = tot["transitions"]
            cov["distinct_nontrivial"] = tot["states"]
        cov.update({k: v for k, v in sorted(tot["extra"].items())})
        ev = dict(property=m.ID, tier=self.tier, seed=self.seed, level=m.LEVEL, coverage=cov,
                  assumptions=getattr(m, "ASSUME", []), wall_s=round(time.time() - self.t0, 2), violations=nviol)
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", m.ID + ".json"), "w") as f:
            json.dump(ev, f, indent=1)

    def artefact(self, n, kind, payload, msg):
        d = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, "%s-%d.json" % (self.m.ID, n))
        with open(p, "w") as f:
            json.dump(dict(property=self.m.ID, kind=kind, payload=payload, message=msg,
                           how="python3 bin/check %s --replay %s" % (self.m.ID, os.path.relpath(p, VERIF))), f, indent=1)
        return os.path.relpath(p, VERIF)

    # --- replay -----------------------------------------------------------------------
    def replay_case(self, case, timeout):
        k, v, c = run_isolated(lambda x: self.m.replay(x), case, timeout, getattr(self.m, 'MEMLIMIT', 6 << 30))
        if k == "ok":
            return v
        if k == "exc":
            return "unexpected exception: " + v
        if k == "hang":
            return "does not terminate (%s)" % v
        return "process died (%s)" % v

    def replay_job(self, job, timeout):
        def f(j):
            a = Acc()
            self.m.run(j, a)
            return a.viol
        k, v, c = run_isolated(f, job, timeout, getattr(self.m, 'MEMLIMIT', 6 << 30))
        if k == "ok":
            return v[0][1] if v else None
        if k == "exc":
            return "unexpected exception: " + v
        if k == "hang":
            return "does not terminate (%s)" % v
        return "process died (%s) while running %s" % (v, c)

    def go(self, nproc, job_timeout, budget):
        m = self.m
        tot = dict(states=0, transitions=0, validated=0, extra={})
        samples, cand, err = [], [], []

        def f(j):
            a = Acc()
            m.run(j, a)
            return a

        def res(j, kind, v, c):
            if kind == "ok":
                tot["states"] += v.states
                tot["transitions"] += v.transitions
                tot["validated"] += v.validated
                for k, n in v.extra.items():
                    tot["extra"][k] = tot["extra"].get(k, 0) + n
                if len(samples) < 40:
                    samples.extend(v.samples[:1])
                for case, msg in v.viol:
                    cand.append((case, j, msg))
            elif kind == "exc":
                cand.append((json.loads(c) if c else None, j, "unexpected exception: " + v))
            elif kind == "died":
                cand.append((json.loads(c) if c else None, j, "process died (%s)" % v))
            else:
                cand.append((json.loads(c) if c else None, j, "hang: " + v))

        known = known_findings(m.ID)
        nstop = getattr(m, "STOP_AFTER", 40)
        jobs = m.jobs(self.tier)
        unfinished = pool(f, jobs, nproc, job_timeout, deadline=self.t0 + budget, on_result=res, memlimit=getattr(m, 'MEMLIMIT', 6 << 30),
                          stop=lambda: len(cand) >= nstop + 20 * len(known))
        if hasattr(m, "finish"):
            m.finish(tot, cand)
        # report
        nviol, nknown, seen, unrepro = 0, 0, set(), []
        keyf = getattr(m, "KEY", lambda c: None)
        cand.sort(key=lambda x: len(json.dumps(x[0])) if x[0] is not None else 1 << 30)
        for case, job, msg in cand:
            key = keyf(case) if case is not None else None
            if key is not None and key in known:
                if key not in seen:
                    seen.add(key)
                    print("KNOWN-FINDING: property=%s %s (%s)" % (m.ID, known[key], key))
                nknown += 1
                continue
            if nviol >= 3:
                continue
            r = None
            if case is not None:
                r = self.replay_case(case, job_timeout)
                payload, kind = case, "case"
            if r is None and job is not None:
                r = self.replay_job(job, 2 * job_timeout)
                payload, kind = job, "job"
            if r is None:
                unrepro.append((case, job, msg))
                if len(unrepro) > 5 and nviol == 0:
                    break
                continue
            nviol += 1
            p = self.artefact(nviol, kind, payload, r)
            print("violation %d: %s" % (nviol, json.dumps(payload)[:1500]))
            print("   " + r[:3000].replace("\n", "\n   "))
            print("VIOLATION property=%s replay=%s" % (m.ID, p))
        if tot["extra"].get("unfinished"):
            unfinished += tot["extra"].pop("unfinished")
        self.write_evidence(tot, nviol, unfinished, samples)
        print("%s tier=%s states=%d transitions=%d compared=%d jobs_not_run=%d extra=%s wall=%.1fs" % (
            m.ID, self.tier, tot["states"], tot["transitions"], tot["validated"], unfinished, json.dumps(tot["extra"]), time.time() - self.t0))
        if nviol:
            return 1
        if unrepro:
            print("ERROR: %d failure(s) could not be reproduced in isolation: %r" % (len(unrepro), unrepro[0]))
            return 2
        if tot["states"] == 0:
            print("ERROR: nothing explored")
            return 2
        return 0
