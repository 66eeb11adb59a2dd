"""Build the Python module (and helper libraries) from /repo's current working tree."""
import glob, hashlib, os, shutil, subprocess, sys, sysconfig, time

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
PY = "/usr/bin/python3"


class BuildError(Exception):
    pass


def _incs():
    inc = ["-I" + os.path.join(REPO, "wicked"), "-I" + os.path.join(REPO, "wicked", "algebra"),
           "-I" + os.path.join(REPO, "wicked", "diagrams")]
    pinc = subprocess.check_output([PY, "-c", "import sysconfig;print(sysconfig.get_paths()['include'])"], text=True).strip()
    inc.append("-I" + pinc)
    return inc


def sources(api=True):
    out = sorted(set(glob.glob(REPO + "/wicked/**/*.cc", recursive=True)))
    return [s for s in out if api or "/api/" not in s]


def tree_hash(extra=""):
    h = hashlib.sha256(extra.encode())
    for f in sorted(glob.glob(REPO + "/wicked/**/*", recursive=True)):
        if os.path.isfile(f) and f.rsplit(".", 1)[-1] in ("cc", "h", "hpp", "py"):
            h.update(f.encode())
            with open(f, "rb") as g:
                h.update(g.read())
    return h.hexdigest()[:20]


def _run_parallel(cmds, width=None):
    width = width or os.cpu_count() or 4
    pending, running, errs = list(cmds), [], []
    while pending or running:
        while pending and len(running) < width:
            c = pending.pop(0)
            running.append((c, subprocess.Popen(c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
        c, p = running.pop(0)
        out = p.communicate()[0]
        if p.returncode:
            errs.append((c, out))
    return errs


BASE = ["-std=c++20", "-fPIC", "-DUSE_BOOST_1024_INT", "-w"]


def compile_objects(outdir, flags, groups, cxx="g++"):
    """groups: list of lists of source files, each compiled as one unit (falls back to one by one)."""
    os.makedirs(outdir, exist_ok=True)
    inc = _incs()

    def cmds(gr):
        cs, objs = [], []
        for i, g in enumerate(gr):
            if len(g) == 1:
                src = g[0]
            else:
                src = os.path.join(outdir, "unit%d.cc" % i)
                with open(src, "w") as f:
                    for s in g:
                        f.write('#include "%s"\n#undef PRINT\n' % s)
            o = os.path.join(outdir, "unit%d_%d.o" % (len(gr), i))
            objs.append(o)
            cs.append([cxx] + BASE + flags + inc + ["-c", src, "-o", o])
        return cs, objs

    cs, objs = cmds(groups)
    errs = _run_parallel(cs)
    if errs and any(len(g) > 1 for g in groups):
        cs, objs = cmds([[s] for g in groups for s in g])
        errs = _run_parallel(cs)
    if errs:
        raise BuildError("\n".join(" ".join(c) + "\n" + o[-3000:] for c, o in errs[:2]))
    return objs


def build_module(flags=("-O1",), tag="std", link_sanitizer=True, link=()):
    """Returns the directory to put on sys.path; it holds a package 'wicked'."""
    h = tree_hash("module %s %s" % (tag, " ".join(tuple(flags) + tuple(link))))
    root = os.path.join(BUILD, "mod-%s-%s" % (tag, h))
    pkg = os.path.join(root, "wicked")
    if os.path.exists(os.path.join(root, "OK")):
        return root
    for old in glob.glob(os.path.join(BUILD, "mod-%s-*" % tag)):
        shutil.rmtree(old, ignore_errors=True)
    os.makedirs(pkg, exist_ok=True)
    api = [s for s in sources() if "/api/" in s]
    core = sources(api=False)
    groups = [api[i::5] for i in range(5)] + [core[i::3] for i in range(3)]
    groups = [g for g in groups if g]
    objs = compile_objects(os.path.join(root, "obj"), ["-fvisibility=hidden"] + list(flags), groups)
    ext = subprocess.check_output([PY, "-c", "import sysconfig;print(sysconfig.get_config_var('EXT_SUFFIX'))"], text=True).strip()
    so = os.path.join(pkg, "_wicked" + ext)
    r = subprocess.run(["g++", "-shared", "-o", so] + objs + [f for f in flags if link_sanitizer and f.startswith("-fsanitize")] + list(link) + ["-pthread"], capture_output=True, text=True)
    if r.returncode:
        raise BuildError(r.stderr)
    for f in glob.glob(REPO + "/wicked/**/*.py", recursive=True):
        d = os.path.join(root, os.path.relpath(f, REPO))
        os.makedirs(os.path.dirname(d), exist_ok=True)
        shutil.copy(f, d)
    shutil.rmtree(os.path.join(root, "obj"), ignore_errors=True)
    open(os.path.join(root, "OK"), "w").close()
    return root


def build_ref(big=False):
    """the reference models; big: with unbounded integers (used when 128 bits overflow)"""
    return build_lib("ref/wickref.cc", "wickbig" if big else "wickref", ["-DBIGI"] if big else [])


def build_sched():
    return build_lib("conc/sched.cc", "sched", ["-g", "-fno-threadsafe-statics", "-ftls-model=initial-exec", "-ldl", "-pthread"])


def build_lib(path, name, extra=()):
    src = os.path.join(VERIF, path)
    h = hashlib.sha256(open(src, "rb").read()).hexdigest()[:16]
    so = os.path.join(BUILD, "%s-%s.so" % (name, h))
    if not os.path.exists(so):
        os.makedirs(BUILD, exist_ok=True)
        tmp = so + ".%d" % os.getpid()
        r = subprocess.run(["g++", "-O2", "-std=c++20", "-w", "-shared", "-fPIC", src, "-o", tmp] + list(extra), capture_output=True, text=True)
        if r.returncode:
            raise BuildError(r.stderr)
        os.rename(tmp, so)
    return so
