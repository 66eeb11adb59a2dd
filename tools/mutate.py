#!/usr/bin/env python3
"""mutate.py list|run [options]: mechanical changes of the sources as a further test of the checks.

list                  print the mutants (id, file, line, change)
run K N [LIMIT]       worker K of N: take every N-th mutant (in shuffled order), build it in a scratch copy under /tmp/mut, run the
                      project's tests, and for those that pass run the checks until one reports a violation; results in /tmp/mut/res-K.jsonl
Scratch only: nothing of this is read by a check."""
import glob, hashlib, json, os, random, re, shutil, subprocess, sys, time

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
ORDER = {  # file -> checks in the order in which they are likely to notice
    "equation": "C19 C27 C18 C24 C20", "expression_normal": "C10 C24", "expression.": "C11 C15 C23 C08 C18 C24 C12 C09", "index": "C15 C08 C25 C24 C23 C21 C19",
    "sqoperator": "C25 C10 C15 C23 C12 C08", "symbolic_term_normal": "C10", "symbolic_term": "C08 C09 C11 C12 C15 C23 C24 C25", "tensor": "C08 C15 C23 C24 C11 C12 C19", "term": "C11 C12 C15 C23 C24 C10",
    "contraction": "C02 C01 C05 C03 C07 C06", "graph_matrix": "C12 C01 C02 C05 C07 C24 C22", "operator_expression": "C04 C22 C13 C11 C12 C14 C24 C23", "operator_product": "C14 C13 C12", "operator.": "C22 C14 C01 C24 C23 C12",
    "wick_theorem_canon": "C05 C01 C02 C26", "wick_theorem": "C01 C02 C05 C03 C04 C07 C06 C24", "combinatorics": "C21 C02", "helpers": "C15 C24 C23 C21", "orbital_space": "C17 C24 C23 C10", "rational": "C16 C15 C23 C24 C19",
    "algebra.hpp": "C11 C04 C13", "product.hpp": "C12 C11 C14", "utils.py": "C20 C27 C22 C15 C24", "api": "C11 C24 C22 C13 C12 C16 C17 C18",
}
RULES = [
    (r"(?<![<>=!\-+*/%&|])<(?![<=>])(?=[^>]*[;)])", "<="), (r"<=", "<"), (r"(?<![<>=!\-])>(?![>=])(?=\s)", ">="), (r"(?<=\s)>=", ">"),
    (r"==", "!="), (r"!=", "=="), (r"\band\b", "or"), (r"\bor\b", "and"), (r"\bnot\(", "("), (r"\bnot (?=\w)", ""), (r"\btrue\b", "false"), (r"\bfalse\b", "true"),
    (r" \+ 1\b", ""), (r" - 1\b", ""), (r" \+ (?=\w)", " - "), (r" - (?=\w)", " + "), (r"\+=", "-="), (r"-=", "+="), (r"\*=", "="), (r" \* (?=\w)", " + "), (r"% 2", "% 3"),
    (r"(?<![\w.])0(?![\w.])", "1"), (r"(?<![\w.])1(?![\w.])", "0"), (r"(?<![\w.])1(?![\w.])", "2"), (r"(?<![\w.])2(?![\w.])", "3"),
    (r"\bupper\(\)", "lower()"), (r"\blower\(\)", "upper()"), (r"\bcre\(", "ann("), (r"\bann\(", "cre("), (r"\bset_cre\(", "set_ann("), (r"\bfirst\b", "second"), (r"\bsecond\b", "first"),
    (r"std::reverse\([^;]*;", ";"), (r"\bmin\(", "max("), (r"\bmax\(", "min("), (r"\bcontinue;", "break;"), (r"\bbreak;", "continue;"), (r"\[i\]", "[j]"), (r"\[j\]", "[i]"), (r"\bi \+ 1", "i"),
    (r"\bOccupied\b", "Unoccupied"), (r"\bUnoccupied\b", "Occupied"), (r"\bCreation\b", "Annihilation"), (r"\bFermion\b", "Boson"), (r"\blhs\b", "rhs"), (r"\brhs\b", "lhs"), (r"\brbegin\b", "begin"), (r"\bsize\(\) - 1", "size()"),
]
PYRULES = [(r"<=", "<"), (r">=", ">"), (r"==", "!="), (r"!=", "=="), (r"\band\b", "or"), (r"\bor\b", "and"), (r"\bnot ", ""), (r"\bTrue\b", "False"), (r"\bFalse\b", "True"), (r"\b0\b", "1"), (r"\b1\b", "0"), (r"upper\(\)", "lower()"), (r"lower\(\)", "upper()"), (r"\brhs\b", "lhs"), (r"\blhs\b", "rhs"), (r"pop\(0\)", "pop()"), (r"\+= ", "= ")]


def mutants():
    out = []
    for f in sorted(glob.glob(REPO + "/wicked/**/*", recursive=True)):
        ext = f.rsplit(".", 1)[-1]
        if ext not in ("cc", "h", "hpp", "py") or f.endswith(("timer.hpp", "__init__.py")):
            continue
        rel = os.path.relpath(f, REPO)
        lines = open(f).read().split("\n")
        doc = False
        skip = dead = False
        for n, l in enumerate(lines):
            s = l.strip()
            if s.startswith("#if USE_BOOST_1024_INT") or s.startswith("#if NEW_CANON"):
                dead = "boost"
            elif s.startswith("#else") and dead:
                dead = True
            elif s.startswith("#endif"):
                dead = False
            if dead is True:
                continue
            if l.startswith(("void print_", "scalar_t SymbolicTerm::simplify")):
                skip = True
            elif l.startswith("}"):
                skip = False
            if skip or (ext in ("h",) and re.search(r"(lhs|rhs)", s) and s.endswith(");")):
                continue
            if ext == "py":
                if s.startswith('"""'):
                    doc = not doc if s.count('"""') == 1 else doc
                    continue
                if doc:
                    continue
            if not s or s.startswith(("//", "#", "/*", "*", "PRINT", "WPRINT", "cout", "std::cout", "import", "from", "std::cout", "using", ".def", "m.def", "///")) or "PRINT" in s or "std::cout" in s or "cout <<" in s:
                continue
            if s.startswith("template") or "operator<<" in s or s.startswith("class ") or re.match(r'^"', s):
                continue
            for pat, rep in (PYRULES if ext == "py" else RULES):
                for m in re.finditer(pat, l):
                    new = l[:m.start()] + rep + l[m.end():]
                    if new != l:
                        out.append((rel, n, l, new))
            # delete a statement
            if ext != "py" and s.endswith(";") and re.match(r"^[\w:.\[\]>()*-]+(\(|\s*[-+*/]?=|\.\w+\()", s) and not re.match(r"^(return|const|auto|int|bool|using|std::\w+<|throw)\b", s) and not lines[n - 1].strip().endswith((",", "(", "=", "<", "+", "&&")):
                out.append((rel, n, l, l[:len(l) - len(l.lstrip())] + ";"))
    seen, r = set(), []
    for m in out:
        if m not in seen:
            seen.add(m)
            r.append(m)
    random.Random(5).shuffle(r)
    return r


def sh(c, **k):
    try:
        return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
    except subprocess.TimeoutExpired as e:
        return subprocess.CompletedProcess(c, 124, "", "timeout")


def run(K, N, limit):
    W = "/tmp/mut/w%d" % K
    R = W + "/repo"
    if not os.path.exists(R):
        os.makedirs(W, exist_ok=True)
        shutil.rmtree(W + "/verif", ignore_errors=True)
        sh("cp -a /repo %s; rm -rf %s/_build" % (R, R))
        os.makedirs(W + "/verif")
        for f in os.listdir(V):
            if f not in (".git", "build", "evidence", "seeded", "__pycache__") and not os.path.exists(W + "/verif/" + f):
                sh("cp -a %s/%s %s/verif/" % (V, f, W))
        t = open("/opt/vp/build.sh").read().replace("/repo", R).replace("-j8", "-j3")
        open(W + "/build.sh", "w").write(t)
    sh("git -C %s checkout -q -- ." % R)
    tests = sorted(glob.glob(R + "/tests/**/test_*.py", recursive=True), key=lambda f: f.endswith("test_cc.py"))
    sh("bash %s/build.sh" % W)
    res = "/tmp/mut/res%s-%d.jsonl" % (os.environ.get("STAGE", ""), K)
    done = set(json.loads(l)["id"] for l in open(res)) if os.path.exists(res) else set()
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONPATH=R, PYTEST_DISABLE_PLUGIN_AUTOLOAD="1")
    cenv = dict(os.environ, VERIF_REPO=R, VERIF_BUILD=W + "/vbuild", VERIF_NPROC="3", VERIF_SEED="1", PYTHONDONTWRITEBYTECODE="1")
    n, n2 = 0, -1
    only = None
    if os.environ.get("ONLY"):  # {id: [checks]}
        only = json.load(open(os.environ["ONLY"]))
    for i, (rel, ln, old, new) in enumerate(mutants()):
        mid = hashlib.sha256(repr((rel, ln, old, new)).encode()).hexdigest()[:10]
        if only is not None:
            if mid not in only:
                continue
            n2 += 1
            if n2 % N != K:
                continue
        elif i % N != K:
            continue
        if limit and n >= limit:
            break
        mid = hashlib.sha256(repr((rel, ln, old, new)).encode()).hexdigest()[:10]
        if mid in done:
            continue
        n += 1
        p = os.path.join(R, rel)
        src = open(p).read()
        lines = src.split("\n")
        assert lines[ln] == old
        lines[ln] = new
        open(p, "w").write("\n".join(lines))
        rec = dict(id=mid, file=rel, line=ln + 1, old=old.strip(), new=new.strip())
        t0 = time.time()
        b = sh("bash %s/build.sh" % W, timeout=600)
        if b.returncode:
            rec["r"] = "nobuild"
        else:
            r = None
            for k in range(0 if only is not None else 1 if os.environ.get("STAGE") == "1" else 2):
                files = [t for t in tests if t.endswith("test_cc.py") == bool(k)]
                r = sh("cd %s/tests && ulimit -v 8000000; timeout -k 5 %d python3 -m pytest -x -q --rootdir=%s -p no:cacheprovider %s" % (R, 240 if k else 60, R, " ".join(files)), env=env, timeout=300)
                if r.returncode:
                    break
            if r is not None and r.returncode:
                rec["r"] = "tests"
            else:
                rec["r"] = "SURVIVED"
                rec["log"] = []
                if os.environ.get("STAGE") == "1":
                    ids = rest = []
                else:
                  key = next((k for k in sorted(ORDER, key=lambda x: -len(x)) if k in (rel if k == "api" else os.path.basename(rel))), None)
                  if "/api/" in rel:
                    key = "api"
                  ids = (ORDER[key] if key else "").split()
                  rest = [c for c in ["C%02d" % x for x in (1, 2, 5, 8, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 3, 4, 7, 26, 27, 9, 6)] if c not in ids]
                if only is not None:
                    ids, rest = only[mid] or ids, []
                for c in ids + rest:
                    r = sh("cd %s/verif && timeout 1500 python3 bin/check %s" % (W, c), env=cenv, timeout=1600)
                    if r.returncode == 1 and "VIOLATION property=" + c in r.stdout:
                        rec["r"] = "caught"
                        rec["by"] = c
                        break
                    if r.returncode != 0:
                        rec["log"].append((c, r.returncode, (r.stdout + r.stderr)[-300:]))
        rec["s"] = round(time.time() - t0)
        open(p, "w").write(src)
        with open(res, "a") as f:
            f.write(json.dumps(rec) + "\n")


if __name__ == "__main__":
    if sys.argv[1] == "list":
        ms = mutants()
        for m in ms:
            print(m[0], m[1] + 1, m[2].strip(), "=>", m[3].strip())
        print(len(ms))
    else:
        run(int(sys.argv[2]), int(sys.argv[3]), int(sys.argv[4]) if len(sys.argv) > 4 else 0)
