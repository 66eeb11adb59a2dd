#!/usr/bin/env python3
"""mkseed.py DEFS.py [ID...]: turn seed definitions into /verif/seeded/<ID>/ after confirming each of them.

DEFS.py defines SEEDS = {id: dict(prop, needs, breaks, edits=[(file, old, new)], demo="python source")}.
Works in a scratch copy of /repo under /tmp/seed (rm -rf it afterwards)."""
import importlib.util, json, os, re, shutil, subprocess, sys
S = "/tmp/seed"
R = S + "/repo"
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def sh(c, **k):
    return subprocess.run(c, shell=True, capture_output=True, text=True, **k)


def setup():
    os.makedirs(S, exist_ok=True)
    head = sh("git -C /repo rev-parse HEAD").stdout.strip()
    if not os.path.exists(R) or sh("git -C %s rev-parse HEAD" % R).stdout.strip() != head:
        shutil.rmtree(R, ignore_errors=True)
        sh("cp -a /repo %s; rm -rf %s/_build" % (R, R))
    sh("git -C %s checkout -q -- ." % R)
    for f in ("build.sh", "test.sh"):
        t = open("/opt/vp/" + f).read().replace("/repo", R).replace("/opt/vp/build.sh", S + "/build.sh")
        open(S + "/" + f, "w").write(t)


DEMO = """#!/bin/bash
# run with cwd = the repository, after the build
PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" exec timeout 250 python3 "$(dirname "$0")/demo.py"
"""


def demo(d, cwd):
    return sh("bash %s/demo.sh" % d, cwd=cwd, timeout=300)


def main():
    spec = importlib.util.spec_from_file_location("defs", sys.argv[1])
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    ids = sys.argv[2:] or list(m.SEEDS)
    setup()
    base = set(json.load(open("/opt/vp/BASELINE.json")).get("passed", [])) if False else None
    for i in ids:
        s = m.SEEDS[i]
        sh("git -C %s checkout -q -- ." % R)
        for f, old, new in s["edits"]:
            t = open(R + "/" + f).read()
            assert t.count(old) >= 1, (i, f, old)
            if t.count(old) > 1:
                print("warning: %s: %d occurrences in %s" % (i, t.count(old), f))
            open(R + "/" + f, "w").write(t.replace(old, new, 1))
        d = "/tmp/seed/out/" + i
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        open(d + "/patch.diff", "w").write(sh("git -C %s diff" % R).stdout)
        open(d + "/demo.sh", "w").write(s.get("sh", DEMO))
        if "demo" in s:
            open(d + "/demo.py", "w").write(s["demo"].lstrip("\n"))
        for n, t in s.get("files", {}).items():
            open(d + "/" + n, "w").write(t)
        json.dump(dict(property=s["prop"], needs=s["needs"], what_it_breaks=s["breaks"]), open(d + "/meta.json", "w"), indent=1)
        c = demo(d, "/repo")
        if c.returncode:
            print(i, "REJECTED: demo fails on the clean tree\n", c.stdout[-1500:], c.stderr[-1500:]); continue
        b = sh("bash %s/build.sh" % S)
        if b.returncode:
            print(i, "REJECTED: does not build\n", (b.stdout + b.stderr)[-1500:]); continue
        c = demo(d, R)
        if c.returncode == 0:
            print(i, "REJECTED: demo passes with the change"); continue
        t = sh("bash %s/test.sh %s/t.json" % (S, S))
        r = json.load(open(S + "/t.json"))
        if len(r["passed"]) < 78:
            print(i, "REJECTED: tests fail:", r["failed"][:5]); continue
        shutil.rmtree(V + "/seeded/" + i, ignore_errors=True)
        shutil.copytree(d, V + "/seeded/" + i)
        print(i, "ok (%s): %s" % (s["prop"], (c.stdout + c.stderr).strip().split("\n")[-1][:150]), flush=True)
    sh("git -C %s checkout -q -- ." % R)


main()
