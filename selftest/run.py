#!/usr/bin/env python3
"""Self-test of the checkers: runs them on scratch copies of the repository with one
edit applied.  selftest/cases.py lists edits that break a property (the named checks
must report it) and edits that do not (every named check must stay quiet).

usage: run.py [case-substring ...]
"""
import concurrent.futures as cf
import importlib.util
import os
import re
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
REPO = "/repo"


def load():
    spec = importlib.util.spec_from_file_location("cases", os.path.join(HERE, "cases.py"))
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    return m.CASES


def all_props():
    import json
    return [c["property"] for c in json.load(open(os.path.join(ROOT, "MANIFEST.json")))["checks"]]


def run(case):
    name, edits, expect = case
    tmp = tempfile.mkdtemp(prefix="selftest.")
    out = []
    try:
        repo = os.path.join(tmp, "repo")
        os.mkdir(repo)
        p = subprocess.Popen(["git", "-C", REPO, "ls-files", "-z"], stdout=subprocess.PIPE)
        subprocess.run(["cpio", "-0pdm", "--quiet", repo], stdin=p.stdout, cwd=REPO, check=True) if shutil.which("cpio") else \
            subprocess.run("git ls-files -z | xargs -0 cp --parents -t %s" % repo, shell=True, cwd=REPO, check=True)
        files = set()
        for f, old, new in edits:
            q = os.path.join(repo, f)
            s = open(q).read()
            if s.count(old) < 1:
                return name, ["edit does not apply: %s: %r" % (f, old[:60])]
            s = s.replace(old, new) if new is not None else s
            open(q, "w").write(s)
            files.add(f)
        tus = [f for f in files if f.endswith(".cpp")] or ["src/server.cpp", "src/memcache/sockets.cpp", "src/counter/sockets.cpp"]
        for t in tus:
            c = subprocess.run(["g++", "-std=gnu++17", "-I.", "-DCACHELINE_SIZE=64", "-DUSE_TCMALLOC", "-fsyntax-only", t], cwd=repo,
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if c.returncode:
                return name, ["does not compile: " + c.stdout[:600]]
        quiet = expect.get("quiet")
        props = list(expect.get("catch", []))
        if quiet == "all":
            props = all_props()
        elif quiet:
            props += [q for q in quiet]
        if os.environ.get("PROPS"):
            props = [q for q in props if re.search(os.environ["PROPS"], q)]
        if not props:
            return name, []
        env = dict(os.environ, VERIF_REPO=repo, VERIF_EVIDENCE=tmp, VERIF_SERIAL="1")
        r = subprocess.run([sys.executable, os.path.join(ROOT, "sa", "check.py")] + props + ["none"], env=env,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        lines = []
        seen = set()
        for l in r.stdout.splitlines():
            e = re.match(r"EXIT (\S+) (\d+)$", l)
            if not e:
                if l and not l.startswith(" "):
                    lines.append(l)
                continue
            pid, rc = e.group(1), int(e.group(2))
            seen.add(pid)
            want = 1 if pid in expect.get("catch", []) else 0
            if pid == "none":
                pass
            elif rc != want:
                out.append("%s: exit %d, expected %d\n      %s" % (pid, rc, want, "\n      ".join(x[:250] for x in lines[:6])))
            elif os.environ.get("V"):
                out.append("ok %s: %s" % (pid, "\n      ".join(x[:200] for x in lines[:4])))
            lines = []
        if set(props) - seen:
            out.append("no answer: " + " ".join(lines[-5:])[:600])
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return name, out


def main():
    cases = [c for c in load() if len(sys.argv) < 2 or any(re.search(a, c[0]) for a in sys.argv[1:])]
    bad = 0
    with cf.ThreadPoolExecutor(8) as ex:
        for name, out in ex.map(run, cases):
            b = [o for o in out if not o.startswith("ok ")]
            bad += bool(b)
            print("%s %s" % ("FAIL" if b else "pass", name))
            for o in out:
                print("   " + o)
            sys.stdout.flush()
    print("%d cases, %d failed" % (len(cases), bad))
    return bad != 0


sys.exit(main())
