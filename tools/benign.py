#!/usr/bin/env python3
"""Behaviour-preserving edits: every check must stay quiet on them.  benign.py [name ...] [-c C05,C08]"""
import os, shutil, subprocess, sys, tempfile, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
from benign_edits import EDITS


def tree(name):
    d = tempfile.mkdtemp(prefix="benign-", dir="/tmp")
    subprocess.check_call(["cp", "-a", "/repo", d + "/r"])
    for f, old, new in EDITS[name][1]:
        p = os.path.join(d, "r", f)
        s = open(p).read()
        assert s.count(old) == 1, (name, f, s.count(old), old[:60])
        open(p, "w").write(s.replace(old, new))
    return d


def main():
    a = sys.argv[1:]
    checks = None
    if "-c" in a:
        i = a.index("-c")
        checks = a[i + 1].split(",")
        a = a[:i] + a[i + 2:]
    test = "-t" in a
    a = [x for x in a if x != "-t"]
    for name in a or EDITS:
        d = tree(name)
        try:
            if test:
                r = subprocess.run("cd %s/r && cargo test --workspace --offline 2>&1 | grep -E '^error|test result: FAILED|panicked' | grep -v smdiff-vcdiff | head -5" % d, shell=True, capture_output=True, text=True)
                print(name, "tests:", r.stdout.strip() or "ok")
            for c in checks or EDITS[name][0]:
                t = time.time()
                r = subprocess.run([sys.executable, V + "/check.py", c], env=dict(os.environ, SMDIFF_REPO=d + "/r"), capture_output=True, text=True)
                v = [l for l in r.stdout.splitlines() if l.startswith("  violated")]
                u = [l for l in r.stdout.splitlines() if l.startswith("  undecided")]
                print("%s %s: exit %d, %d violated, %d undecided, %.0f s" % (name, c, r.returncode, len(v), len(u), time.time() - t), flush=True)
                for l in v[:4] + u[:3]:
                    print("   ", l[:int(os.environ.get("WIDTH", "230"))])
                if r.returncode not in (0, 1) or r.stderr.strip():
                    print("    stderr:", r.stderr[-400:])
        finally:
            shutil.rmtree(d)


main()
