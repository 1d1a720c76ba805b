#!/usr/bin/env python3
"""Mutation campaign: plants every change of a list alone in a copy of /repo and
runs the checks of the properties it should break (then, if they stay quiet, the
others of the same part). Usage: run.py LIST.py OUT.txt [id...]"""
import sys, os, subprocess, shutil, runpy, time
LIST, OUT = sys.argv[1], sys.argv[2]
only = set(sys.argv[3:])
W = os.environ.get("MUTW", "/tmp/mutw")
muts = runpy.run_path(LIST)["MUTS"]
env = dict(os.environ, VERIF_REPO=W, GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="")
SW = ["C%d" % i for i in range(24, 36)]
def check(c):
    t = time.time()
    p = subprocess.run(["nice", "-n", "5", os.environ.get("MUTV", "/verif") + "/check", c, "quick"], env=env, capture_output=True, text=True)
    o = p.stdout + p.stderr
    line = ""
    ls = o.splitlines()
    for i, l in enumerate(ls):
        if l.startswith("VIOLATION"):
            line = ls[i + 1].strip() if i + 1 < len(ls) else l
            break
    return p.returncode, line[:170], time.time() - t
out = open(OUT, "a")
def say(s):
    print(s, flush=True); out.write(s + "\n"); out.flush()
for m in muts:
    mid, props, file = m[0], m[1].split(), m[2]
    if only and mid not in only:
        continue
    shutil.rmtree(W, ignore_errors=True)
    subprocess.run(["git", "clone", "-q", os.environ.get("MUTBASE", "/repo"), W], check=True)
    ok = True
    edits = m[3:]
    for old, new in zip(edits[::2], edits[1::2]):
        f = file
        if isinstance(old, tuple):
            f, old = old
        p = os.path.join(W, f)
        s = open(p).read()
        if s.count(old) != 1:
            say(f"{mid}: BAD EDIT {s.count(old)} x {old[:50]!r}"); ok = False; break
        open(p, "w").write(s.replace(old, new))
    if not ok:
        continue
    caught = None
    tried = []
    for c in props:
        rc, line, t = check(c)
        tried.append(c)
        if rc == 1:
            caught = f"{c} ({t:.0f}s) {line}"; break
        if rc != 0:
            caught = f"{c} rc={rc} (build?)"; break
    flag = "MISSED" if caught is None else ("caught" if caught.startswith(props[0]) else "OTHER ")
    say(f"{flag} {mid} [{' '.join(props)}] {caught or ''}")
shutil.rmtree(W, ignore_errors=True)
