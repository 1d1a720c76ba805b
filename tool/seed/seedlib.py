# Helper to plant a bug: makes seeded/<id>/ from a change and a demonstration
# after confirming that the change builds, passes the tests and shows in the demo.
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
ENV = dict(os.environ, HOME="/root", GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="")
DEMO = """#!/bin/bash
# cwd: the repository; exits 0 if the property holds here
here=$(cd "$(dirname "$0")" && pwd); repo=$PWD
export HOME=${HOME:-/root} GOTOOLCHAIN=local GOPROXY=off GOFLAGS= PATH=/usr/local/bin:/usr/bin:/bin:$PATH
t=$(mktemp -d) || exit 3
trap 'rm -rf "$t"' EXIT
printf 'go 1.22.2\\nuse (\\n\\t%s\\n\\t%s/bencode\\n)\\n' "$repo" "$repo" > "$t/go.work"
export GOWORK=$t/go.work TMPDIR=$t
printf '{"Replace": {"%s/PKG/zz_demo_test.go": "%s/demo_test.go"}}' "$repo" "$here" > "$t/overlay.json"
go test -vet=off -count=1 RACE-timeout 250s -overlay "$t/overlay.json" -run '^TestDemo' ./PKG
"""

def sh(cmd, cwd, env=ENV, ok=True, quiet=True):
    p = subprocess.run(cmd, cwd=cwd, env=env, shell=True, text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if ok and p.returncode:
        sys.exit("failed: %s\n%s" % (cmd, p.stdout[-3000:]))
    return p.returncode, p.stdout

def copy():
    d = tempfile.mkdtemp(prefix="seed.", dir="/tmp")
    sh("git -C /repo worktree prune; git clone -q /repo %s/r" % d, "/")
    open(d + "/go.work", "w").write("go 1.22.2\nuse (\n\t%s/r\n\t%s/r/bencode\n)\n" % (d, d))
    return d

def confirm(d, sid):
    """the change in d/r passes the tests and fails the demo; the clean tree passes the demo"""
    env = dict(ENV, GOWORK=d + "/go.work")
    sh("go build ./... ./bencode/...", d + "/r", env)
    sh("go test -vet=off -count=1 ./... ./bencode/...", d + "/r", env)
    rc, out = sh("bash %s/seeded/%s/demo.sh" % (V, sid), d + "/r", ok=False)
    if rc == 0:
        sys.exit("%s: the demo passes with the change" % sid)
    if "FAIL" not in out and "panic" not in out or "build failed" in out:
        sys.exit("%s: demo broken\n%s" % (sid, out[-3000:]))
    print(out[-600:])
    sh("git checkout -q -- .", d + "/r")
    rc, out = sh("bash %s/seeded/%s/demo.sh" % (V, sid), d + "/r", ok=False)
    if rc:
        sys.exit("%s: the demo fails on the unchanged tree\n%s" % (sid, out[-3000:]))

def seed(sid, prop, changes, pkg, demo, needs, breaks, race=False, check=True, flags=""):
    d = copy()
    try:
        for f, pairs in changes.items():
            p = d + "/r/" + f
            s = open(p).read()
            for a, b in pairs:
                if s.count(a) != 1:
                    sys.exit("%s: %d times: %s" % (sid, s.count(a), a))
                s = s.replace(a, b)
            open(p, "w").write(s)
        rc, out = sh("gofmt -l .", d + "/r")
        if out.strip():
            print("not formatted:", out)
        _, diff = sh("git diff", d + "/r")
        o = V + "/seeded/" + sid
        os.makedirs(o, exist_ok=True)
        open(o + "/patch.diff", "w").write(diff)
        open(o + "/demo_test.go", "w").write(demo)
        open(o + "/demo.sh", "w").write(DEMO.replace("PKG", pkg).replace("RACE", "-race " if race else ""))
        json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(o + "/meta.json", "w"), indent=1)
        confirm(d, sid)
        print(sid, "confirmed")
        if check:
            detect(sid, d, flags)
    finally:
        shutil.rmtree(d)

def detect(sid, d=None, flags="", prop=None):
    own = d is None
    if own:
        d = copy()
    try:
        o = V + "/seeded/" + sid
        prop = prop or json.load(open(o + "/meta.json"))["property"]
        sh("git checkout -q -- . && git apply %s/patch.diff" % o, d + "/r")
        rc, out = sh("./check %s quick %s" % (prop, flags), V, dict(os.environ, VERIF_REPO=d + "/r"), ok=False)
        print("%s %s: rc=%d %s" % (sid, prop, rc, [l for l in out.splitlines() if "VIOLATION" in l][:1]))
        if rc != 1:
            print(out[-1500:])
        else:
            print("\n".join(out.splitlines()[:12])[:1500])
        return rc
    finally:
        if own:
            shutil.rmtree(d)

if __name__ == "__main__":
    ids = sys.argv[1:] or sorted(os.listdir(V + "/seeded"))
    for i in ids:
        detect(i)
