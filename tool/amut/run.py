#!/usr/bin/env python3
"""Automatic mutation campaign: run.py OUT.txt WORKERS FILE... Makes each change
of amut alone in a copy of /repo; those that build and pass the tests are given
to the checks of the file, shortened, until one finds them."""
import sys, os, subprocess, shutil, threading, queue, time
V = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
V = os.environ.get("MUTV", V)
OUT, N, FILES = sys.argv[1], int(sys.argv[2]), sys.argv[3:]
ONLY = os.environ.get("ONLY")
SECS = os.environ.get("SECS", "10")
ST = "C15 C16 C18 C17 C20 C22 C23 C41 C19 C42 C21"
CHECKS = {
    "bencode/decode.go": "C02 C03 C04 C06 C01 C13 C05", "bencode/encode.go": "C01 C08 C12 C13 C05", "bencode/raw_message.go": "C01 C02",
    "api/metainfo/metainfo.go": "C06 C07 C08 C21", "api/tracker/tracker.go": "C12 C13 C36 C33", "api/magnet/magnet.go": "C14",
    "api/peer/peer.go": "C10 C11 C27 C24 C25", "bitfield/bitfield.go": "C09 C31 C35 C15", "future/future.go": "C20",
    "pex/http.go": "C36 C37 C38", "p2p/multitracker.go": "C32 C33 C29",
    "p2p/server.go": "C43 C25 C27 C34 C29 C31 C28 C35 C33 C40 C30 C26 C38 C24 C39",
    "p2p/peer.go": "C43 C25 C30 C26 C28 C27 C24 C35 C40 C29 C33 C39 C38 C31",
    "storage/storage.go": ST, "storage/torrent.go": ST, "storage/lazy_file_reader.go": "C16 C18 C41 C17",
}
ENV = dict(os.environ, GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="", HOME="/root")
done = set()
if os.path.exists(OUT):
    for l in open(OUT):
        w = l.split()
        if len(w) > 2:
            done.add((w[1], w[2]))
q = queue.Queue()
for f in FILES:
    ls = subprocess.run(["/tmp/amut", "/repo/" + f], capture_output=True, text=True).stdout.splitlines()
    for l in ls:
        i, line, what = l.split("\t", 2)
        if (f, i) not in done and (not ONLY or i in ONLY.split(",")):
            q.put((f, i, line, what))
lock = threading.Lock()
def say(s):
    with lock:
        print(s, flush=True)
        open(OUT, "a").write(s + "\n")
def work(k):
    W = "/tmp/amutw%d" % k
    shutil.rmtree(W, ignore_errors=True)
    subprocess.run(["git", "clone", "-q", "/repo", W], check=True)
    open(W + ".work", "w").write("go 1.22.2\nuse (\n\t%s\n\t%s/bencode\n)\n" % (W, W))
    env = dict(ENV, GOWORK=W + ".work")
    while True:
        try:
            f, i, line, what = q.get_nowait()
        except queue.Empty:
            break
        t0 = time.time()
        subprocess.run(["git", "checkout", "-q", "--", "."], cwd=W)
        src = subprocess.run(["/tmp/amut", "/repo/" + f, i], capture_output=True, text=True).stdout
        open(W + "/" + f, "w").write(src)
        where = "%s %s line %s %s" % (f, i, line, what)
        try:
            p = subprocess.run("go build ./... ./bencode/...", shell=True, cwd=W, env=env, capture_output=True, text=True)
            if p.returncode and "imported and not used" in p.stdout + p.stderr:
                pass
            if p.returncode:
                say("nobuild " + where); continue
            p = subprocess.run("go test -vet=off -count=1 -timeout 30s ./... ./bencode/...", shell=True, cwd=W, env=env, capture_output=True, text=True, timeout=120)
            if p.returncode:
                say("tests " + where); continue
            got = None
            for c in CHECKS[f].split():
                try:
                    p = subprocess.run([V + "/check", c, "quick", "-secs", SECS, "-workers", "3"], env=dict(ENV, VERIF_REPO=W), capture_output=True, text=True, timeout=300)
                except subprocess.TimeoutExpired:
                    say("timeout(%s) " % c + where); continue
                if p.returncode:
                    got = "%s rc=%d" % (c, p.returncode); break
            say(("caught %s [%s %.0fs]" % (where, got, time.time() - t0)) if got else ("MISSED %s [%.0fs]" % (where, time.time() - t0)))
        except Exception as e:
            say("error %s %s" % (where, e))
    shutil.rmtree(W, ignore_errors=True)
ts = [threading.Thread(target=work, args=(k,)) for k in range(N)]
[t.start() for t in ts]
[t.join() for t in ts]
