#!/usr/bin/env python3
"""mutants.py OUT.jsonl [-j N] [-from K] FILE PROP,PROP... [FILE PROPS...]: makes every small change that tools/mutate lists in a scratch copy
of /repo, keeps those that compile and pass the tests, and runs the quick checks of the given properties, in this order,
until one reports a violation. For use while working; no check uses it."""
import json, os, subprocess, sys, shutil, threading, queue, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV = dict(os.environ, GOFLAGS="", GOPROXY="off", GOTOOLCHAIN="local", GOENV="off")


def sh(cmd, cwd, timeout=900, **env):
    try:
        r = subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True, env=dict(ENV, **env), timeout=timeout)
        return r.returncode, r.stdout + r.stderr
    except subprocess.TimeoutExpired:
        return -9, "timeout"


def survives(w, f):
    with open(w + "/go.work", "w") as fh:
        fh.write("go 1.25\n\nuse (\n\t.\n\t./autoversion\n)\n")
    try:
        if f.endswith("charprops/generate.go"):
            return sh("go vet -c=0 ./generate.go 2>&1; go build -o /dev/null ./generate.go", w + "/textseg/internal/charprops")[0] == 0
        rc, o = sh("go build ./... && go test -vet=off -timeout 60s ./textseg/...", w, 200)
        if rc == 0 and "gentable" in f:
            rc, o = sh("go build -o /dev/null ./generate.go", w + "/textseg/internal/charprops")
        if rc == 0 and f.startswith("autoversion"):
            rc, o = sh("go test -vet=off -timeout 60s ./... && /opt/veriftools/go1.26.10/bin/go test -vet=off -timeout 60s ./...", w + "/autoversion", 200)
        return rc == 0
    finally:
        os.unlink(w + "/go.work")


def main():
    a = sys.argv[1:]
    out = a.pop(0)
    n, start = 2, 0
    if a[0] == "-j":
        n = int(a[1]); a = a[2:]
    if a[0] == "-from":
        start = int(a[1]); a = a[2:]
    subprocess.check_call("GOWORK=off go build -o /tmp/mutate-tool .", shell=True, cwd=V + "/tools/mutate", env=ENV)
    jobs = queue.Queue()
    for f, props in zip(a[::2], a[1::2]):
        lister = "/tmp/mutate-tool"
        if f.startswith("cond:"):
            f, lister = f[5:], V + "/tools/condmutate.py"
        for k, l in enumerate(subprocess.check_output([lister, "/repo/" + f], text=True).splitlines()):
            if k >= start:
                jobs.put((f, k, json.loads(l), props.split(",")))
    lock = threading.Lock()
    fh = open(out, "a")
    counts = {}

    def work(t):
        w = "/tmp/mutant-%d-%d" % (os.getpid(), t)
        shutil.copytree("/repo", w, symlinks=True)
        try:
            while True:
                try:
                    f, k, m, props = jobs.get_nowait()
                except queue.Empty:
                    return
                src = open("/repo/" + f, "rb").read()
                new = src[:m["at"]] + m["text"].encode() + src[m["end"]:]
                if new == src:
                    continue
                with open(w + "/" + f, "wb") as g:
                    g.write(new)
                r = {"file": f, "n": k, "what": m["what"]}
                if not survives(w, f):
                    r["result"] = "killed by tests"
                else:
                    r["result"] = "MISSED"
                    r["ran"] = {}
                    for p in props:
                        rc, o = sh("%s/check.py %s quick" % (V, p), V, 1000, VERIF_REPO=w)
                        r["ran"][p] = rc
                        if rc == 1:
                            r["result"] = "caught by " + p
                            break
                        if rc != 0:
                            r["result"] = "NO ANSWER " + p + o[-500:]
                            break
                with open(w + "/" + f, "wb") as g:
                    g.write(src)
                with lock:
                    counts[r["result"][:20]] = counts.get(r["result"][:20], 0) + 1
                    fh.write(json.dumps(r) + "\n")
                    fh.flush()
        finally:
            shutil.rmtree(w, ignore_errors=True)
    ts = [threading.Thread(target=work, args=(t,)) for t in range(n)]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    print(counts)


main()
