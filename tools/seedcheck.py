#!/usr/bin/env python3
"""seedcheck.py [--no-check] ID...: applies each planted bug to /repo, runs build, tests, demo and the property's quick check, and undoes it.

For use while working; no check uses it."""
import json, os, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = os.path.join(V, "seeded")


def sh(cmd, **k):
    return subprocess.run(cmd, shell=isinstance(cmd, str), capture_output=True, text=True, **k)


def clean():
    sh("git -C /repo checkout -- . && git -C /repo clean -fdq")


args = [a for a in sys.argv[1:] if not a.startswith("-")]
ids = args or sorted(os.listdir(S))
for i in ids:
    d = os.path.join(S, i)
    prop = json.load(open(d + "/meta.json"))["property"]
    assert not sh("git -C /repo status --porcelain").stdout, "dirty"
    r = sh(["bash", d + "/demo.sh"], cwd="/repo")
    out = ["demo clean: %d" % r.returncode]
    if r.returncode:
        out.append((r.stdout + r.stderr)[-2000:])
    try:
        a = sh("git -C /repo apply " + d + "/patch.diff")
        assert a.returncode == 0, a.stderr
        b = sh("bash /opt/vp/build.sh")
        out.append("build: %d %s" % (b.returncode, b.stderr[-1500:]))
        sh("bash /opt/vp/test.sh /tmp/seedcheck.json")
        j = json.load(open("/tmp/seedcheck.json"))
        base = json.load(open("/opt/vp/BASELINE.json"))
        def passing(x):
            for k in ("passed", "stable"):
                if k in x:
                    return set(x[k])
            raise Exception(list(x))
        lost = passing(base) - passing(j)
        out.append("tests lost: %d %s" % (len(lost), sorted(lost)[:3]))
        r = sh(["bash", d + "/demo.sh"], cwd="/repo")
        out.append("demo patched: %d %s" % (r.returncode, (r.stdout + r.stderr)[-400:].replace("\n", " | ")))
        if "--no-check" not in sys.argv:
            t = time.time()
            r = sh([V + "/check.py", prop, "quick"])
            out.append("check %s: %d (%.0f s) %s" % (prop, r.returncode, time.time() - t, "\n".join(l for l in r.stdout.splitlines() if "VIOLATION" in l or "found by" in l or "note" in l)[:1200] + r.stderr[-300:]))
    finally:
        clean()
    print("==", i, prop)
    for o in out:
        print("  ", o)
    sys.stdout.flush()
