"""Building, running and judging: shared by all checks."""
import json, os, re, resource, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
HARNESS = os.path.join(VERIF, "harness")
BUILD = os.path.join(VERIF, ".build")
MODULE = "github.com/apparentlymart/go-textseg/v17"
GOROOTS = {v: "/opt/veriftools/go" + v for v in ("1.23.12", "1.24.13", "1.25.14", "1.26.10", "1.27.3")}
MAIN = "1.27.3"


class Broken(Exception):
    """The check itself cannot give an answer."""


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.thorough = tier == "thorough"
        self.start = time.time()
        self.limit = 860 if not self.thorough else 870
        os.makedirs(BUILD, exist_ok=True)
        self.dir = tempfile.mkdtemp(prefix="run-%s-" % prop, dir=BUILD)
        self.notes = []
        workfile(self)

    def left(self):
        return self.limit - (time.time() - self.start)

    def path(self, *p):
        return os.path.join(self.dir, *p)

    def close(self):
        # Test data may hold directories without permissions.
        shutil.rmtree(self.dir, ignore_errors=True)


def go_env(version=MAIN, race=False, work=None, extra=None):
    root = GOROOTS[version]
    env = {
        "HOME": os.environ.get("HOME", "/root"), "LANG": "C.UTF-8",
        "PATH": root + "/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
        "GOROOT": root, "GOTOOLCHAIN": "local", "GOPROXY": "off", "GOSUMDB": "off", "GOFLAGS": "", "GOENV": "off", "GO111MODULE": "on",
        "CGO_ENABLED": "1" if race else "0",
        "GOPATH": "/root/go", "GOMODCACHE": "/root/go/pkg/mod",
        "GOCACHE": os.path.join(BUILD, "gocache"),
        "GOWORK": work or os.path.join(HARNESS, "go.work"),
        "GOTELEMETRY": "off",
    }
    env.update(extra or {})
    return env


def go(version=MAIN):
    return GOROOTS[version] + "/bin/go"


def workfile(ctx):
    """A go.work for REPO (the committed one names /repo)."""
    if REPO == "/repo":
        return os.path.join(HARNESS, "go.work")
    p = ctx.path("go.work")
    if os.path.exists(p):
        return p
    with open(p, "w") as f:
        f.write("go 1.25\n\nuse (\n\t%s\n\t%s\n\t%s/autoversion\n)\n" % (HARNESS, REPO, REPO))
    return p


def run(cmd, cwd=None, env=None, timeout=None, limits=None):
    """Returns (rc, stdout, stderr); rc is None if the time ran out."""
    def pre():
        for k, v in (limits or {}).items():
            resource.setrlimit(k, (v, v))
    p = subprocess.Popen(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, stdin=subprocess.DEVNULL,
                         preexec_fn=pre, start_new_session=True)
    try:
        out, err = p.communicate(timeout=timeout)
        rc = p.returncode
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, 9)
        except ProcessLookupError:
            pass
        out, err = p.communicate()
        rc = None
    return rc, out.decode("utf-8", "replace"), err.decode("utf-8", "replace")


def build(ctx, out, pkg, cwd, overlay=None, race=False, version=MAIN, args=(), env=None, work=None):
    """go build; returns (path or None, messages)."""
    cmd = [go(version), "build", "-o", out]
    if race:
        cmd.append("-race")
    if overlay:
        p = out + ".overlay.json"
        with open(p, "w") as f:
            json.dump({"Replace": overlay}, f)
        cmd += ["-overlay", p]
    cmd += list(args) + [pkg]
    rc, so, se = run(cmd, cwd=cwd, env=go_env(version, race, work or workfile(ctx), env), timeout=max(30, ctx.left()))
    return (out if rc == 0 else None), so + se


def repo_builds(ctx):
    for d in (REPO, os.path.join(REPO, "autoversion")):
        rc, so, se = run([go(), "build", "./..."], cwd=d, env=go_env(work=workfile(ctx)), timeout=max(30, ctx.left()))
        if rc != 0:
            return False, so + se
    return True, ""


def internal_overlay(ctx, names):
    """Overlay entries that put harness/_internal/NAME/*.go below the library's internal packages."""
    ov = {}
    for n in names:
        src = os.path.join(HARNESS, "_internal", n)
        for f in sorted(os.listdir(src)):
            if f.endswith(".go"):
                ov[os.path.join(REPO, "textseg", "internal", "zzverif", n, f)] = os.path.join(src, f)
    return ov


CRASH = re.compile(r"^(panic:|fatal error:|runtime: out of memory|runtime: goroutine stack exceeds|SIGSEGV|unexpected fault)", re.M)


def run_harness(ctx, binary, args, name, env=None, big_memory=False):
    """Runs a kit-based binary: BINARY args... RESULT. Returns its result; a reproducible crash becomes a finding."""
    crashes = []
    for attempt in range(3):
        res = ctx.path("%s-%d.json" % (re.sub(r"[^\w.-]", "_", name), attempt))
        limits = None if big_memory else {resource.RLIMIT_AS: 14 << 30}
        if limits and ctx.tier == "thorough":  # huge buffers are the same pages mapped many times, not data
            limits = {resource.RLIMIT_AS: 100 << 30, resource.RLIMIT_DATA: 14 << 30}
        rc, so, se = run([binary] + args + [res], cwd=ctx.dir, env=env or {"PATH": "/usr/bin:/bin", "HOME": ctx.dir, "GOTRACEBACK": "all"},
                         timeout=max(20, ctx.left() - 15), limits=limits)
        sys.stdout.write("".join("[%s] %s\n" % (name, l[:900]) for l in so.splitlines()[:40]))
        if rc in (0, 1) and os.path.exists(res):
            with open(res) as f:
                r = json.load(f)
            r["found"] = r.get("found") or []
            return r
        if rc is None:
            return {"found": [], "coverage": {"exhaustive": False, "cut_short": "the time limit ended this part"}, "wall_s": 0}
        crashes.append((rc, se))
        if len(crashes) == 2:
            break
    rc, se = crashes[-1]
    if all(CRASH.search(s) and (MODULE in s or REPO + "/" in s) for _, s in crashes):
        m = CRASH.search(se)
        return {"found": [{"kind": "crash", "message": "the process crashed, twice, in code that recover() cannot catch or with the library on the stack:\n" + se[m.start():][:6000]}],
                "coverage": {"exhaustive": False}, "wall_s": 0}
    raise Broken("%s: exit status %s\n%s" % (name, rc, se[-3000:]))


def confirm(binary, finding, ctx, env=None):
    """Re-runs one finding alone, 5 times. True: it failed every time."""
    p = ctx.path("replay.json")
    with open(p, "w") as f:
        json.dump(finding, f)
    n = 0
    for _ in range(5):
        rc, so, se = run([binary, "replay", p], cwd=ctx.dir, env=env or {"PATH": "/usr/bin:/bin", "HOME": ctx.dir}, timeout=60)
        if rc == 1 or rc is None or (rc not in (0, 2) and CRASH.search(se)):
            n += 1
    return n


class Part:
    """The outcome of one part of a check."""
    def __init__(self, name, result, confirmed=None):
        self.name, self.found, self.coverage = name, result["found"], result["coverage"]
        self.wall = result.get("wall_s", 0)


def skipped(ctx, name, why):
    ctx.notes.append("%s: not run: %s" % (name, why))
    return Part(name, {"found": [], "coverage": {"exhaustive": False, "not_run": why[:2000]}})


def harness_part(ctx, name, binary, args, env=None, rerun=True, big_memory=False):
    """Runs a harness and, if it found something, makes sure that it is real before it is reported."""
    r = run_harness(ctx, binary, args, name, env, big_memory)
    if r["found"] and r["found"][0]["kind"] != "crash":
        keep = []
        for f in r["found"][:3]:
            n = confirm(binary, f, ctx, env)
            f["reproduced_alone"] = "%d of 5" % n
            if n:
                keep.append(f)
        if not keep and rerun:
            # It does not fail on its own: it may need what came before it, or other threads. See if the run finds
            # something again.
            r2 = run_harness(ctx, binary, args, name + "-again", env, big_memory)
            if r2["found"]:
                keep = r2["found"][:3]
                for f in keep:
                    f["reproduced_alone"] = "no, but two complete runs of the exploration failed"
            else:
                ctx.notes.append("%s: a failure was seen once and never again; not reported: %.500s" % (name, r["found"][0].get("message")))
                r["coverage"]["exhaustive"] = False
        r["found"] = keep
    return Part(name, r)
